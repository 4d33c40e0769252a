"""
Reproducibility: a calculation gives exactly the same results, bit for bit,
when it is alone and when unrelated calculations are made in the same process
(before, between its operations, in other threads, in handlers of signals),
with failures, and with other memory addresses.
"""

import gc
import json
import os
import random
import subprocess
import sys

from . import runner, userfuncs
from .execute import Run
from .world import MArr, Problem

MODES = ['threads', 'handlers', 'between', 'before', 'layout', 'seed']


# -- observations ----------------------------------------------------------

def number(x):
    if isinstance(x, float):
        return float.hex(x)
    return repr(x)


def render(w, value):
    "Exact description of a result, without any memory address"
    import uncertainties.core as core
    if isinstance(value, core.AffineScalarFunc):
        return 'number'
    if isinstance(value, (bool, int, float, str, type(None))):
        return number(value)
    if isinstance(value, dict):
        return [[name(w, k), render(w, v)] for (k, v) in list(value.items())]
    if hasattr(value, 'tolist'):
        return [type(value).__name__, render(w, value.tolist())]
    if isinstance(value, (list, tuple)):
        return [render(w, x) for x in value]
    return type(value).__name__


def name(w, variable):
    return w.vid_of.get(id(variable), 'unknown')


def guarded(func, *args):
    try:
        return func(*args)
    except Exception as exc:
        return 'error: '+type(exc).__name__


def describe(w, x):
    "Everything that can be read from a number"
    return {
        'nominal value': guarded(lambda: number(x.nominal_value)),
        'uncertainty': guarded(lambda: number(x.std_dev)),
        'derivatives': guarded(lambda: render(w, x.derivatives)),
        'components': guarded(lambda: render(w, x.error_components())),
        'texts': guarded(lambda: [repr(x), str(x), format(x, '.3uS'),
                                  format(x, 'L')]),
    }


class Observer(object):
    "Results of the operations of a program"

    def __init__(self, run):
        self.run = run
        self.log = []

    def __call__(self, op, outcome, res):
        if outcome == 'ok':
            res = guarded(render, self.run.world, res)
        else:
            res = type(res).__name__
        if op['o'] not in ('gc', 'drop'):
            self.log.append([op.get('u', op['o']), outcome, res])

    def end(self, seed):
        w = self.run.world
        import uncertainties.core as core
        import uncertainties
        rng = random.Random('end %s' % seed)
        slots = sorted(slot for slot in w.r if slot in w.m)
        numbers = []
        for slot in slots:
            v = w.r[slot]
            if isinstance(v, core.AffineScalarFunc):
                numbers.append(v)
                self.log.append([slot, 'end', describe(w, v)])
            elif isinstance(w.m[slot], MArr):
                flat = [x for x in v.flat]
                numbers += [x for x in flat
                            if isinstance(x, core.AffineScalarFunc)]
                self.log.append([slot, 'end', [
                    describe(w, x) if isinstance(x, core.AffineScalarFunc)
                    else number(x) for x in flat]])
            elif not callable(v):
                self.log.append([slot, 'end', render(w, v)])
        for i in range(2):
            if numbers:
                some = [rng.choice(numbers) for _ in range(rng.randint(1, 6))]
                for f in ('covariance_matrix', 'correlation_matrix'):
                    with_warnings = lambda: render(
                        w, getattr(uncertainties, f)(some))
                    self.log.append(['group %d' % i, f,
                                     guarded(with_warnings)])
        return self.log


# -- one execution ---------------------------------------------------------

def simulated_addresses(seed):
    """
    Puts the function id() of the code under test under control (objects are
    kept, so that no number is used again).
    """
    rng = random.Random('id %s' % seed)
    known = {}

    def simulated_id(obj):
        if id(obj) not in known:
            known[id(obj)] = (obj, 16*(1+len(known)) if seed is None
                              else rng.getrandbits(47) << 4)
        return known[id(obj)][1]
    for (name, mod) in list(sys.modules.items()):
        if mod is not None and name.startswith('uncertainties'):
            mod.id = simulated_id


class Junk(object):
    "Other layouts of the memory"

    def __init__(self, seed, run):
        self.rng = random.Random('junk %s' % seed)
        self.kept = []
        self.run = run

    def __call__(self):
        rng = self.rng
        import uncertainties
        if rng.random() < .5:
            for _ in range(rng.randint(1, 6)):
                self.kept.append(rng.choice([
                    lambda: uncertainties.ufloat(1, .1),
                    lambda: {}, lambda: [None]*rng.randint(1, 30),
                    lambda: bytearray(rng.randint(1, 600)),
                    lambda: 1.5*rng.random(),
                    lambda: uncertainties.ufloat(1, .1)*2,
                    lambda: dict.fromkeys(range(rng.randint(0, 30))),
                ])())
        if rng.random() < .4 and self.kept:
            for _ in range(rng.randint(1, 8)):
                if self.kept:
                    del self.kept[rng.randrange(len(self.kept))]
        if rng.random() < .05:
            gc.collect()


def execute(job):
    "Results of the program of a plan, alone or not"
    (plan, mode, n) = job
    program = dict(plan['program'])
    seed = plan['seed']
    program['seed'] = seed
    if mode in ('alone', 'seed'):
        program['sched'] = {'mode': 'replay'}
    else:
        program['sched'] = plan['sched']
    simulated_addresses(None if mode in ('alone', 'seed')
                        else '%s %s' % (seed, n))
    other = dict(plan.get('other') or {'prelude': [], 'tasks': [[]]})
    other['seed'] = seed+'-other'
    run = Run(program)
    run.observer = Observer(run)
    run.no_faults = True
    noise = Run(other)
    noise.prefix = 'other.'
    noise.linked = run.world
    kernel = run.kernel
    noise.kernel = kernel
    if mode in ('layout', 'threads', 'handlers', 'between', 'before'):
        run.before_op = Junk('%s %s' % (seed, n), run)
    ops = program['tasks'][0]
    other_ops = other['tasks'][0]
    kernel.install()
    if mode == 'alone' or mode == 'layout' or mode == 'seed':
        kernel.run_inline(run.body(ops))
    elif mode == 'threads':
        for op in other['prelude']:
            noise.exec_op(op, None, traced=False)
        kernel.run_tasks([run.body(ops), noise.body(other_ops)])
    elif mode == 'before':
        def body(task):
            noise.body(other['prelude'])(task)
            noise.body(other_ops)(task)
            run.body(ops)(task)
        kernel.run_inline(body)
    elif mode == 'between':
        rng = random.Random('between %s' % seed)
        left = list(other['prelude'])+list(other_ops)

        def body(task):
            for op in ops:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    if left:
                        noise.body([left.pop(0)])(task)
                run.body([op])(task)
        kernel.run_inline(body)
    elif mode == 'handlers':
        for op in other['prelude']:
            noise.exec_op(op, None, traced=False)
        size = max(1, len(other_ops)//6)
        parts = [other_ops[i:i+size] for i in range(0, len(other_ops), size)]
        kernel.n_handlers = len(parts)
        noise.plan = dict(other, handlers=parts)
        kernel.run_handler = noise.run_handler
        kernel.run_inline(run.body(ops))
    for task in kernel.tasks:
        if task.crash:
            raise RuntimeError('harness: '+task.crash)
    kernel.fault_free = True
    result = run.result()
    problem = run.problem or kernel.problem
    if problem is None and noise.problem:
        problem = 'unrelated calculation: '+noise.problem
    result['problem'] = problem
    # (Derivatives of fsum() are taken from an iterator, that is lost if the
    # handling of an exception is interrupted: less precise numerical
    # derivatives are then used.)
    result['lost'] = noise.world.iterator_lost
    result['log'] = run.observer.end(seed)
    for (k, v) in noise.outcomes.items():
        k = 'unrelated: '+k
        result['stats']['outcomes'][k] = (
            result['stats']['outcomes'].get(k, 0)+v)
    return result


def other_interpreter(plan):
    "Same program, in an interpreter with another hash seed"
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(1+plan['hashseed'])
    env['PYTHONPATH'] = os.path.dirname(os.path.dirname(
        os.path.abspath(__file__)))
    out = subprocess.run(
        [sys.executable, '-B', '-m', 'sim.repro'],
        input=json.dumps(plan), stdout=subprocess.PIPE, text=True, env=env,
        timeout=200)
    try:
        return json.loads(out.stdout)
    except ValueError:
        raise runner.HarnessError('other interpreter: %r' % (out,))


def difference(log1, log2):
    for (a, b) in zip(log1, log2):
        if a != b:
            if a[:2] != b[:2]:
                return 'operation %s: %s instead of %s' % (a[0], b[1], a[1])
            what = ''
            (x, y) = (a[2], b[2])
            if isinstance(x, dict) and isinstance(y, dict):
                for k in sorted(x):
                    if x[k] != y[k]:
                        (what, x, y) = (k+' ', x[k], y[k])
                        break
            return '%s (%s): %s%s instead of %s' % (
                a[0], a[1], what, str(y)[:150], str(x)[:150])
    if len(log1) != len(log2):
        return '%d results instead of %d' % (len(log2), len(log1))
    return None


def run_repro(plan):
    mode = plan['mode']
    (alone, death) = runner.in_child(execute, (plan, 'alone', 0))
    if alone is None:
        return runner.dead(plan, death)
    result = alone
    if not alone['problem']:
        others = []
        for n in range(3 if mode == 'layout' else 1):
            if mode == 'seed':
                (other, death) = (other_interpreter(plan), None)
            else:
                (other, death) = runner.in_child(execute, (plan, mode, n))
            if other is None:
                return runner.dead(plan, death)
            if not other['problem'] and not other['lost']:
                d = difference(alone['log'], other['log'])
                if d:
                    other['problem'] = (
                        'different results %s: %s' % (WHEN[mode], d))
            result = other
            if other['problem']:
                break
    result.pop('log', None)
    stats = result['stats']
    stats['checks'] += len(alone['log'])
    stats['probes']['compared: '+mode] = 1
    stats['nontrivial'] = True
    stats['sig'] += mode
    return result


WHEN = {
    'threads': 'when another thread makes unrelated calculations',
    'handlers': 'when handlers make unrelated calculations',
    'between': 'when unrelated calculations are made in between',
    'before': 'after unrelated calculations',
    'layout': 'with other memory addresses',
    'seed': 'with another hash seed',
}


# -- plans -----------------------------------------------------------------

def make_plan(prop, seed):
    from . import gen
    rng = random.Random('plan %s %s' % (prop, seed))
    mode = rng.choices(MODES, [4, 2, 2, 1.5, 2.5, .25])[0]
    (program, weights, opts) = gen.gen_program(rng, seed)
    plan = {'kind': 'repro', 'seed': seed, 'prop': prop, 'mode': mode,
            'program': program, 'hashseed': rng.randrange(1 << 20),
            'shrink': [['program', 'tasks', 0]]}
    if mode in ('layout', 'seed'):
        plan['sched'] = {}
        return plan
    faults = rng.random() < .4
    if rng.random() < .5:
        # The same calculation, with other numbers
        other = {'prelude': [], 'tasks': [[dict(op) for op in
                                           program['tasks'][0]]]}
        p = rng.choice([0, 0, .3, 1])
        if p:
            # (Standard scores are not defined for exact numbers.)
            other['tasks'][0] = [op for op in other['tasks'][0]
                                 if op.get('w') != 'score']
        for op in other['tasks'][0]:
            if op['o'] == 'var' and rng.random() < p:
                op['s'] = rng.choice([0., 1., .125, op['s']*2 or .5])
                if op.get('how') in ('text', 'oldtext'):
                    op['how'] = 'np'
                op.pop('warn', None)
        # ... or equal numbers, with another sign of zeros:
        p = rng.choice([0, 0, .5, 1])
        for op in other['tasks'][0]:
            if rng.random() < p:
                if op['o'] == 'var' and op['n'] == 0:
                    op['n'] = -op['n']
                if op['o'] in ('fn', 'call'):
                    op['a'] = [['c', -a[1], a[2]] if a[0] == 'c'
                               and a[1] == 0 else a for a in op['a']]
    else:
        other = gen.gen_other(rng, seed, weights, opts)
    plan['other'] = other
    plan['shrink'] += [['other', 'tasks', 0], ['other', 'prelude']]
    sched = (gen.sched_threads if mode == 'threads'
             else gen.sched_single)(rng, faults)
    if mode == 'handlers':
        sched['handler_mean'] = rng.choice([4, 10, 30, 100, 200])
    plan['sched'] = sched
    return plan


if __name__ == '__main__':
    plan = json.load(sys.stdin)
    runner.setup()
    (result, death) = runner.in_child(execute, (plan, 'seed', 0))
    if result is None:
        result = {'problem': death, 'stats': {}, 'trace': [], 'log': []}
    json.dump(result, sys.stdout)
