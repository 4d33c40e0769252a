"""
New processes, forked by one of the threads between two of its operations, while
other threads are in the middle of theirs: these threads do not exist in the
new process.  Both processes go on; the new one also
completes what the other threads were doing, and sends numbers back.
"""

import base64
import json
import os
import random
import select
import signal
import time
import traceback

from . import execute, gen, model, persist, userfuncs
from .world import Problem

WALL = 60       # s, for a forked process


class ForkRun(execute.Run):

    def __init__(self, plan):
        execute.Run.__init__(self, plan)
        self.world = persist.PersistWorld()
        self.pipe = None        # In a forked process
        self.positions = {}
        self.received = []

    def body(self, ops):
        ops = list(ops)

        def run(task):
            for (i, op) in enumerate(ops):
                self.positions[task.tid] = i
                if self.problem is not None:
                    break
                if op['o'] == 'fork':
                    if self.pipe is None:
                        self.fork()
                else:
                    self.exec_op(op, task)
            self.positions[task.tid] = len(ops)
            if self.pipe is not None:
                self.end_of_fork(task)
        return run

    def fork(self):
        fired = self.kernel.fired
        fired['fork'] = fired.get('fork', 0)+1
        interrupted = [t for t in self.kernel.tasks
                       if t is not self.kernel.cur and t.kdone]
        if interrupted:
            self.world.probes['forks during operations'] = (
                self.world.probes.get('forks during operations', 0)+1)
        before = {'ops': self.n_ops, 'checks': self.world.n_checks,
                  'steps': self.kernel.step}
        (r, w) = os.pipe()
        pid = os.fork()
        if not pid:
            os.close(r)
            self.pipe = w
            self.before = before
            # An iterator of derivatives that is being used by a thread that
            # does not exist any more cannot be used:
            self.world.in_handler += 1
            self.kernel.alone()
            return
        os.close(w)
        chunks = []
        deadline = time.monotonic()+WALL
        late = False
        while True:
            left = deadline-time.monotonic()
            ready = left > 0 and select.select([r], [], [], left)[0]
            if not ready:
                late = True
                os.kill(pid, signal.SIGKILL)
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
        os.close(r)
        (_, status) = os.waitpid(pid, 0)
        try:
            out = json.loads(b''.join(chunks))
        except ValueError:
            out = {'problem': 'blocked' if late else
                   'ended with the status %d' % status}
        if 'harness' in out:
            raise RuntimeError('in a forked process: '+out['harness'])
        if out['problem']:
            if self.problem is None:
                self.problem = 'in a forked process: '+out['problem']
            return
        for (k, v) in out['stats'].items():
            if k == 'ops':
                self.n_ops += v
            elif k == 'checks':
                self.world.n_checks += v
            else:
                self.world.probes['steps in forked processes'] = (
                    self.world.probes.get('steps in forked processes', 0)+v)
        if out['out']:
            self.received.append(out['out'])

    def end_of_fork(self, task):
        "End of a forked process"
        try:
            out = self.rest(task)
        except BaseException:
            out = {'harness': traceback.format_exc()[-3000:]}
        try:
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(self.pipe, data):]
        finally:
            os._exit(0)

    def rest(self, task):
        "What the other threads were doing"
        w = self.world
        k = self.kernel
        if k.problem and self.problem is None:
            self.problem = k.problem
        for (tid, ops) in enumerate(self.plan['tasks']):
            if tid == task.tid:
                continue
            for op in ops[self.positions.get(tid, 0):]:
                if op['o'] != 'fork':
                    self.exec_op(op, task)
        if self.problem is None:
            try:
                w.check_everything(self.rng)
            except Problem as exc:
                self.problem = 'final checks: %s' % exc
            except Exception as exc:
                error = execute.library_error(exc)
                if error is None:
                    raise
                self.problem = 'final checks: '+error
        if self.problem is None:
            rng = random.Random('sent %s' % self.plan['seed'])
            slots = [s for (s, x) in w.m.items()
                     if isinstance(x, (model.MNum, persist.MArr))
                     and s in w.r]
            if slots and rng.random() < .7:
                self.exec_op({
                    'o': 'dump', 'u': 'send', 'p': rng.choice([2, 4, 5]),
                    'how': rng.choice(['list', 'tuple', 'dict', 'nested']),
                    'a': [['s', s] for s in rng.sample(
                        slots, rng.randint(1, min(6, len(slots))))]}, task)
        if k.problem and self.problem is None:
            self.problem = k.problem
        return {'problem': self.problem, 'out': w.out, 'stats': {
            'ops': self.n_ops-self.before['ops'],
            'checks': w.n_checks-self.before['checks'],
            'steps': k.step-self.before['steps']}}

    def after_tasks(self):
        "Numbers received from forked processes"
        w = self.world
        for (i, inc) in enumerate(self.received):
            w.receive(renamed(inc, 'f%d:' % i))
            w.probes['groups of numbers sent back'] = (
                w.probes.get('groups of numbers sent back', 0)+1)
            self.exec_op({'o': 'restore', 'u': 'fr%d' % i,
                          'd': ['fr%d_%d' % (i, j) for j in range(inc['n'])]},
                         None, traced=False)


def renamed(inc, prefix):
    "Same numbers, on variables with other names"
    inc = dict(inc, partials=[])
    inc['model'] = {'values': inc['model']['values'], 'objs': [
        [n, isvar, [[prefix+v, c] for (v, c) in co]]
        for (n, isvar, co) in inc['model']['objs']]}
    for key in ('attrs', 'vars'):
        inc[key] = dict((prefix+v, x) for (v, x) in inc[key].items())
    return inc


def run_forks(plan):
    return ForkRun(plan).run()


def make_plan(prop, seed):
    rng = random.Random('plan %s %s' % (prop, seed))
    faults = rng.random() < .15
    opts = {'nonfinite': rng.random() < .2, 'faulty': faults, 'fake': .2,
            'sub': .1, 'lossy': True}
    extra = {'read': 9, 'copy': .5, 'deepcopy': .5, 'pickle': .5}
    arr = rng.choice([0, 0, .25])
    if rng.random() < .1:
        w = gen.merged((gen.CALC, 1), (gen.ARR, arr), (extra, 1),
                       ({'set': 2}, 1))
        plan = gen.single(rng, seed, w, rng.randint(5, 25),
                          'async' if faults else None, opts)
    elif rng.random() < .35:
        # First calls of functions
        pre = {'var': 1, 'mkwrap': 5, 'fn': 2}
        task = {'call': 10, 'fn': 5, 'sum': 1.5, 'read': 2, 'ldexp': .5,
                'frexp': .5, 'mkwrap': .5}
        plan = gen.threads(rng, seed, pre, task, rng.randint(2, 10), (2, 6),
                           faults, opts)
    else:
        pre = gen.merged((gen.CALC, 1), (gen.ARR, arr))
        task = gen.merged((gen.CALC, .5), (extra, 1), (gen.ARR, arr))
        plan = gen.threads(rng, seed, pre, task, rng.randint(4, 20), (1, 6),
                           faults, opts)
    for i in range(rng.choice([1, 1, 2, 3])):
        ops = rng.choice(plan['tasks'])
        ops.insert(rng.randint(0, len(ops)), {'o': 'fork', 'u': 'fork%d' % i})
    plan['kind'] = 'forks'
    plan['prop'] = prop
    return plan
