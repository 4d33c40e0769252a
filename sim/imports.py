"""
Imports: the library can be imported with or without NumPy, in any order, and
after imports that were interrupted or that failed; it then works, and the
results do not depend on how it was imported.

Runs are executed in processes forked from another process (see Server), that
has not imported the library (nor NumPy, in some of the runs).
"""

import errno
import importlib
import importlib.machinery
import importlib.util
import json
import os
import random
import subprocess
import sys
import threading
import types
import warnings

from . import runner
from .kernel import MON, TOOL

MODULES = ['uncertainties', 'uncertainties.core', 'uncertainties.umath',
           'uncertainties.umath_core']
NUMPY_MODULES = ['uncertainties.unumpy', 'uncertainties.unumpy.core',
                 'uncertainties.unumpy.ulinalg']
ONLY_WITH_NUMPY = set(['correlated_values', 'correlated_values_norm',
                       'correlation_matrix'])
IO = {'EIO': lambda: OSError(errno.EIO, 'simulated I/O error'),
      'EMFILE': lambda: OSError(errno.EMFILE, 'simulated lack of files'),
      'ENOMEM': lambda: MemoryError('simulated lack of memory'),
      'EINTR': lambda: KeyboardInterrupt('simulated interruption'),
      'broken': lambda: RuntimeError('simulated broken library')}
ATTEMPTS = 4


# -- import system ---------------------------------------------------------

CODES = {}      # file -> code


class Loader(importlib.machinery.SourceFileLoader):
    "Loads the modules of the library under the control of the simulator"

    on_load = None

    def get_code(self, fullname):
        if Loader.on_load is not None:
            Loader.on_load(fullname)
        code = CODES.get(self.path)
        if code is None:
            with open(self.path, 'rb') as f:
                code = compile(f.read(), self.path, 'exec', dont_inherit=True)
            CODES[self.path] = code
        return code


class Finder(object):

    without_numpy = False

    def find_spec(self, name, path=None, target=None):
        parts = name.split('.')
        if parts[0] == 'numpy' and self.without_numpy:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        if parts[0] != 'uncertainties':
            return None
        base = os.path.join(runner.REPO, *parts)
        if os.path.isdir(base):
            return importlib.util.spec_from_file_location(
                name, os.path.join(base, '__init__.py'),
                loader=Loader(name, os.path.join(base, '__init__.py')),
                submodule_search_locations=[base])
        if os.path.isfile(base+'.py'):
            return importlib.util.spec_from_file_location(
                name, base+'.py', loader=Loader(name, base+'.py'))
        return None


def watch(code):
    "The instructions of the code are reported to the simulator"
    MON.set_local_events(TOOL, code, MON.events.INSTRUCTION)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            watch(const)


def setup(mode):
    """
    Prepares the process from which runs are forked: "with" NumPy (already
    imported), "late" (NumPy is not imported yet) or "without" it
    """
    without_numpy = mode == 'without'
    from . import kernel
    kernel.patch_locks()
    import pickle, copy, inspect, gc
    finder = Finder()
    finder.without_numpy = without_numpy
    sys.meta_path.insert(0, finder)
    if mode == 'with':
        import numpy, numpy.linalg
    import past.builtins
    if mode != 'with' and 'numpy' in sys.modules:
        raise RuntimeError('NumPy is already imported')
    sys.pycache_prefix = '/nonexistent/sim'
    sys.dont_write_bytecode = True
    from . import execute, repro, settings, world
    for (folder, _, names) in os.walk(
            os.path.join(runner.REPO, 'uncertainties')):
        for name in names:
            if name.endswith('.py') and 'test' not in name:
                path = os.path.join(folder, name)
                try:
                    Loader('?', path).get_code('?')
                except SyntaxError:
                    pass
    if any(name.split('.')[0] == 'uncertainties' for name in sys.modules):
        raise RuntimeError('the library is already imported')
    warnings.simplefilter('ignore')
    MON.use_tool_id(TOOL, 'simulator')
    for code in CODES.values():
        watch(code)
    gc.disable()
    gc.collect()
    gc.freeze()


def aim(kernel, aims):
    """
    Sets the next faults a little after given lines of the modules are reached

    aims -- list of [module, position (in [0, 1]), number of ticks]
    """
    wanted = {}
    for (name, position, delay) in aims:
        (code, lines) = module_lines(name)
        if code is not None:
            wanted.setdefault(code, []).append(
                (lines[int(position*(len(lines)-1))], delay))

    def on_line(code, line):
        for item in wanted.get(code, ()):
            if kernel.in_op and kernel.faultable and line >= item[0]:
                wanted[code].remove(item)
                kernel.next_fault = kernel.step+item[1]
                kernel._compute_stop()
                break

    if kernel.mode != 'replay' and wanted:
        for code in wanted:
            MON.set_local_events(
                TOOL, code, MON.events.INSTRUCTION | MON.events.LINE)
        MON.register_callback(TOOL, MON.events.LINE, on_line)


def module_lines(name):
    base = os.path.join(runner.REPO, *name.split('.'))
    for path in (os.path.join(base, '__init__.py'), base+'.py'):
        code = CODES.get(path)
        if code is not None:
            return (code, sorted(set(
                line for (_, _, line) in code.co_lines() if line)))
    return (None, None)


# -- one execution ---------------------------------------------------------

def kind(value):
    if isinstance(value, type):
        return ['class', sorted(name for name in dir(value)
                                if not name.startswith('_abc'))]
    if isinstance(value, types.ModuleType):
        return ['module', value.__name__]
    if callable(value):
        return ['function', getattr(value, '__name__', None),
                getattr(value, 'name', None), value.__doc__]
    return [type(value).__name__]


def interface():
    "Public interface of the modules that are imported"
    result = {}
    for name in MODULES+NUMPY_MODULES:
        mod = sys.modules.get(name)
        if mod is None:
            continue
        names = set(getattr(mod, '__all__', ()))
        result[name] = dict((n, kind(getattr(mod, n))
                             if hasattr(mod, n) else 'missing') for n in names)
        result[name+' (documentation)'] = mod.__doc__
    return result


def do_import(step):
    if step['form'] == 'star':
        exec('from %s import *' % step['m'], {'__name__': 'user'})
    elif step['form'] == 'from' and '.' in step['m']:
        exec('from %s import %s' % tuple(step['m'].rsplit('.', 1)),
             {'__name__': 'user'})
    else:
        exec('import %s' % step['m'], {'__name__': 'user'})


def execute(plan):
    from . import execute as execute_module
    from . import repro, settings, world
    from .kernel import Kernel
    rng = random.Random('sched %s' % plan['seed'])
    kernel = Kernel(plan, rng, budget=3000000)
    settings.choose(plan['seed'])
    warnings.simplefilter('default', ResourceWarning)
    before = settings.snapshot()
    aim(kernel, plan.get('aims', []))
    state = {'problem': None, 'failing': {}, 'checks': 0}
    outcomes = {}

    def on_load(name):
        exc = state['failing'].pop(name, None)
        if exc is not None:
            kernel.fired['I/O '+exc] = kernel.fired.get('I/O '+exc, 0)+1
            task = kernel.cur
            task.injected.append(IO[exc]())
            raise task.injected[-1]
    Loader.on_load = staticmethod(on_load)

    import builtins
    original_import = builtins.__import__

    def simulated_import(name, *args, **kwargs):
        if name == 'numpy' and state['failing'] and args and args[0] and (
                str(args[0].get('__name__')).startswith('uncertainties')):
            on_load('numpy')
        return original_import(name, *args, **kwargs)
    builtins.__import__ = simulated_import

    def step_body(step, task):
        attempt = 0
        while not state['problem']:
            state['failing'] = dict(step.get('io') or {}) if not attempt else {}
            failure = None
            limit = sys.getrecursionlimit()
            kernel.op_begin('%s#%d' % (step['u'], attempt),
                            faultable=attempt < ATTEMPTS-1)
            try:
                try:
                    if step.get('stack') and not attempt:
                        try:
                            sys.setrecursionlimit(
                                execute_module.depth()+step['stack'])
                        except RecursionError:
                            pass
                    do_import(step)
                finally:
                    kernel.op_end()
                    sys.setrecursionlimit(limit)
            except BaseException as exc:
                failure = exc
            state['failing'] = {}
            injected = task.injected
            state['checks'] += 1
            if kernel.problem:
                state['problem'] = 'import of %s: %s' % (
                    step['m'], kernel.problem)
            if failure is None:
                if step['m'] in NUMPY_MODULES and not plan['numpy']:
                    state['problem'] = ('%s imported without NumPy'
                                        % step['m'])
                elif injected:
                    state['problem'] = (
                        'import of %s: exception %r was lost'
                        % (step['m'], injected[-1]))
                count('ok')
                return
            if any(failure is e for e in injected):
                count('interrupted')
            elif step.get('stack') and not attempt and isinstance(
                    failure, RecursionError):
                count('stack')
            elif (isinstance(failure, ImportError) and not plan['numpy']
                  and step['m'] in NUMPY_MODULES):
                count('no NumPy')
                return
            else:
                import traceback
                state['problem'] = 'import of %s: unexpected exception: %s' % (
                    step['m'], ''.join(traceback.format_exception(
                        type(failure), failure,
                        failure.__traceback__))[-900:])
                return
            failure.__traceback__ = None
            attempt += 1
            if attempt >= step.get('giveup', 100):
                return

    def count(what):
        outcomes['import: '+what] = outcomes.get('import: '+what, 0)+1

    result = {}

    def body(task):
        for step in plan['imports']:
            step_body(step, task)
        # Everything is imported in the end:
        for name in MODULES+(NUMPY_MODULES if plan['numpy'] else []):
            if state['problem']:
                return
            step_body({'u': 'end-'+name, 'm': name, 'form': 'import'}, task)

    kernel.install()
    kernel.run_inline(body)
    problem = state['problem'] or kernel.problem
    builtins.__import__ = original_import
    Loader.on_load = None
    if not problem:
        after = settings.snapshot()
        problem = settings.difference(before, after)
        if plan.get('late'):    # The import of NumPy changes settings
            problem = None
        if problem:
            problem = 'after the imports: '+problem
    run = None
    if not problem:
        result['interface'] = interface()
        missing = [(m, n) for (m, names) in result['interface'].items()
                   if isinstance(names, dict)
                   for (n, k) in names.items() if k == 'missing']
        if missing:
            problem = 'names that are not defined: %r' % missing[:5]
    if not problem:
        world.setup()
        program = {'seed': plan['seed'], 'tasks': plan['tasks'],
                   'sched': {'mode': 'replay'}}
        run = execute_module.Run(program)
        run.observer = repro.Observer(run)
        run.no_faults = True
        run.kernel = kernel
        kernel.run_inline(run.body(plan['tasks'][0]))
        for task in kernel.tasks:
            if task.crash:
                raise RuntimeError('harness: '+task.crash)
        problem = run.problem or kernel.problem
        if problem is None:
            try:
                run.world.check_everything(run.rng)
            except world.Problem as exc:
                problem = 'final checks: %s' % exc
        if problem is None:
            result['log'] = run.observer.end(plan['seed'])
        if problem:
            problem = 'after the imports (%s NumPy): %s' % (
                'with' if plan['numpy'] else 'without', problem)
        result.update(run.result())
    else:
        result.update({'trace': kernel.trace, 'stats': {
            'steps': kernel.step, 'ops': 0, 'checks': 0, 'sig': '',
            'fired': kernel.fired, 'outcomes': {}, 'kinds': {},
            'probes': {}}})
    result['problem'] = problem
    stats = result['stats']
    stats['checks'] += state['checks']
    for (k, v) in outcomes.items():
        stats['outcomes'][k] = stats['outcomes'].get(k, 0)+v
    stats['nontrivial'] = True
    return result


# -- server ----------------------------------------------------------------

class Server(object):
    "Process from which the runs are forked"

    def __init__(self, mode):
        env = dict(os.environ)
        env['PYTHONPATH'] = os.path.dirname(os.path.dirname(
            os.path.abspath(__file__)))
        self.owner = os.getpid()
        self.process = subprocess.Popen(
            [sys.executable, '-B', '-m', 'sim.imports', mode],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)

    def run(self, plan):
        self.process.stdin.write(json.dumps(plan)+'\n')
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise runner.HarnessError('no answer from the other process')
        out = json.loads(line)
        if 'harness' in out:
            raise runner.HarnessError(out['harness'])
        return (out['value'], out['death'])


SERVERS = {}


def run_elsewhere(plan):
    mode = ('without' if not plan['numpy'] else
            'late' if plan.get('late') else 'with')
    server = SERVERS.get(mode)
    if server is None or server.owner != os.getpid():
        server = SERVERS[mode] = Server(mode)
    return server.run(plan)


REFERENCE = {}


def reference(numpy):
    "Interface after normal imports"
    if numpy not in REFERENCE:
        (result, death) = run_elsewhere(
            {'seed': 'reference', 'numpy': numpy, 'imports': [],
             'tasks': [[]], 'sched': {'mode': 'replay'}})
        if result is None:
            result = {'problem': death}
        REFERENCE[numpy] = result
    return REFERENCE[numpy]


def different_interfaces(expected, found, numpy):
    for (mod, names) in sorted(expected.items()):
        if mod not in found:
            return '%s is missing' % mod
        if not isinstance(names, dict):
            if names != found[mod]:
                return '%s is different' % mod
            continue
        for n in sorted(set(names) | set(found[mod])):
            if not numpy and n in ONLY_WITH_NUMPY:
                continue
            if n not in found[mod]:
                return '%s.%s is missing' % (mod, n)
            if n not in names:
                return '%s.%s is added' % (mod, n)
            if names[n] != found[mod][n]:
                return '%s.%s is different' % (mod, n)
    return None


def run_imports(plan):
    (result, death) = run_elsewhere(plan)
    if result is None:
        return runner.dead(plan, death)
    if not result['problem']:
        ref = reference(plan['numpy'])
        if ref['problem']:
            result['problem'] = 'normal imports: '+ref['problem']
        else:
            d = different_interfaces(ref['interface'], result['interface'],
                                     True)
            if d:
                result['problem'] = 'after failed imports: '+d
    if not result['problem'] and (not plan['numpy'] or plan.get('late')):
        # Same results with NumPy (and normal imports):
        ref = reference(True)
        other = dict(plan, numpy=True, late=False, imports=[],
                     sched={'mode': 'replay', 'decisions': []})
        (alone, death) = run_elsewhere(other)
        if alone is None:
            return runner.dead(plan, death)
        if alone['problem']:
            result['problem'] = alone['problem']
        else:
            from . import repro
            d = repro.difference(*[
                [item for item in r['log']
                 if plan['numpy'] or item[1] != 'correlation_matrix']
                for r in (alone, result)])
            if d:
                result['problem'] = ('different results %s: %s' % (
                    'without NumPy' if not plan['numpy'] else
                    'when NumPy is imported later', d))
            expected = dict(
                (k, v) for (k, v) in alone['interface'].items()
                if 'unumpy' not in k)
            d = not plan['numpy'] and different_interfaces(expected, result['interface'], False)
            if d:
                result['problem'] = 'without NumPy: '+d
            result['stats']['checks'] += len(alone['log'])
            result['stats']['probes'][
                'NumPy imported later' if plan['numpy'] else
                'compared with and without NumPy'] = 1
    result.pop('log', None)
    result.pop('interface', None)
    return result


# -- plans -----------------------------------------------------------------

def adapted(op):
    "Operation that can be done without NumPy"
    op = dict(op)
    if op.get('how') == 'np':
        del op['how']
    if op.get('k') == 'nsum':
        op['k'] = 'sum'
    if op.get('ns') == 'unumpy':
        op['ns'] = 'umath'
    if op['o'] in ('fn', 'sum', 'call'):
        op['a'] = [['c', a[1], 'f'] if a[0] == 'c' and a[2] == 'n' else a
                   for a in op['a']]
    return op


def make_plan(prop, seed):
    from . import gen
    rng = random.Random('plan %s %s' % (prop, seed))
    numpy = rng.random() < .6
    w = gen.merged((gen.CALC, .8), ({'read': 6, 'copy': .6, 'deepcopy': .6,
                                     'pickle': .7, 'set': 1, 'call': 1.5,
                                     'mkwrap': .7, 'badset': .2, 'badnew': .3},
                                    1),
                   (gen.ARR, rng.choice([.3, .6]) if numpy else 0))
    opts = {'numpy': numpy, 'zeros': rng.choice([0, .1])}
    if not numpy:
        for k in list(gen.ARR)+['corr']:
            w.pop(k, None)
    program = gen.single(rng, seed, w, rng.randint(4, 20), None, opts)
    if not numpy:
        program['tasks'][0] = [adapted(op) for op in program['tasks'][0]
                               if op.get('w') != 'cor']
    late = numpy and rng.random() < .04
    modules = MODULES+NUMPY_MODULES
    if late:
        modules = modules+['numpy']
    steps = []
    faults = rng.random() < .85
    for i in range(rng.randint(1, 6)):
        step = {'u': 'i%d' % i, 'm': rng.choice(modules),
                'form': rng.choice(['import', 'import', 'from', 'star'])}
        if faults:
            r = rng.random()
            if r < .25:
                step['io'] = {rng.choice(modules): rng.choice(
                    ['EIO', 'EMFILE', 'ENOMEM', 'EINTR'])}
            elif r < .33 and numpy:
                step['io'] = {'numpy': rng.choice(
                    ['ENOMEM', 'EINTR', 'broken', 'EIO'])}
            elif r < .43 and not late:
                step['stack'] = rng.randint(4, 40)
            if rng.random() < .5:
                step['giveup'] = rng.randint(1, 2)
        steps.append(step)
    sched = {}
    if faults and rng.random() < .8:
        sched = {'fault_mean': rng.choice([30, 100, 300, 1000, 2000]),
                 'fault_kinds': rng.sample(gen.RECOVERABLE, rng.randint(1, 4)),
                 'max_faults': rng.choice([1, 3, 8])}
    aims = []
    if faults and rng.random() < .6:
        sched = {'fault_kinds': gen.RECOVERABLE, 'max_faults': 8}
        for i in range(rng.choice([1, 1, 2, 4])):
            aims.append([rng.choice(MODULES+NUMPY_MODULES), rng.random(),
                         int(10**rng.uniform(0, rng.choice([1, 3.3])))])
    if rng.random() < .3:
        sched['lines'] = True
    return {'kind': 'imports', 'seed': seed, 'prop': prop, 'numpy': numpy,
            'late': late, 'imports': steps, 'aims': aims,
            'tasks': program['tasks'], 'sched': sched,
            'shrink': [['imports'], ['tasks', 0]]}


def main():
    setup(sys.argv[1])
    answers = os.dup(1)
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            (value, death) = runner.in_child(execute, json.loads(line))
            out = {'value': value, 'death': death}
        except runner.HarnessError as exc:
            out = {'harness': str(exc)}
        try:
            os.write(answers, (json.dumps(out)+'\n').encode())
        except OSError:     # The other process has ended
            break


if __name__ == '__main__':
    main()
