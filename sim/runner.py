"""
Isolation of simulated runs: each one is executed in a process forked from a
pristine process that has only imported the code under test.
"""

import gc
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

CPU_LIMIT = 40          # s, for one simulated run
WALL_LIMIT = 300        # s
MEMORY_LIMIT = 3 << 30

REPO = os.environ.get('SIM_REPO', '/repo')


def setup():
    "Prepares a process from which simulated runs can be forked"
    from . import kernel
    kernel.patch_locks()
    # Compiled versions of the code under test are never read or written
    # (they can be obsolete):
    import numpy, numpy.linalg, pickle, copy, inspect, lib2to3.main
    import lib2to3.refactor, warnings
    sys.pycache_prefix = '/nonexistent/sim'
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    from . import world
    world.setup()
    import uncertainties
    origin = os.path.realpath(uncertainties.__file__)
    if not origin.startswith(os.path.realpath(REPO)+os.sep):
        raise RuntimeError('the code under test comes from %s' % origin)
    from . import execute, gen, special
    import pkgutil
    import uncertainties.lib1to2.fixes as fixes
    for (_, name, _) in pkgutil.iter_modules(fixes.__path__):
        __import__('uncertainties.lib1to2.fixes.'+name)
    n = kernel.instrument(execute.traced_modules())
    gc.disable()
    gc.collect()
    gc.freeze()
    return n


def in_child(func, arg, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    """
    Result of func(arg), calculated in a new process; None if the process
    died, along with a description of what happened.
    """
    (r, w) = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        status = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu+5))
            resource.setrlimit(resource.RLIMIT_AS,
                               (MEMORY_LIMIT, MEMORY_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            gc.collect()    # Clears the free lists of the interpreter
            try:
                out = {'value': func(arg)}
            except BaseException:
                out = {'harness': traceback.format_exc()[-3000:]}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            status = 3
        finally:
            os._exit(status)
    os.close(w)
    chunks = []
    deadline = time.monotonic()+wall
    killed = False
    while True:
        left = deadline-time.monotonic()
        if left <= 0:
            killed = True
            os.kill(pid, signal.SIGKILL)
            break
        (ready, _, _) = select.select([r], [], [], left)
        if ready:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
    os.close(r)
    (_, status) = os.waitpid(pid, 0)
    if killed:
        return (None, 'still running after %d s' % wall)
    try:
        out = json.loads(b''.join(chunks))
    except ValueError:
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGXCPU, signal.SIGKILL):
                return (None, 'did not finish in %d s of CPU time' % cpu)
            return (None, 'crash of the process (signal %d)' % sig)
        return (None, 'crash of the process (status %d)' % status)
    if 'harness' in out:
        raise HarnessError(out['harness'])
    return (out['value'], None)


class HarnessError(Exception):
    "Problem in the simulator (not in the code under test)"


def _history(plan):
    from . import execute
    return execute.run_plan(plan)


def run(plan):
    """
    Executes a plan in isolation.  The result has fields 'problem', 'trace'
    and 'stats'; 'aborted' if the run cannot be used.
    """
    from . import special
    kind = plan.get('kind', 'history')
    try:
        if kind in special.RUNNERS:
            result = special.RUNNERS[kind](plan)
        else:
            (result, death) = in_child(_history, plan)
            if result is None:
                result = dead(plan, death)
    except HarnessError as exc:
        if not spoiled(plan, str(exc)):
            raise
        return dead(plan, 'crash of the interpreter (SystemError)')
    if result['problem'] and spoiled(plan, result['problem']):
        return dead(plan, 'crash of the interpreter (SystemError)')
    return result


def spoiled(plan, text):
    """
    True if CPython itself wrongly handled an allocation failure (it forgot to
    report it: the exception appears in a later, unrelated operation).
    """
    return plan.get('resource') == 'nomem' and (
        'SystemError' in text and 'exception set' in text)


def dead(plan, death):
    result = {'problem': None, 'trace': [], 'stats': {}}
    if plan.get('resource') == 'nomem':
        # CPython 3.12 itself does not survive all failed allocations (memory
        # corruption: crash or, rarely, infinite loop)
        result['aborted'] = death
    else:
        result['problem'] = death
    return result
