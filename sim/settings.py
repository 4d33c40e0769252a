"""
Settings of the process, that using the library must not change (not even for
a while, when other threads or functions of the user can notice).
"""

import atexit
import builtins
import copyreg
import decimal
import gc
import io
import locale
import math
import os
import random
import signal
import sys
import threading
import warnings

from . import userfuncs


def _names(obj):
    "Names and values (by identity) of a module, class..."
    return dict((k, id(v)) for (k, v) in vars(obj).items()
                if not k.startswith('__') or k in ('__all__', '__doc__'))


def _function(f):
    return [getattr(f, name, None) for name in (
        '__code__', '__doc__', '__name__', '__defaults__')]+[
            dict(getattr(f, '__dict__', {}))]


def _interface(mod):
    "Public names of a module of the library"
    names = list(getattr(mod, '__all__', ()))
    result = dict((name, id(value)) for (name, value) in vars(mod).items()
                  if not name.startswith('_') and (
                      name in names or callable(value)
                      or name.isupper() and isinstance(value, dict)))
    result['__all__'] = names
    # Global customization of the texts:
    for name in ('EXP_PRINT', 'GROUP_SYMBOLS', 'MULT_SYMBOLS'):
        if name in result:
            result[name] = sorted(map(repr, vars(mod)[name].items()))
    return result


def snapshot(full=True):
    """
    State of the settings: mapping from the names to the values.

    full -- if false, only the settings that are the most likely to be changed
    for a while.
    """
    s = {
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'filters of warnings': [repr(f) for f in warnings.filters],
        'display of warnings': (id(warnings.showwarning),
                                id(warnings.formatwarning)),
        'garbage collector': (gc.isenabled(), gc.get_threshold(),
                              len(gc.callbacks)),
        'tracing': (id(sys.gettrace()), id(sys.getprofile())),
        'random numbers': hash(random.getstate()),
        'decimal numbers': repr(decimal.getcontext()),
        'hooks': (id(sys.excepthook), id(sys.displayhook),
                  id(threading.excepthook), id(sys.unraisablehook)),
    }
    numpy = sys.modules.get('numpy')
    if numpy:
        s['errors of NumPy'] = numpy.geterr()
        s['error handler of NumPy'] = id(numpy.geterrcall())
    if not full:
        return s
    s.update({
        'standard files': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'open files': sorted(os.listdir('/proc/self/fd')),
        'functions called at exit': atexit._ncallbacks(),
        'threads': threading.active_count(),
        'locale': locale.setlocale(locale.LC_ALL),
        'current directory': os.getcwd(),
        'environment': dict(os.environ),
        'import path': list(sys.path),
        'signal handlers': [repr(signal.getsignal(n)) for n in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1,
            signal.SIGFPE, signal.SIGCHLD)],
        'timer': signal.getitimer(signal.ITIMER_REAL),
        'copy functions': dict(copyreg.dispatch_table),
        'module math': _names(math),
        'module builtins': _names(builtins),
        'user functions': dict(
            (name, [_function(f) for f in fs if f]) for (name, fs) in [
                (name, [t[0]]+list(t[1])+list(t[3].values()))
                for (name, t) in userfuncs.FUNCS.items()]),
    })
    for (name, mod) in list(sys.modules.items()):
        if name.split('.')[0] == 'uncertainties' and mod is not None:
            s['module '+name] = _interface(mod)
    if numpy:
        state = numpy.random.get_state()
        s['random numbers of NumPy'] = (state[0], state[1].tobytes(),
                                        state[2:])
        s['printing of NumPy'] = numpy.get_printoptions()
        s['module numpy'] = dict(
            (k, v) for (k, v) in _names(numpy).items()
            # (modules can be loaded when they are needed)
            if not isinstance(getattr(numpy, k), type(sys)))
        s['module numpy.linalg'] = _names(numpy.linalg)
        s['class ndarray'] = _names(numpy.ndarray)
        s['class matrix'] = _names(numpy.matrix)
    return s


def difference(before, after):
    for name in before:
        if name in after and before[name] != after[name]:
            (a, b) = (before[name], after[name])
            if isinstance(a, dict) and isinstance(b, dict):
                keys = sorted(k for k in set(a) | set(b)
                              if a.get(k, a) != b.get(k, b))
                return 'the setting "%s" has changed: %s' % (
                    name, ', '.join(map(str, keys))[:150])
            if len(repr((a, b))) < 250 and 'module' not in name and (
                    ' at 0x' not in repr((a, b))) and name in (
                        'recursion limit', 'errors of NumPy',
                        'filters of warnings', 'decimal numbers'):
                return 'the setting "%s" has changed: %r instead of %r' % (
                    name, b, a)
            return 'the setting "%s" has changed' % name
    return None


def choose(seed):
    "Settings chosen by the user"
    rng = random.Random('settings %s' % seed)
    numpy = sys.modules.get('numpy')
    if rng.random() < .5:
        gc.disable()
    if rng.random() < .3:
        sys.setrecursionlimit(rng.choice([800, 1200, 3000]))
    if rng.random() < .3:
        sys.setswitchinterval(rng.choice([.001, .02]))
    if rng.random() < .3:
        decimal.getcontext().prec = rng.choice([5, 50])
    if rng.random() < .5:
        random.seed(rng.randrange(1000))
        if numpy:
            numpy.random.seed(rng.randrange(1000))
    for category in (DeprecationWarning, BytesWarning, ImportWarning):
        if rng.random() < .2:
            warnings.filterwarnings('default', category=category)
    if numpy:
        if rng.random() < .3:
            numpy.seterr(divide='ignore', under='warn')
        if rng.random() < .3:
            numpy.set_printoptions(precision=rng.choice([3, 10]))


# Settings of each thread:
LOCAL = ('errors of NumPy', 'error handler of NumPy', 'decimal numbers',
         'tracing')


class Watch(object):
    "Checks the settings during a run"

    def __init__(self, several, seed):
        choose(seed)
        # Several threads: settings that are only changed for a while by a
        # thread can be noticed by another one.
        self.several = several
        self.problem = None
        self.n = 0
        userfuncs.Plan.watch = self.during
        sys.stdout.flush()
        sys.stderr.flush()
        (sys.stdout, sys.stderr) = (io.StringIO(), io.StringIO())
        self.reference = snapshot()
        self.local = {}

    def begin(self):
        "Called at the beginning of a thread"
        now = snapshot(full=False)
        self.local[threading.get_ident()] = dict(
            (name, now[name]) for name in LOCAL if name in now)

    def current(self):
        return dict(self.reference,
                    **self.local.get(threading.get_ident(), {}))

    def during(self, when='while a user function is called'):
        "Called by the functions of the user"
        if self.problem is None:
            self.n += 1
            d = difference(self.current(), snapshot(full=False))
            if d:
                self.problem = d+' '+when

    def after(self, last=False):
        "Called after an operation"
        if self.problem is None:
            self.n += 1
            d = difference(self.current(),
                           snapshot(full=last or not self.several))
            if d and self.several and not last:
                d += ' while other threads are at work'
            self.problem = d
        text = sys.stdout.getvalue()+sys.stderr.getvalue()
        if self.problem is None and text:
            self.problem = 'printed: %r' % text[:200]
        return self.problem

    def accept(self):
        "The current settings are accepted; returns the previous reference"
        previous = self.reference
        self.reference = dict(previous)
        self.reference.update(snapshot(full=False))
        return previous
