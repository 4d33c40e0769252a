"""
Memory: objects that are not used anymore are freed, and repeating operations
does not use more and more memory, whatever interrupts them.
"""

import copy
import gc
import pickle
import random
import sys

from . import userfuncs
from .kernel import Kernel, FAULTS
from .model import MNum
from .world import MArr


def numbers():
    "Living numbers with uncertainties: (variables, other numbers)"
    import uncertainties.core as core
    variables = []
    others = []
    for obj in gc.get_objects():
        # type() and not isinstance(): no __class__ property is run
        t = type(obj)
        if issubclass(t, core.Variable):
            variables.append(obj)
        elif issubclass(t, core.AffineScalarFunc):
            others.append(obj)
    return (variables, others)


def count_combinations():
    "Living linear combinations; 0 if they are represented differently"
    import uncertainties.core as core
    t = getattr(core, 'LinearCombination', None)
    if not isinstance(t, type):
        return 0
    return sum(1 for obj in gc.get_objects() if issubclass(type(obj), t))


def collect():
    "Full garbage collection"
    # The arrays are not known to the garbage collector: their elements can be
    # collected only after the cycles that contain the arrays.
    for _ in range(10):
        if not gc.collect():
            break


# -- end of a history ------------------------------------------------------

def check_end(run):
    """
    At the end of a history, most objects are forgotten by the users: only
    what the remaining ones need can remain.  Returns a problem, or None.
    """
    w = run.world
    rng = random.Random('memory %s' % run.plan.get('seed'))
    # References held by the simulator:
    userfuncs.Plan.reset()
    for task in run.kernel.tasks:
        task.injected = []
    w.probes = {}
    p = rng.choice([0., .1, .3, .7])
    kept = [slot for slot in sorted(w.m)
            if isinstance(w.m[slot], (MNum, MArr)) and rng.random() < p]
    keep_functions = rng.random() < .7
    w.probe('memory: %d%% of the numbers kept' % (100*p))
    for slot in list(w.m):
        if slot not in kept and not (keep_functions
                                     and callable(w.r.get(slot))):
            del w.m[slot]
    for slot in list(w.r):
        if slot not in w.m:
            del w.r[slot]
    n_numbers = 0
    vids = set()
    for slot in kept:
        v = w.m[slot]
        for x in (v.items if isinstance(v, MArr) else [v]):
            if isinstance(x, MNum):
                n_numbers += 1
                vids.update(x.co)
    for name in (w.real_var, w.vid_of):
        name.clear()
    collect()
    (variables, others) = numbers()
    w.probe('memory: numbers alive at the end')
    if len(variables)+len(others) > n_numbers+len(vids):
        return ('%d variables and %d other numbers still exist when only %d'
                ' numbers that depend on %d variables are used' % (
                    len(variables), len(others), n_numbers, len(vids)))
    if len(variables) > n_numbers+len(vids):
        return ('%d variables still exist when only %d are used' % (
            len(variables), len(vids)))
    # The calculations that were read are forgotten:
    x = None
    for x in others:
        x.derivatives
        x.std_dev
    x = None
    collect()
    n = count_combinations()
    limit = len(others)+len(variables)
    del variables, others
    if n > limit:
        return ('%d linear combinations exist, for %d numbers that were read'
                % (n, limit))
    w.m.clear()
    w.r.clear()
    collect()
    (variables, others) = numbers()
    if variables or others:
        return ('%d variables and %d other numbers exist when none is used'
                % (len(variables), len(others)))
    n = count_combinations()
    if n:
        return '%d linear combinations exist when no number is used' % n
    return None


# -- repeated operations ---------------------------------------------------

class Failure(Exception):
    "Error of a user callback"


def context(rng):
    """
    Objects that remain during all the repetitions.
    """
    import uncertainties
    from uncertainties import ufloat, unumpy, umath, correlated_values
    c = {}
    c['vars'] = [ufloat(1.5+i, .1+.05*i) for i in range(3)]
    c['acc'] = c['vars'][0]*1
    c['prod'] = c['vars'][1]*1
    c['unread'] = c['vars'][0]+c['vars'][1]
    c['arr'] = unumpy.uarray([1.5, 2.5, 4.], [.1, .2, .3])
    c['mat'] = unumpy.umatrix([[3., 1.], [1., 4.]], [[.1, .1], [.1, .1]])

    def plain(x, y):
        if c.get('fail') == 1:
            raise Failure
        return x*y+y

    def derivative(x, y):
        if c.get('fail') == 2:
            raise Failure
        return y

    c['f'] = uncertainties.wrap(plain, [derivative, lambda x, y: x+1])
    c['fnum'] = uncertainties.wrap(plain)

    def derivatives():
        while True:
            yield None
    c['flazy'] = uncertainties.wrap(plain, derivatives())
    c['plain'] = plain
    return c


def op_create(c, i):
    from uncertainties import ufloat
    x = ufloat(1+i*1e-3, .1+i*1e-5, 'tag%d' % i)
    y = ufloat(i+.5, 0)
    str(x), repr(y), x == y, hash(x)


def op_string(c, i):
    from uncertainties import ufloat_fromstr
    x = ufloat_fromstr('%r+/-%r' % (1+i*1e-3, .1+i*1e-5), tag='t%d' % i)
    y = ufloat_fromstr('%d.5(3)' % i)
    repr(x+y)


def op_bad(c, i):
    from uncertainties import ufloat, ufloat_fromstr
    for f in (lambda: ufloat(1+i*1e-3, -1.-i), lambda: ufloat('x%d' % i, 1),
              lambda: ufloat_fromstr('1+/-x%d' % i)):
        try:
            f()
        except Exception:
            pass


def op_calc(c, i):
    (x, y, z) = c['vars']
    t = x*(1+i*1e-3)+y/(z+i)-x**2
    u = t*t+1/(1.5+t*t)-i
    u.std_dev, u.derivatives, t.std_dev
    u < i, u == t, bool(u), -u, +u, abs(u)


def op_unread(c, i):
    (x, y, z) = c['vars']
    t = x+i
    for k in range(10):
        t = t*(1+i*1e-4)+y*k
        t = t-z


def op_accumulate(c, i):
    (x, y, z) = c['vars']
    c['acc'] = c['acc']*.999+(i+1)*1e-3*y
    if i % 3 == 0:
        c['acc'].std_dev


def op_product(c, i):
    (x, y, z) = c['vars']
    c['prod'] = c['prod']*(1+(x-1.5)*1e-3)/(1+i*1e-9)
    c['prod'].derivatives


def op_inplace(c, i):
    (x, y, z) = c['vars']
    t = x*2
    t += y
    t *= 1+i*1e-3
    t -= z
    t /= 3
    str(t)


def op_new_variables(c, i):
    from uncertainties import ufloat
    t = sum([ufloat(k+i*1e-3, .1) for k in range(6)])
    t.error_components(), t.std_dev


def op_umath(c, i):
    from uncertainties import umath
    (x, y, z) = c['vars']
    t = umath.sin(x+i*1e-3)+umath.atan2(y, z+i)+umath.exp(-x)
    t.std_dev
    umath.fsum([x, y*i, 3.]).std_dev
    umath.hypot(x, 1+i*1e-3)
    umath.sin(1+i*1e-3)
    umath.modf(x+i), umath.ldexp(y, 3), umath.frexp(z+i)


def op_umath_error(c, i):
    from uncertainties import umath
    (x, y, z) = c['vars']
    for f in (lambda: umath.log(x-1000-i), lambda: umath.sqrt(-y-i),
              lambda: (y-y)**(-1), lambda: 1/(x*0)):
        try:
            f()
        except Exception:
            pass


def op_wrapped(c, i):
    (x, y, z) = c['vars']
    c['f'](x+i, y).std_dev
    c['fnum'](x, y+i*1e-3).std_dev
    c['flazy'](x*2, y+i*1e-3).std_dev
    c['f'](1.+i, 2.)
    c['f'](x, y=2.+i*1e-3)


def op_new_wrapped(c, i):
    import uncertainties
    (x, y, z) = c['vars']
    g = uncertainties.wrap(c['plain'], iter([None]*2) if i % 2 else [])
    g(x+i, y).std_dev
    g(x, y*i)


def op_failure(c, i):
    (x, y, z) = c['vars']
    c['fail'] = 1+i % 2
    for f in (c['f'], c['fnum'], c['flazy']):
        try:
            f(x+i, y).std_dev
        except Failure:
            pass
    c['fail'] = 0


def op_read(c, i):
    (x, y, z) = c['vars']
    t = x*y+i
    t.s, t.n, t.nominal_value, t.error_components()
    t.std_score(i+.5), t.format('.2f'), '{:.1u}'.format(t)
    '{:.3ueS}'.format(t), '{:P}'.format(t), '{:L}'.format(t), repr(t)


def op_set(c, i):
    x = c['vars'][2]
    x.std_dev = .1+(i % 1000)*1e-4
    t = x*3
    t.std_dev
    x.tag = 'tag %d' % i
    try:
        x.std_dev = -1.-i
    except Exception:
        pass


def op_copy(c, i):
    (x, y, z) = c['vars']
    t = x*y+i
    copy.copy(t).std_dev, copy.deepcopy(t).std_dev
    a = copy.copy(x)
    b = copy.deepcopy(y)
    (a+b-i).std_dev
    copy.deepcopy([t, x, a])


def op_pickle(c, i):
    (x, y, z) = c['vars']
    t = x*y+i
    for protocol in (0, 2, pickle.HIGHEST_PROTOCOL):
        u = pickle.loads(pickle.dumps([t, x], protocol))
        u[0].std_dev
    try:
        pickle.loads(pickle.dumps(t)[:-20])
    except Exception:
        pass


def op_array(c, i):
    from uncertainties import unumpy
    a = c['arr']*(1+i*1e-3)+unumpy.sin(c['arr'])
    unumpy.nominal_values(a), unumpy.std_devs(a)
    b = unumpy.uarray([1.+i, 2.], [.1, .2])
    (b.sum()+a.mean()).std_dev
    unumpy.exp(-b), str(b)


def op_matrix(c, i):
    m = c['mat']*(1+i*1e-3)
    inv = m.I
    (inv*m).nominal_values, inv.std_devs


def op_correlated(c, i):
    from uncertainties import (correlated_values, covariance_matrix,
                               correlation_matrix, correlated_values_norm)
    (a, b) = correlated_values([1.+i, 2.], [[1., .3], [.3, 2.]],
                               tags=['a%d' % i, 'b'])
    (a*b).std_dev
    covariance_matrix([a, b, c['vars'][0]])
    correlation_matrix([a, c['vars'][1]*i])
    correlated_values_norm([(1., .1), (2., .1+i*1e-3)], [[1., .5], [.5, 1.]])


OPS = dict((name[3:], f) for (name, f) in sorted(globals().items())
           if name.startswith('op_'))


# NumPy itself does not handle exceptions well in products of matrices:
NUMPY = ['matrix']


def run_leak(plan):
    """
    Executes the same operations again and again, with new values each time.
    """
    rng = random.Random('leak %s' % plan['seed'])
    kernel = Kernel({'sched': {'mode': 'replay'}}, rng)
    c = context(rng)
    ops = [(name, OPS[name]) for name in plan['ops']]
    blocks = []
    counts = []
    every = plan['fault_every']
    kinds = sorted(FAULTS)
    (warm, loops) = (plan['warm'], plan['loops'])
    if every:
        kernel.install()

    def body(task):
        i = 0
        # Interruptions can come anywhere in an operation whose duration is
        # estimated:
        duration = {}
        for limit in (warm, warm+loops, warm+2*loops, warm+6*loops):
            if len(blocks) == 3 and not suspect():
                # (The last period, longer, is only for confirmation: the
                # caches of the interpreter are full.)
                break
            while i < limit:
                for (name, f) in ops:
                    faulty = (every and rng.random() < every
                              and name not in NUMPY)
                    if faulty:
                        tick = 1+int(rng.random()*duration.get(name, 1))
                        kernel.recorded = {(0, name): [
                            [0, name, tick, rng.choice(kinds), '']]}
                    else:
                        kernel.recorded = {}
                    start = kernel.step
                    if every:
                        kernel.op_begin(name)
                    try:
                        f(c, i)
                    except tuple(FAULTS.values()) as exc:
                        exc.__traceback__ = None
                        if not faulty:
                            raise
                    except SystemError:
                        # NumPy goes on after an exception
                        if not faulty:
                            raise
                    finally:
                        if every:
                            kernel.op_end()
                    c['fail'] = 0
                    duration[name] = max(kernel.step-start,
                                         duration.get(name, 1))
                    task.injected = []
                    task.events = []
                    kernel.recorded = {}
                    del kernel.trace[:]
                i += 1
            collect()
            blocks.append(sys.getallocatedblocks())
            counts.append(sum(map(len, numbers())))
    def slopes():
        return [(blocks[k+1]-blocks[k])/float(loops*(1, 1, 4)[k])
                for k in range(len(blocks)-1)]

    def growth():
        return [(counts[k+1]-counts[k])/float(loops*(1, 1, 4)[k])
                for k in range(len(counts)-1)]

    def suspect():
        return min(growth()) > .05 or min(slopes()) > .4

    kernel.run_inline(body)
    result = None
    for task in kernel.tasks:
        if task.crash:
            result = 'unexpected exception: %s' % task.crash[-600:]
    if result is None:
        if min(growth()) > .05:
            result = ('the number of living numbers grows by %.2f for each'
                      ' repetition' % growth()[-1])
        elif min(slopes()) > .4:
            result = ('the memory in use grows by %.2f blocks for each'
                      ' repetition' % slopes()[-1])
    sig = '%s %s %s' % (plan['ops'], kernel.step, plan['fault_every'])
    return {'problem': result and '%s of %s' % (result, ', '.join(plan['ops'])),
            'trace': [],
            'stats': {'steps': kernel.step, 'ops': (warm+2*loops)*len(ops),
                      'switches': 0, 'blocked': 0,
                      'fired': dict(kernel.fired),
                      'checks': 6, 'outcomes': {}, 'skipped': 0,
                      'kinds': dict(('repeated '+name, 1) for (name, _) in ops),
                      'op_steps': kernel.max_op_steps,
                      'probes': {'repeated sequences': 1},
                      'sig': sig, 'nontrivial': True,
                      'slopes': slopes(), 'counts': counts}}


def make_plan(prop, seed):
    from . import gen
    rng = random.Random('plan %s %s' % (prop, seed))
    if rng.random() < .06:
        n = rng.choice([1, 1, 2, 3])
        every = rng.choice([0, .3, .8, .8])
        # Longer than reasonable caches:
        loops = 1000 if n == 1 else 500
        if every:
            loops = 250
        return {'kind': 'leak', 'seed': seed, 'prop': prop,
                'ops': rng.sample(sorted(OPS), n), 'fault_every': every,
                'warm': loops, 'loops': loops, 'shrink': [['ops']]}
    plan = gen.gen_C15(rng, seed)
    plan['memory'] = True
    plan['kind'] = 'history'
    plan['prop'] = prop
    return plan
