"""
Callbacks of the simulated users: functions, their derivatives, and the
iterators that supply the derivatives.  Faults and task switches can happen
inside them too.
"""

import inspect
import itertools
import math


class Plan(object):
    "Decides which calls of which callbacks fail (see hit())."
    failing = None       # Mapping callback name -> {call number: exception}
    counts = None
    raised = None        # List of (task, exception)
    watch = None         # Called at each call

    @staticmethod
    def who():
        return 0

    @classmethod
    def reset(cls, failing=None):
        cls.failing = failing or {}
        cls.counts = {}
        cls.raised = []
        cls.watch = None


Plan.reset()


def hit(name):
    n = Plan.counts.get(name, 0)
    Plan.counts[name] = n+1
    if Plan.watch is not None:
        Plan.watch()
    exc = Plan.failing.get(name, {}).get(n)
    if exc is not None:
        Plan.raised.append((Plan.who(), exc))
        raise exc


# name: (function, derivatives of the positional-or-keyword parameters,
#        derivative with respect to *args elements (or None),
#        derivatives with respect to keyword parameters)

def prod(x, y):
    return x*y+math.sin(x)


def prod_d0(x, y):
    return y+math.cos(x)


def prod_d1(x, y):
    return x


def poly(a, b, c=2.0):
    return a*a*b+c*c-b*c


def poly_d0(a, b, c=2.0):
    return 2*a*b


def poly_d1(a, b, c=2.0):
    return a*a-c


def poly_d2(a, b, c=2.0):
    return 2*c-b


def rest(x, *more):
    t = 0.
    for m in more:
        t += m*m
    return x*3+x*t


def rest_d0(x, *more):
    t = 0.
    for m in more:
        t += m*m
    return 3.+t


def rest_dn(i):
    # Derivative with respect to argument number i >= 1
    def rest_d(x, *more):
        return 2*x*more[i-1]
    return rest_d


def kw(x, **opts):
    return x*opts.get('p', 1.5)+opts.get('q', 0.5)**2


def kw_d0(x, **opts):
    return opts.get('p', 1.5)


def kw_dp(x, **opts):
    return x


def kw_dq(x, **opts):
    return 2*opts.get('q', 0.5)


def konly(x, y=1.25, *, z=0.75):
    return x/(1+y*y)+z*x


def konly_d0(x, y=1.25, *, z=0.75):
    return 1/(1+y*y)+z


def konly_d1(x, y=1.25, *, z=0.75):
    return -2*x*y/(1+y*y)**2


def konly_dz(x, y=1.25, *, z=0.75):
    return x


def mode(x, how, y=1.0):
    if how == 'add':
        return x+2*y
    return x*y


def mode_d0(x, how, y=1.0):
    return 1. if how == 'add' else y


def mode_d2(x, how, y=1.0):
    return 2. if how == 'add' else x


def one(x):
    return math.exp(-x*x/8)


def one_d0(x):
    return -x/4*math.exp(-x*x/8)


def three(x, y, z):
    return x*y*z+x


def three_d0(x, y, z):
    return y*z+1


def three_d1(x, y, z):
    return x*z


def three_d2(x, y, z):
    return x*y


def integer(x, y):
    # Returns an integer-valued number for integers
    return 2*x+3*y


def integer_d0(x, y):
    return 2


def integer_d1(x, y):
    return 3


FUNCS = {
    'prod': (prod, [prod_d0, prod_d1], None, {}, ['x', 'y']),
    'poly': (poly, [poly_d0, poly_d1, poly_d2], None, {}, ['a', 'b', 'c']),
    'rest': (rest, [rest_d0], rest_dn, {}, ['x']),
    'kw': (kw, [kw_d0], None, {'p': kw_dp, 'q': kw_dq}, ['x']),
    'konly': (konly, [konly_d0, konly_d1], None, {'z': konly_dz},
              ['x', 'y']),
    'mode': (mode, [mode_d0, None, mode_d2], None, {}, ['x', 'how', 'y']),
    'one': (one, [one_d0], None, {}, ['x']),
    'three': (three, [three_d0, three_d1, three_d2], None, {},
              ['x', 'y', 'z']),
    'integer': (integer, [integer_d0, integer_d1], None, {}, ['x', 'y']),
    # Functions with no signature:
    'hypot': (math.hypot, [lambda x, y: x/math.hypot(x, y),
                           lambda x, y: y/math.hypot(x, y)], None, {}, None),
    'log': (math.log, [lambda x, *b: 1/x/(math.log(b[0]) if b else 1.),
                       lambda x, b: -math.log(x)/(b*math.log(b)**2)],
            None, {}, None),
}


def make_fake(key):
    """
    Recognisable (incorrect) derivative, that tells which derivative was used
    and with which arguments.
    """
    base = 3.+sum(ord(c) for c in str(key)) % 50

    def fake(*args, **kwargs):
        t = base
        for (i, a) in enumerate(args):
            if not isinstance(a, str):
                t += 0.01*(i+1)*a
        for name in sorted(kwargs):
            if not isinstance(kwargs[name], str):
                t += 0.005*kwargs[name]
        return t
    return fake


def guarded(f, name):
    "Version of f that can be made to fail."
    def g(*args, **kwargs):
        hit(name)
        return f(*args, **kwargs)
    g.__name__ = getattr(f, '__name__', 'g')
    try:
        g.__signature__ = inspect.signature(f)
    except ValueError:   # No signature: the version with *args is fine
        pass
    return g


def gen(derivs, more, start, name):
    for d in derivs:
        hit(name)
        yield d
    if more is not None:
        i = start
        while True:
            hit(name)
            yield more(i)
            i += 1


class Iterator(object):
    "Iterator implemented in Python"

    def __init__(self, derivs, more, start, name):
        self.derivs = list(derivs)
        self.more = more
        self.pos = 0
        self.name = name

    def __iter__(self):
        return self

    def __next__(self):
        hit(self.name)
        pos = self.pos
        if pos < len(self.derivs):
            d = self.derivs[pos]
        elif self.more is not None:
            d = self.more(pos)
        else:
            raise StopIteration
        self.pos = pos+1
        hit(self.name)      # An error here loses an element
        return d


class Once(object):
    "Iterable (not an iterator)"

    def __init__(self, derivs, more, start, name):
        self.args = (derivs, more, start, name)

    def __iter__(self):
        return gen(*self.args)


def identity(x):
    return x


def supply(form, derivs, more, name):
    "Iterable that supplies the derivatives, in various forms"
    if form == 'list':
        return list(derivs)
    if form == 'tuple':
        return tuple(derivs)
    if form == 'gen':
        return gen(derivs, more, len(derivs), name)
    if form == 'iterator':
        return Iterator(derivs, more, len(derivs), name)
    if form == 'iterable':
        return Once(derivs, more, len(derivs), name)
    if form == 'map':
        return map(identity, derivs)
    if form == 'iter':
        return iter(list(derivs))
    if form == 'chain':
        if more is None:
            return itertools.chain(derivs)
        return itertools.chain(
            derivs, (more(i) for i in itertools.count(len(derivs))))
    raise ValueError(form)


LAZY_FORMS = ['gen', 'iterator', 'iterable', 'map', 'iter', 'chain']
FORMS = ['list', 'tuple', 'none']+LAZY_FORMS


# -- functions of arrays -----------------------------------------------------

# name: function of a float array and of a number k.  See also
# world.World.m_wafn().

def a_square(arr, k=1.):
    return arr**2*k


def a_cumul(arr, k=1.):
    return arr.cumsum().reshape(arr.shape)*k


def a_cross(arr, k=1.):
    return arr*(arr.sum()*k)


def a_pair(arr, k=1.):
    result = arr.flatten()[:2].copy()
    result[0] = arr.sum()*k
    return result


ARRAY_FUNCS = {'square': a_square, 'cumul': a_cumul, 'cross': a_cross,
               'pair': a_pair}
