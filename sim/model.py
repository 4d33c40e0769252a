"""
Reference model: numbers with uncertainties as plain values with eagerly
calculated derivatives (forward-mode differentiation), written independently
from the code under test.

MNum.co maps a variable id to (coefficient, magnitude, error):

- magnitude: sum of the absolute values of the products along all the paths
  that lead to the variable (bounds the rounding errors of any way of
  summing these products),
- error: additional absolute error bound (numerical differentiation).
"""

import math

NAN = float('nan')

REL = 1e-10        # rounding errors, relative to the magnitude
NUM_REL = 2e-5     # numerical differentiation


class Expected(Exception):
    "The plain calculation raises this exception."

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


class Reject(Exception):
    "The generator should not use this operation here."


class MNum(object):
    __slots__ = ('n', 'co', 'isvar')

    def __init__(self, n, co, isvar=False):
        self.n = float(n)
        self.co = co
        self.isvar = isvar    # Independent variable (and not a function)

    def __repr__(self):
        return 'MNum(%r, %r)' % (self.n, self.co)


def linear(n, terms):
    """
    Number of value n, whose differential is the sum of the d*(differential
    of x) for each (d, derr, x) in terms.
    """
    co = {}
    for (d, derr, x) in terms:
        for (v, (c, mag, err)) in x.co.items():
            (c0, m0, e0) = co.get(v, (0., 0., 0.))
            try:
                co[v] = (c0+d*c, m0+abs(d)*mag,
                         e0+abs(d)*err+(derr*mag if derr else 0.))
            except OverflowError:
                raise Reject
    return MNum(n, co)


def acceptable(x, limit=1e8):
    "Values that are tame enough for rounding errors to be bounded."
    if not isinstance(x, MNum):
        return not (isinstance(x, float) and abs(x) > limit)
    if math.isinf(x.n) or abs(x.n) > limit:
        return False
    for (c, mag, err) in x.co.values():
        if math.isinf(c) or mag > limit:   # False for NaN
            return False
        if err > 1e-2*max(mag, 1e-3):
            return False
    return True


# -- derivatives -----------------------------------------------------------
#
# Each function returns (derivative, absolute error of the derivative).
# ZeroDivisionError, ValueError and OverflowError mean NaN.

def digamma(x):
    r = 0.
    if x < 0.5:
        return digamma(1-x)-math.pi/math.tan(math.pi*x)
    while x < 12:
        r -= 1/x
        x += 1
    f = 1/(x*x)
    return (r+math.log(x)-0.5/x
            - f*(1/12.-f*(1/120.-f*(1/252.-f*(1/240.-f/132.)))))


def _pow_x(x, y):
    if y == 0:
        return 0.
    if x == 0 and y % 1 != 0:
        return NAN
    return y*math.pow(x, y-1)


def _pow_y(x, y):
    if x == 0 and y > 0:
        return 0.
    return math.log(x)*math.pow(x, y)


def _sign(x):
    return 1. if x >= 0 else -1.


DERIV = {
    'sin': [lambda x: math.cos(x)],
    'cos': [lambda x: -math.sin(x)],
    'tan': [lambda x: 1/math.cos(x)**2],
    'asin': [lambda x: 1/math.sqrt((1-x)*(1+x))],
    'acos': [lambda x: -1/math.sqrt((1-x)*(1+x))],
    'atan': [lambda x: 1/(1+x*x)],
    'sinh': [lambda x: math.cosh(x)],
    'cosh': [lambda x: math.sinh(x)],
    'tanh': [lambda x: 1/math.cosh(x)**2],
    'asinh': [lambda x: 1/math.sqrt(1+x*x)],
    'acosh': [lambda x: 1/math.sqrt((x-1)*(x+1))],
    'atanh': [lambda x: 1/((1-x)*(1+x))],
    'exp': [lambda x: math.exp(x)],
    'expm1': [lambda x: math.exp(x)],
    'log10': [lambda x: 1/(x*math.log(10.))],
    'log1p': [lambda x: 1/(1+x)],
    'sqrt': [lambda x: 1/(2*math.sqrt(x))],
    'erf': [lambda x: 2/math.sqrt(math.pi)*math.exp(-x*x)],
    'erfc': [lambda x: -2/math.sqrt(math.pi)*math.exp(-x*x)],
    'fabs': [_sign],
    'degrees': [lambda x: 180/math.pi],
    'radians': [lambda x: math.pi/180],
    'gamma': [lambda x: math.gamma(x)*digamma(x)],
    'lgamma': [digamma],
    'log': [lambda x, *b: 1/x/(math.log(b[0]) if b else 1.),
            lambda x, b: -math.log(x)/(b*math.log(b)**2)],
    'atan2': [lambda y, x: x/(x*x+y*y), lambda y, x: -y/(x*x+y*y)],
    'hypot': [lambda x, y: x/math.hypot(x, y),
              lambda x, y: y/math.hypot(x, y)],
    'pow': [_pow_x, _pow_y],
    'copysign': [lambda x, y: _sign(x)*math.copysign(1., y),
                 lambda x, y: 0.],
    'fmod': [lambda x, y: 1., lambda x, y: -float(math.trunc(x/y))],
    # Operators:
    'add': [lambda x, y: 1., lambda x, y: 1.],
    'sub': [lambda x, y: 1., lambda x, y: -1.],
    'mul': [lambda x, y: y, lambda x, y: x],
    'truediv': [lambda x, y: 1/y, lambda x, y: -x/(y*y)],
    'floordiv': [lambda x, y: 0., lambda x, y: 0.],
    'mod': [lambda x, y: 1., lambda x, y: -float(math.floor(x/y))],
    'opow': [_pow_x, _pow_y],
    'neg': [lambda x: -1.],
    'pos': [lambda x: 1.],
    'abs': [_sign],
    'otrunc': [lambda x: 0.],
}

# Functions whose derivatives are calculated numerically by the library:
NUMERIC = {('gamma', 0), ('lgamma', 0), ('fmod', 0), ('fmod', 1), ('mod', 1)}

FUNC1 = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh',
         'asinh', 'acosh', 'atanh', 'exp', 'expm1', 'log10', 'log1p', 'sqrt',
         'erf', 'erfc', 'fabs', 'degrees', 'radians', 'gamma', 'lgamma',
         'log']
FUNC2 = ['atan2', 'hypot', 'pow', 'copysign', 'fmod', 'log']
LOCALLY_CONSTANT = ['ceil', 'floor', 'isnan', 'isinf', 'trunc']
BINOPS = ['add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv']


def _fpow(x, y):
    r = float.__pow__(x, y)
    if isinstance(r, complex):
        raise ValueError('complex')
    return r


PLAIN = {
    'add': lambda x, y: x+y,
    'sub': lambda x, y: x-y,
    'mul': lambda x, y: x*y,
    'truediv': lambda x, y: x/y,
    'floordiv': lambda x, y: x//y,
    'mod': lambda x, y: x % y,
    'opow': _fpow,
    'neg': lambda x: -x,
    'pos': lambda x: +x,
    'abs': abs,
    'otrunc': math.trunc,
}


def nom(x):
    return x.n if isinstance(x, MNum) else x


def numerical_error(d, f, x):
    """
    Error bound for numerical differentiation (its step is 1e-8, relatively
    to x).
    """
    return NUM_REL*(abs(d)+1e-2)+2e-6*(abs(f)+1)/(abs(x) or 1.)


def deriv(name, pos, values):
    "(derivative, error) of a function with respect to argument pos."
    try:
        d = float(DERIV[name][pos](*values))
    except (ZeroDivisionError, ValueError, OverflowError):
        return (NAN, 0.)
    err = 0.
    if (name, pos) in NUMERIC:
        f = (PLAIN.get(name) or getattr(math, name))(*values)
        x = values[pos]
        err = numerical_error(d, f, x)
    return (d, err)


def apply(name, args):
    """
    Result of a function or operator on MNum and plain arguments.
    """
    values = [float(nom(a)) for a in args]
    f = PLAIN.get(name) or getattr(math, name)
    try:
        n = f(*values)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError) as exc:
        raise Expected(exc)
    if not any(isinstance(a, MNum) for a in args):
        return n
    if name in LOCALLY_CONSTANT:
        return n
    terms = []
    for (pos, a) in enumerate(args):
        if isinstance(a, MNum):
            (d, err) = deriv(name, pos, values)
            terms.append((d, err, a))
    return linear(n, terms)


def tame(name, args):
    """
    False for arguments close to (but not at) points where the function is
    ill-conditioned or discontinuous.
    """
    v = [float(nom(a)) for a in args]
    if any(math.isnan(x) or math.isinf(x) for x in v):
        return True

    def far(t, *pts):
        return all(t == p or abs(t-p) > 1e-2 for p in pts)

    if name in ('asin', 'acos', 'atanh'):
        return far(abs(v[0]), 1)
    if name == 'acosh':
        return far(v[0], 1)
    if name == 'sqrt':
        return far(v[0], 0)
    if name == 'log10' or (name == 'log' and len(v) == 1):
        return far(v[0], 0)
    if name == 'log':
        return (far(v[0], 0) and abs(v[1]-1) > 5e-2
                and (v[1] > 5e-2 or v[1] <= 0))
    if name == 'log1p':
        return far(v[0], -1)
    if name in ('exp', 'expm1', 'sinh', 'cosh'):
        return abs(v[0]) < 15
    if name == 'tan':
        return abs(math.cos(v[0])) > 5e-2
    if name in ('erf', 'erfc', 'tanh'):
        return abs(v[0]) < 5
    if name in ('gamma', 'lgamma'):
        # lgamma() is close to 0 around 1 and 2: no problem for derivatives
        if v[0] <= 0:
            return v[0] == math.floor(v[0]) or (
                v[0] > -4 and abs(v[0]-round(v[0])) > 0.1)
        return 0.1 < v[0] < 12
    if name in ('truediv',):
        return far(v[1], 0)
    if name in ('floordiv', 'mod', 'fmod'):
        if v[1] == 0:
            return True
        if abs(v[1]) < 1e-2 or abs(v[0]/v[1]) > 1e3:
            return False
        q = v[0]/v[1]
        # Numerical differentiation also involves the first argument:
        return abs(q-round(q)) > 1e-4 and abs(v[0]) > 1e-3
    if name in ('hypot', 'atan2'):
        return math.hypot(*v) == 0 or math.hypot(*v) > 1e-2
    if name in ('pow', 'opow'):
        if v[0] == 0 or v[1] == 0:
            return True
        return 1e-2 < abs(v[0]) < 50 and abs(v[1]) < 8
    return True


# -- uncertainties ---------------------------------------------------------

def component(c, s):
    "Error component, or None if it cannot be known"
    return 0. if s == 0 else abs(c*s)


def std_interval(x, s_of):
    """
    (lower bound, upper bound) of the standard deviation, or NAN if it is NaN.

    s_of -- mapping from variable ids to standard deviations.
    """
    tot = 0.
    err = 0.
    for (v, (c, mag, e)) in x.co.items():
        s = s_of[v]
        if s == 0:
            continue
        tot += (c*s)**2
        err += (s*(REL*mag+e))**2
    if math.isnan(tot):
        return NAN
    if math.isinf(tot):
        return (tot, tot)
    r = math.sqrt(tot)
    e = math.sqrt(err)+1e-12*r
    return (max(0., r-e), r+e)


def covariance(x, y, s_of):
    "(covariance, error) of two numbers."
    tot = 0.
    err = 0.
    for (v, (c, mag, e)) in x.co.items():
        if v in y.co:
            (c2, mag2, e2) = y.co[v]
            s = s_of[v]
            tot += c*c2*s**2
            err += ((REL*mag+e)*(mag2+e2)+(REL*mag2+e2)*(mag+e))*s**2
    return (tot, err+1e-300)


def close(value, target, err):
    if math.isnan(target):
        return math.isnan(value)
    if math.isinf(target):
        return value == target
    return abs(value-target) <= err


def same_float(a, b):
    return a == b or (a != a and b != b)
