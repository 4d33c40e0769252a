"""
Simulated world: operations of users on numbers with uncertainties, executed
both by the real library and by the reference model, and compared.

An operation is a dictionary: 'u' is its unique id, 'o' its kind, 'd' the slot
(or slots) that receive its result.  Arguments are references: ['s', slot]
or ['c', value, type].
"""

import copy
import itertools
import math
import operator
import pickle
import re
import sys
import warnings

from . import model
from .model import MNum, NAN, Expected, Reject
from . import userfuncs

# Set by setup():
numpy = unc = core = umath = unumpy = ulinalg = quantities = None


def setup():
    "Imports the code under test."
    global numpy, unc, core, umath, unumpy, ulinalg, quantities
    import uncertainties as unc_
    from uncertainties import core as core_, umath as umath_
    try:
        import numpy as numpy_
    except ImportError:
        numpy_ = WithoutNumPy
        unumpy_ = ulinalg_ = None
    else:
        from uncertainties import unumpy as unumpy_
        from uncertainties.unumpy import ulinalg as ulinalg_
    numpy, unc, core, umath, unumpy, ulinalg = (
        numpy_, unc_, core_, umath_, unumpy_, ulinalg_)
    warnings.simplefilter('ignore')
    from . import quantities as quantities_
    quantities = quantities_


class WithoutNumPy(object):
    "Used instead of NumPy when it is not available (no array is created)"

    class ndarray(object):
        pass

    class matrix(ndarray):
        pass

    class bool_(object):
        pass

    float64 = float


class Problem(Exception):
    "Violation of a property."


class MArr(object):
    "Array of the model: items are MNum or plain numbers."

    def __init__(self, shape, items, mat=False):
        self.shape = tuple(shape)
        self.items = list(items)
        self.mat = mat
        self.view = False    # Shares its elements with another array


def can_contain(a, x):
    """
    True if the value (or array) x can be put in array a.  (The elements of the
    inverse of a matrix of numbers with uncertainties whose derivatives are all
    zero are floats.)
    """
    if a.dtype == object:
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype != object
    return not isinstance(x, core.AffineScalarFunc)


class UFunc(object):
    "Wrapped user function, in the model"

    def __init__(self, name, form, fake, kwform):
        self.name = name
        self.form = form
        self.fake = fake
        self.kwform = kwform
        self.faults = False   # True after a fault


BIN_REAL = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
    'truediv': operator.truediv, 'floordiv': operator.floordiv,
    'mod': operator.mod, 'opow': operator.pow,
    'neg': operator.neg, 'pos': operator.pos, 'abs': operator.abs,
    'otrunc': math.trunc,
}
INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul,
           'truediv': operator.itruediv, 'opow': operator.ipow,
           'mod': operator.imod, 'floordiv': operator.ifloordiv}

NPNAME = dict((f, 'arc'+f[1:]) for f in
              ['acos', 'acosh', 'asin', 'atan', 'atan2', 'atanh'])

REPR_RE = re.compile(r'^(.*?)\+/-(.*)$')


def const(value, typ):
    if typ == 'i':
        return int(value)
    if typ == 'n':
        return numpy.float64(value)
    if typ == 'b':
        return bool(value)
    return float(value)


class World(object):
    """
    State of the simulated users.
    """

    def __init__(self, real=True):
        self.real_mode = real
        self.m = {}          # slot -> model value
        self.r = {}          # slot -> real value
        self.s = {}          # variable id -> uncertainty (model)
        self.var_n = {}      # variable id -> nominal value
        self.tag = {}        # variable id -> tag
        self.attrs = {}      # variable id -> class and attributes (subclasses)
        self.real_var = {}   # variable id -> real Variable
        self.array_funcs = {}
        self.vid_of = {}     # id(Variable) -> variable id
        self.n_checks = 0
        self.faulted = False
        self.lazy_faulted = False
        # Number of running handlers:
        self.in_handler = 0
        # Derivatives from iterators can have been replaced by numerical
        # derivatives:
        self.iterator_lost = False
        self.probes = {}

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0)+1

    # -- registration ------------------------------------------------------

    def register(self, vid, n, s, tag=None):
        self.s[vid] = s
        self.var_n[vid] = n
        self.tag[vid] = tag

    def register_real(self, vid, var):
        self.real_var[vid] = var
        self.vid_of[id(var)] = vid

    # -- references --------------------------------------------------------

    def mv(self, ref):
        if ref[0] == 's':
            return self.m[ref[1]]
        return float(ref[1])

    def rv(self, ref):
        if ref[0] == 's':
            return self.r[ref[1]]
        return const(ref[1], ref[2])

    def has(self, op):
        return all(s in self.m for s in inputs(op))

    # -- model of the operations -------------------------------------------

    def evaluate(self, op):
        """
        Result of the operation according to the model: list of (slot, value)
        pairs, or raises Expected.
        """
        return getattr(self, 'm_'+op['o'])(op)

    def m_var(self, op):
        return [(op['d'], MNum(op['n'], {op['u']: (1., 1., 0.)}, True))]

    def m_corr(self, op):
        n = len(op['d'])
        cov = op['cov']
        # Cholesky decomposition: only used when generating plans
        L = [[0.]*n for _ in range(n)]
        for i in range(n):
            for j in range(i+1):
                t = cov[i][j]-sum(L[i][k]*L[j][k] for k in range(j))
                if i == j:
                    L[i][j] = math.sqrt(max(t, 0.))
                else:
                    L[i][j] = t/L[j][j] if L[j][j] else 0.
        return [(op['d'][i],
                 MNum(op['noms'][i], dict(
                     ('%s.%d' % (op['u'], j), (L[i][j], 1., 0.))
                     for j in range(n))))
                for i in range(n)]

    def m_fn(self, op):
        args = [self.mv(a) for a in op['a']]
        if op.get('ns', 'umath') != 'umath' and not any(
                isinstance(x, MNum) for x in args):
            raise Reject     # The library is not involved
        return [(op['d'], model.apply(op['f'], args))]

    def m_sum(self, op):
        vals = [self.mv(a) for a in op['a']]
        if op['k'] == 'fsum':
            n = math.fsum(model.nom(v) for v in vals)
        else:
            # sum() is more precise for numbers than for other objects
            k = 0
            while (op['k'] == 'sum' and k < len(vals)
                   and not isinstance(vals[k], MNum)):
                k += 1
            if k == len(vals) or k > 2:
                raise Reject
            n = 0
            for v in vals:
                n = n+model.nom(v)
        # If it was not possible to keep the derivative (exhausted memory, two
        # interruptions of the same call), it is numerically calculated (also
        # in a handler that interrupts fsum()):
        lost = op['k'] == 'fsum' and (self.iterator_lost
                                      or self.in_handler)
        terms = [(1., model.numerical_error(1., n, v.n) if lost else 0., v)
                 for v in vals if isinstance(v, MNum)]
        if not terms:
            return [(op['d'], n)]
        return [(op['d'], model.linear(n, terms))]

    def m_modf(self, op):
        x = self.mv(op['a'][0])
        (f, i) = math.modf(model.nom(x))
        if isinstance(x, MNum) and x.co:
            f = model.linear(f, [(1., 0., x)])
        return [(op['d'][0], f), (op['d'][1], i)]

    def m_ldexp(self, op):
        x = self.mv(op['a'][0])
        n = math.ldexp(model.nom(x), op['i'])
        if isinstance(x, MNum) and x.co:
            return [(op['d'], model.linear(
                n, [(math.ldexp(1., op['i']), 0., x)]))]
        return [(op['d'], n)]

    def m_frexp(self, op):
        x = self.mv(op['a'][0])
        (m, e) = math.frexp(model.nom(x))
        if isinstance(x, MNum) and x.co:
            m = model.linear(m, [(math.ldexp(1., -e), 0., x)])
        return [(op['d'][0], m), (op['d'][1], e)]

    def m_mkwrap(self, op):
        return [(op['d'], UFunc(op['f'], op['form'], op.get('fake', False),
                                op.get('kwform')))]

    def m_call(self, op):
        """
        Call of a wrapped user function: 'a' positional arguments (references
        or ['t', text]), 'k' keyword arguments.
        """
        uf = self.m[op['w']]
        (f, derivs, more, kwderivs, names) = userfuncs.FUNCS[uf.name]
        args = [a[1] if a[0] == 't' else self.mv(a) for a in op['a']]
        kwargs = dict((k, a[1] if a[0] == 't' else self.mv(a))
                      for (k, a) in sorted(op.get('k', {}).items()))
        args_n = [model.nom(a) for a in args]
        kwargs_n = dict((k, model.nom(a)) for (k, a) in kwargs.items())
        try:
            n = f(*args_n, **kwargs_n)
        except Exception as exc:
            raise Expected(exc)
        keys = ([(i, a) for (i, a) in enumerate(args)]
                + [(k, a) for (k, a) in sorted(kwargs.items())])
        terms = []
        for (key, a) in keys:
            if not isinstance(a, MNum):
                continue
            terms.append(self._user_deriv(
                uf, key, f, derivs, more, kwderivs, names, args_n, kwargs_n)
                + (a,))
        if not terms:
            return [(op['d'], n)]
        return [(op['d'], model.linear(n, terms))]

    def _user_deriv(self, uf, key, f, derivs, more, kwderivs, names, args,
                    kwargs):
        # Exact derivative:
        if isinstance(key, str) and names and key in names:
            index = names.index(key)
        else:
            index = key
        if isinstance(index, int):
            if index < len(derivs):
                exact = derivs[index]
            else:
                exact = more(index) if more else None
            supplied = uf.form != 'none' and exact is not None
            if uf.form in ('list', 'tuple') and index >= len(derivs):
                supplied = False   # Only the first ones are supplied
            if uf.form in ('map', 'iter') and index >= len(derivs):
                supplied = False
            if uf.form == 'short' and index >= 1:
                supplied = False
            fake_key = index
        else:
            exact = kwderivs.get(key)
            supplied = uf.kwform == 'all' and exact is not None
            fake_key = key
        if exact is None:
            raise Reject
        if supplied and uf.fake:
            return (userfuncs.make_fake(fake_key)(*args, **kwargs), 0.)
        try:
            d = float(exact(*args, **kwargs))
        except (ZeroDivisionError, ValueError, OverflowError) as exc:
            if supplied:
                raise Expected(exc)
            raise Reject
        if supplied and not ((self.lazy_faulted or self.in_handler)
                             and uf.form in userfuncs.LAZY_FORMS):
            return (d, 0.)
        x = args[key] if isinstance(key, int) else kwargs[key]
        n = f(*args, **kwargs)
        return (d, model.numerical_error(d, n, x))

    # Arrays

    def m_mkarr(self, op):
        return [(op['d'], MArr(op['shape'], [self.mv(a) for a in op['a']],
                               op.get('mat', False)))]

    def m_uarr(self, op):
        return [(op['d'], MArr(
            op['shape'],
            [MNum(n, {'%s.%d' % (op['u'], i): (1., 1., 0.)}, True)
             for (i, n) in enumerate(op['noms'])], op.get('mat', False)))]

    def m_afn(self, op):
        a = self.mv(op['a'][0])
        if len(op['a']) == 2:
            b = self.mv(op['a'][1])
            items = self._broadcast(a, b)
        else:
            items = [(x,) for x in a.items]
        if op['f'] == 'ldexp':
            res = []
            for (x,) in items:
                n = math.ldexp(model.nom(x), op['i'])
                if isinstance(x, MNum) and x.co:
                    n = model.linear(n, [(math.ldexp(1., op['i']), 0., x)])
                res.append(n)
        else:
            res = [model.apply(op['f'], list(args)) for args in items]
        mat = any(getattr(self.mv(x), 'mat', False) for x in op['a'])
        return [(op['d'], MArr(a.shape, res, mat))]

    def _broadcast(self, a, b):
        if not isinstance(b, MArr):
            return [(x, b) for x in a.items]
        if not isinstance(a, MArr):
            return [(a, y) for y in b.items]
        if a.shape != b.shape:
            raise Reject
        return list(zip(a.items, b.items))

    def m_abin(self, op):
        a = self.mv(op['a'][0])
        b = self.mv(op['a'][1])
        shape = a.shape if isinstance(a, MArr) else b.shape
        mat = getattr(a, 'mat', False) or getattr(b, 'mat', False)
        if mat and op['f'] in ('mul', 'opow', 'truediv') and not (
                op['f'] == 'mul' and (isinstance(a, float)
                                      or isinstance(b, float))):
            raise Reject
        return [(op['d'], MArr(
            shape, [model.apply(op['f'], list(p))
                    for p in self._broadcast(a, b)], mat))]

    def m_asum(self, op):
        a = self.mv(op['a'][0])
        items = a.items
        if len(items) == 1 and op['k'] in ('sum', 'npsum'):
            return [(op['d'], items[0])]    # Same object
        n = 0
        for x in items:
            n = n+model.nom(x)
        f = 1.
        if op['k'] == 'mean':
            f = 1./len(items)
            n = n/len(items)
        terms = [(f, 0., x) for x in items if isinstance(x, MNum)]
        return [(op['d'], model.linear(n, terms) if terms else n)]

    def m_idx(self, op):
        a = self.mv(op['a'][0])
        return [(op['d'], a.items[op['i'] % len(a.items)])]

    def m_transpose(self, op):
        a = self.mv(op['a'][0])
        (p, q) = a.shape
        a.view = True
        res = MArr((q, p), [a.items[i*q+j] for j in range(q)
                            for i in range(p)], a.mat)
        res.view = True
        return [(op['d'], res)]

    # Changes of arrays, in place

    def m_setitem(self, op):
        a = self.mv(op['a'][0])
        if a.view:
            raise Reject
        return []

    def m_iop(self, op):
        a = self.mv(op['a'][0])
        if a.view:
            raise Reject
        return [(op['u'], self.m_abin(dict(op, d=None))[0][1])]

    def m_matmul(self, op):
        a = self.mv(op['a'][0])
        b = self.mv(op['a'][1])
        if len(a.shape) != 2 or len(b.shape) != 2 or a.shape[1] != b.shape[0]:
            raise Reject
        if a.mat != b.mat:
            raise Reject
        (p, q, r) = (a.shape[0], a.shape[1], b.shape[1])
        return [(op['d'], MArr((p, r), _mm(a.items, b.items, p, q, r),
                               a.mat))]

    def m_inv(self, op):
        a = self.mv(op['a'][0])
        if len(a.shape) != 2 or a.shape[0] != a.shape[1]:
            raise Reject
        n = a.shape[0]
        noms = [model.nom(x) for x in a.items]
        inv = _inverse(noms, n)
        if inv is None or max(abs(t) for t in inv) > 50 or not _sound(
                noms, inv, 1e4):
            raise Reject
        res = []
        # d(inv) = -inv dA inv
        for i in range(n):
            for j in range(n):
                terms = []
                for k in range(n):
                    for l in range(n):
                        x = a.items[k*n+l]
                        if isinstance(x, MNum):
                            terms.append((-inv[i*n+k]*inv[l*n+j], 1e-8, x))
                if any(isinstance(x, MNum) and x.co for x in a.items):
                    res.append(model.linear(inv[i*n+j], terms))
                else:
                    res.append(inv[i*n+j])
        return [(op['d'], MArr(a.shape, res, a.mat))]

    def m_pinv(self, op):
        a = self.mv(op['a'][0])
        if len(a.shape) != 2:
            raise Reject
        (p, q) = a.shape
        noms = [model.nom(x) for x in a.items]

        base = _pinv(noms, p, q)
        if base is None or max(abs(t) for t in base) > 20 or not _sound(
                noms, base, 1e3):
            raise Reject
        if not any(isinstance(x, MNum) and x.co for x in a.items):
            return [(op['d'], MArr((q, p), base, a.mat))]
        # Differential (Golub and Pereyra):
        # dP = -P dA P + P P^T dA^T (1 - A P) + (1 - P A) dA^T P^T P
        t = [base[i*p+j] for j in range(p) for i in range(q)]   # P^T
        ppt = _mm(base, t, q, p, q)
        ptp = _mm(t, base, p, q, p)
        ap = _mm(noms, base, p, q, p)
        pa = _mm(base, noms, q, p, q)
        scale = 1e-8*max(1., max(abs(x) for x in base))**2
        terms = [[] for _ in base]
        for (k, x) in enumerate(a.items):
            if not isinstance(x, MNum):
                continue
            (r, c) = divmod(k, q)      # dA: row r, column c
            for i in range(q):
                for j in range(p):
                    d = (-base[i*p+r]*base[c*p+j]
                         + ppt[i*q+c]*(float(r == j)-ap[r*p+j])
                         + (float(i == c)-pa[i*q+c])*ptp[r*p+j])
                    terms[i*p+j].append((d, scale, x))
        return [(op['d'], MArr((q, p), [
            model.linear(base[i], terms[i]) for i in range(len(base))],
            a.mat))]

    def m_wafn(self, op):
        "Function of an array, with numerical derivatives"
        a = self.mv(op['a'][0])
        if a.mat or len(a.items) < 2:
            raise Reject
        k = op['k']
        noms = [model.nom(x) for x in a.items]
        size = len(noms)
        total = sum(noms)
        one = [[float(i == j) for j in range(size)] for i in range(size)]
        shape = a.shape
        if op['f'] == 'square':
            ns = [n**2*k for n in noms]
            jac = [[2*n*k*d for d in row] for (n, row) in zip(noms, one)]
        elif op['f'] == 'cumul':
            ns = [sum(noms[:i+1])*k for i in range(size)]
            jac = [[k*(j <= i) for j in range(size)] for i in range(size)]
        elif op['f'] == 'cross':
            ns = [n*total*k for n in noms]
            jac = [[k*(noms[i]+total*one[i][j]) for j in range(size)]
                   for i in range(size)]
        else:
            shape = (2,)
            ns = [total*k, noms[1]]
            jac = [[k]*size, one[1]]
        variables = set(v for x in a.items if isinstance(x, MNum)
                        for v in x.co)
        if not variables:
            return [(op['d'], MArr(shape, ns))]
        # Precision of the numerical derivatives:
        scale = (1+sum(abs(n) for n in noms))**2*max(1, abs(k))
        errors = {}
        for v in variables:
            shift = max(self.s[v]/1e5, 1e-8*abs(self.var_n[v])) or 1e-8
            slope = sum(abs(x.co[v][0]) for x in a.items
                        if isinstance(x, MNum) and v in x.co)
            errors[v] = (4e-15*scale/shift
                         + 4*max(1, abs(k))*shift*slope**2
                         + 1e-6*slope*scale)
            if not errors[v] < 1e-2:
                raise Reject
        res = []
        for (n, row) in zip(ns, jac):
            x = model.linear(n, [(d, 1e-8, y) for (d, y) in zip(row, a.items)
                                 if isinstance(y, MNum)])
            x.co = dict((v, (c, mag, err+errors[v]))
                        for (v, (c, mag, err)) in x.co.items())
            res.append(x)
        return [(op['d'], MArr(shape, res))]

    # Copies, storage

    def m_copy(self, op):
        x = self.mv(op['a'][0])
        if self._is_var(op['a'][0]):
            x = self._renewed(op, x)
        elif isinstance(x, MNum):
            x = MNum(x.n, x.co)     # Another object
        elif isinstance(x, MArr):
            x = MArr(x.shape, x.items, x.mat)
        return [(op['d'], x)]

    def m_deepcopy(self, op):
        x = self.mv(op['a'][0])
        if isinstance(x, MArr):
            # Each element becomes independent from the others
            new = {}
            for (i, y) in enumerate(x.items):
                if id(y) not in new:
                    new[id(y)] = self._renewed(op, y, str(i))
            return [(op['d'], MArr(x.shape, [new[id(y)] for y in x.items],
                                   x.mat))]
        return [(op['d'], self._renewed(op, x))]

    def m_pickle(self, op):
        "Numbers pickled together, and restored in the same process"
        memo = {}
        return [(d, self._renewed(op, self.mv(a), memo=memo))
                for (a, d) in zip(op['a'], op['d'])]

    def _is_var(self, ref):
        return getattr(self.mv(ref), 'isvar', False)

    def var_slots(self):
        return [slot for (slot, x) in self.m.items()
                if isinstance(x, MNum) and x.isvar]

    def new_vid(self, op, vid, group=''):
        new = '%s%s<%s' % (op['u'], group and '.'+group, vid)
        if new not in self.s:
            self.register(new, self.var_n.get(vid, 0.), self.s[vid],
                          self.tag.get(vid))
        return new

    def _renewed(self, op, x, group='', memo=None):
        if memo is not None:
            # The same object remains the same object:
            if id(x) not in memo:
                memo[id(x)] = (x, self._renewed_object(op, x, group, memo))
            return memo[id(x)][1]
        return self._renewed_object(op, x, group, memo)

    def _renewed_object(self, op, x, group, memo):
        "Same number, on new variables"
        if isinstance(x, MArr):
            return MArr(x.shape, [self._renewed(op, i, group, memo)
                                  for i in x.items], x.mat)
        if not isinstance(x, MNum):
            return x
        if memo is not None:
            # (Pickles keep the class and the attributes of subclasses.)
            for v in x.co:
                if v in self.attrs:
                    self.attrs[self.new_vid(op, v, group)] = self.attrs[v]
        return MNum(x.n, dict((self.new_vid(op, v, group), c)
                              for (v, c) in x.co.items()), x.isvar)

    # Others

    def m_set(self, op):
        return []

    def m_badset(self, op):
        return []

    def m_badnew(self, op):
        return []

    def m_gc(self, op):
        return []

    def m_drop(self, op):
        return []

    def can_be_exact(self, ref):
        "True if the uncertainty can be zero (numerical derivatives...)"
        bounds = model_std(self.mv(ref), self.s)
        return bounds is None or bounds != bounds or bounds[0] <= 0

    def m_read(self, op):
        if op['w'] == 'score':
            m = self.mv(op['a'][0])
            if isinstance(m, MNum) and model_std(m, self.s) == (0., 0.):
                raise Expected(ValueError('The uncertainty is zero'))
        return []

    def m_aread(self, op):
        return []

    # -- real operations: (function that does it, function for its result) --

    def prepare(self, op):
        return getattr(self, 'r_'+op['o'])(op)

    def r_var(self, op):
        (n, s, tag, how) = (op['n'], op['s'], op.get('tag'),
                            op.get('how', 'ufloat'))
        if how == 'str':
            text = '%r+/-%r' % (n, s)
            do = lambda: unc.ufloat_fromstr(text, tag)
        elif how == 'kw':
            do = lambda: unc.ufloat(nominal_value=n, std_dev=s, tag=tag)
        elif how == 'np':
            do = lambda: unc.ufloat(numpy.float64(n), numpy.float64(s), tag)
        elif how == 'old':
            do = lambda: unc.ufloat((n, s), tag)
        elif how == 'text':
            do = lambda: unc.ufloat_fromstr(op['text'], tag)
        elif how == 'oldtext':
            do = lambda: unc.ufloat(op['text'], tag)
        elif how == 'oldstr':
            text = '%r+/-%r' % (n, s)
            do = lambda: unc.ufloat(text, tag)
        elif op.get('sub'):
            (name, attrs) = op['sub']
            cls = quantities.get(name)
            do = lambda: cls(n, s, tag)
            self.attrs[op['u']] = op['sub']
        else:
            do = lambda: unc.ufloat(n, s, tag)

        def done(x):
            if op.get('sub') and how == 'ufloat':
                for (k, v) in attrs.items():
                    setattr(x, k, v)
                self.probe('variables of subclasses')
            self.register(op['u'], n, s, tag)
            self.register_real(op['u'], x)
            self.r[op['d']] = x
        return do, done

    def r_corr(self, op):
        cov = numpy.array(op['cov'])
        noms = op['noms']
        if op.get('how') == 'norm':
            std = [math.sqrt(cov[i][i]) for i in range(len(noms))]
            cor = numpy.array([
                [(cov[i][j]/std[i]/std[j]) if std[i] and std[j]
                 else float(i == j)
                 for j in range(len(noms))] for i in range(len(noms))])
            do = lambda: core.correlated_values_norm(
                list(zip(noms, std)), cor, op.get('tags'))
        else:
            do = lambda: unc.correlated_values(noms, cov, op.get('tags'))

        def done(xs):
            j = 0
            for x in xs:
                for var in x.derivatives:
                    if id(var) not in self.vid_of:
                        vid = '%s.%d' % (op['u'], j)
                        j += 1
                        self.register(vid, var.nominal_value, var.std_dev,
                                      var.tag)
                        self.register_real(vid, var)
            ms = []
            for (x, d, n) in zip(xs, op['d'], noms):
                m = MNum(n, dict(
                    (self.vid_of[id(var)], (c, abs(c)+1e-6, 0.))
                    for (var, c) in x.derivatives.items()))
                ms.append(m)
                self.m[d] = m
                self.r[d] = x
            for i in range(len(noms)):
                for j in range(len(noms)):
                    (c, err) = model.covariance(ms[i], ms[j], self.s)
                    scale = math.sqrt(cov[i][i]*cov[j][j])+1e-9
                    if abs(c-cov[i][j]) > 1e-6*scale:
                        raise Problem('covariance of correlated values:'
                                      ' %r instead of %r' % (c, cov[i][j]))
        return do, done

    def r_fn(self, op):
        args = [self.rv(a) for a in op['a']]
        f = op['f']
        ns = op.get('ns', 'umath')
        if f in BIN_REAL and f not in ('abs',) or ns == 'op':
            real = BIN_REAL[f]
            if ns == 'inplace':
                real = INPLACE[f]
        elif ns == 'unumpy':
            real = getattr(unumpy, NPNAME.get(f, f))
        else:
            real = getattr(umath, f)

        def done(x):
            if isinstance(x, numpy.ndarray) and x.shape == ():
                x = x.item()
            self.r[op['d']] = x
        return (lambda: real(*args)), done

    def r_sum(self, op):
        args = [self.rv(a) for a in op['a']]
        before = list(args)
        if op['k'] == 'fsum':
            do = lambda: umath.fsum(args)
        elif op['k'] == 'nsum':
            arr = numpy.array(args, dtype=object)
            do = lambda: arr.sum()
        else:
            do = lambda: sum(args)

        def done(x):
            if len(before) != len(args) or any(
                    a is not b for (a, b) in zip(before, args)):
                raise Problem('the list given by the caller was modified')
            self.r[op['d']] = x
        return do, done

    def r_modf(self, op):
        x = self.rv(op['a'][0])

        def done(res):
            (self.r[op['d'][0]], self.r[op['d'][1]]) = res
        return (lambda: umath.modf(x)), done

    def r_ldexp(self, op):
        x = self.rv(op['a'][0])

        def done(res):
            self.r[op['d']] = res
        return (lambda: umath.ldexp(x, op['i'])), done

    def r_frexp(self, op):
        x = self.rv(op['a'][0])

        def done(res):
            (self.r[op['d'][0]], self.r[op['d'][1]]) = res
        return (lambda: umath.frexp(x)), done

    def r_mkwrap(self, op):
        (f, derivs, more, kwderivs, names) = userfuncs.FUNCS[op['f']]
        if op.get('fake'):
            derivs = [d and userfuncs.make_fake(i)
                      for (i, d) in enumerate(derivs)]
            more_real = more and (lambda i: userfuncs.make_fake(i))
            kwderivs = dict((k, userfuncs.make_fake(k)) for k in kwderivs)
        else:
            more_real = more
        if op.get('guard'):
            name = op['u']
            f = userfuncs.guarded(f, name+'.f')
            derivs = [d and userfuncs.guarded(d, '%s.d%d' % (name, i))
                      for (i, d) in enumerate(derivs)]
            kwderivs = dict(
                (k, userfuncs.guarded(d, '%s.k%s' % (name, k)))
                for (k, d) in kwderivs.items())
        kw = {}
        if op.get('kwform') == 'all' and kwderivs:
            kw = dict(kwderivs)
        elif op.get('kwform') == 'none' and kwderivs:
            kw = dict((k, None) for k in kwderivs)
        kw_before = dict(kw)
        if op['form'] == 'none':
            do = (lambda: unc.wrap(f, derivatives_kwargs=kw)) if kw else (
                lambda: unc.wrap(f))
            given = None
        else:
            if op['form'] == 'short':
                given = list(derivs[:1])
            else:
                given = userfuncs.supply(op['form'], derivs, more_real,
                                         op['u']+'.it')
            do = (lambda: unc.wrap(f, given, kw)) if kw else (
                lambda: unc.wrap(f, given))
        self._given = getattr(self, '_given', {})
        before = list(given) if isinstance(given, (list, tuple)) else None

        def unmodified():
            return ((before is None or list(given) == before)
                    and kw == kw_before)

        def done(w):
            self._given[op['d']] = unmodified
            self.r[op['d']] = w
        return do, done

    def r_call(self, op):
        w = self.r[op['w']]
        args = [a[1] if a[0] == 't' else self.rv(a) for a in op['a']]
        kwargs = dict((k, a[1] if a[0] == 't' else self.rv(a))
                      for (k, a) in op.get('k', {}).items())
        (args_before, kwargs_before) = (list(args), dict(kwargs))

        def check_args():
            if (len(args) != len(args_before) or set(kwargs)
                    != set(kwargs_before) or any(
                        a is not b for (a, b) in zip(args, args_before))
                    or any(kwargs[k] is not kwargs_before[k]
                           for k in kwargs)):
                raise Problem('the arguments of the caller were modified')
            if not self._given[op['w']]():
                raise Problem('the derivatives given by the caller were'
                              ' modified')
        op_check = check_args

        def done(x):
            op_check()
            self.r[op['d']] = x
        done.check_args = check_args
        return (lambda: w(*args, **kwargs)), done

    def r_mkarr(self, op):
        items = [self.rv(a) for a in op['a']]
        shape = op['shape']

        def do():
            arr = numpy.empty(len(items), dtype=object)
            for (i, x) in enumerate(items):
                arr[i] = x
            arr = arr.reshape(shape)
            return arr.view(unumpy.matrix) if op.get('mat') else arr

        def done(x):
            self.r[op['d']] = x
        return do, done

    def r_uarr(self, op):
        noms = numpy.array(op['noms']).reshape(op['shape'])
        stds = numpy.array(op['stds']).reshape(op['shape'])
        make = unumpy.umatrix if op.get('mat') else unumpy.uarray

        def done(x):
            for (i, v) in enumerate(_items(x)):
                vid = '%s.%d' % (op['u'], i)
                self.register(vid, op['noms'][i], op['stds'][i])
                self.register_real(vid, v)
            self.r[op['d']] = x
        return (lambda: make(noms, stds)), done

    def r_afn(self, op):
        args = [self.rv(a) for a in op['a']]
        if op['f'] == 'ldexp':
            args.append(op['i'])
        f = getattr(unumpy, NPNAME.get(op['f'], op['f']))
        return self._array_op(op, lambda: f(*args), args)

    def r_abin(self, op):
        args = [self.rv(a) for a in op['a']]
        f = BIN_REAL[op['f']]
        return self._array_op(op, lambda: f(*args), args)

    def r_asum(self, op):
        a = self.rv(op['a'][0])
        if op['k'] == 'mean':
            do = lambda: a.mean()
        elif op['k'] == 'npsum':
            do = lambda: numpy.sum(a)
        elif op['k'] == 'pysum':
            do = lambda: sum(a.flat)
        else:
            do = lambda: a.sum()
        return self._array_op(op, do, [a])

    def r_idx(self, op):
        a = self.rv(op['a'][0])
        items = _items(a)
        return self._array_op(op, lambda: items[op['i'] % len(items)], [a])

    def r_transpose(self, op):
        a = self.rv(op['a'][0])
        return self._array_op(op, lambda: a.T, [a])

    def r_setitem(self, op):
        a = self.rv(op['a'][0])
        x = self.rv(op['a'][1])
        m = self.mv(op['a'][0])
        i = op['i'] % len(m.items)
        index = i if len(m.shape) == 1 else divmod(i, m.shape[1])

        def do():
            if can_contain(a, x):
                a[index] = x

        def done(res):
            if not can_contain(a, x):
                return
            m.items[i] = self.mv(op['a'][1])
            self.check_value(a, m, False, op['a'][0][1])
        return do, done

    def r_iop(self, op):
        (a, b) = [self.rv(x) for x in op['a']]
        m = self.mv(op['a'][0])
        f = INPLACE[op['f']]

        def do():
            return f(a, b) if can_contain(a, b) else None

        def done(res):
            new = self.m.pop(op['u']).items
            if not can_contain(a, b):
                return
            if res is not a:
                raise Problem('an operation in place returns another array')
            m.items[:] = new
            self.check_value(a, m, False, op['a'][0][1])
        return do, done

    def r_matmul(self, op):
        args = [self.rv(a) for a in op['a']]
        if self.mv(op['a'][0]).mat:
            do = lambda: args[0]*args[1]
        else:
            do = lambda: numpy.dot(args[0], args[1])
        return self._array_op(op, do, args)

    def r_inv(self, op):
        a = self.rv(op['a'][0])
        if self.mv(op['a'][0]).mat and op.get('how') == 'I':
            do = lambda: a.I
        elif op.get('how') == 'list':
            lst = [[x for x in row] for row in numpy.asarray(a)]
            do = lambda: ulinalg.inv(lst)
        else:
            do = lambda: ulinalg.inv(a)
        return self._array_op(op, do, [a])

    def r_wafn(self, op):
        a = self.rv(op['a'][0])
        f = userfuncs.guarded(userfuncs.ARRAY_FUNCS[op['f']],
                              'awf.'+op['f'])
        # (The submodule is not an attribute of unumpy if this package was
        # imported again after a failure.)
        wrap = sys.modules['uncertainties.unumpy.core'].wrap_array_func
        if op.get('fresh'):
            do = lambda: wrap(f)(a, k=op['k'])
        else:
            if op['f'] not in self.array_funcs:
                self.array_funcs[op['f']] = wrap(f)
            wrapped = self.array_funcs[op['f']]
            if op['u'][-1] in '02468':
                do = lambda: wrapped(a, op['k'])
            else:
                do = lambda: wrapped(a, k=op['k'])
        return self._array_op(op, do, [a])

    def r_pinv(self, op):
        a = self.rv(op['a'][0])
        (p, q) = self.mv(op['a'][0]).shape
        if self.mv(op['a'][0]).mat and p != q and op.get('how') == 'I':
            do = lambda: a.I
        else:
            do = lambda: ulinalg.pinv(a)
        return self._array_op(op, do, [a])

    def _array_op(self, op, do, inputs_):
        arrays = [a for a in inputs_ if isinstance(a, numpy.ndarray)]
        before = [(a.shape, type(a), _items(a)) for a in arrays]

        def check_args():
            for (a, (shape, typ, items)) in zip(arrays, before):
                now = _items(a)
                if (a.shape != shape or type(a) is not typ
                        or len(now) != len(items)
                        or any(x is not y and not model.same_float(x, y)
                               if isinstance(y, float) else x is not y
                               for (x, y) in zip(now, items))):
                    raise Problem('an input array was modified')

        def done(x):
            check_args()
            self.r[op['d']] = x
        done.check_args = check_args
        return do, done

    def r_copy(self, op):
        x = self.rv(op['a'][0])

        def done(y):
            self.r[op['d']] = y
            self._match([op['d']], op)
        return (lambda: copy.copy(x)), done

    def r_deepcopy(self, op):
        x = self.rv(op['a'][0])

        def done(y):
            self.r[op['d']] = y
            self._match([op['d']], op)
        return (lambda: copy.deepcopy(x)), done

    def r_pickle(self, op):
        xs = [self.rv(a) for a in op['a']]
        protocol = op.get('p', 2)

        def do():
            return pickle.loads(pickle.dumps(xs, protocol))

        def done(ys):
            for (d, y) in zip(op['d'], ys):
                self.r[d] = y
            self._match(op['d'], op)
        return do, done

    def _match(self, slots, op):
        """
        Associates the new real variables, found in the given results, to the
        new variables of the model.
        """
        match_new_variables(self, [(self.m[d], self.r[d]) for d in slots])

    def r_set(self, op):
        "Change of the uncertainty of a variable"
        x = self.rv(op['a'][0])
        (vid,) = self.mv(op['a'][0]).co
        s = op['s']
        how = op.get('how', 'std_dev')
        self._setting = (vid, s)
        if how == 'old':
            def do():
                x.set_std_dev(s)
        elif how == 'np':
            s = numpy.float64(s)

            def do():
                x.std_dev = s
        elif how == 'attr':
            def do():
                setattr(x, 'std_dev', s)
        else:
            def do():
                x.std_dev = s

        def done(res):
            self.s[vid] = float(s)
        return do, done

    def bad_value(self, op):
        return {'neg': -1.5, 'tiny': -1e-300, 'ninf': -float('inf'),
                'str': 'a', 'none': None, 'list': [1.], 'complex': 1j,
                'obj': object(), 'negint': -2, 'dict': {},
                'npneg': numpy.float64(-0.5), 'strnum': '0.1'}[op['v']]

    def r_badset(self, op):
        x = self.rv(op['a'][0])
        bad = self.bad_value(op)
        if op.get('how') == 'old':
            def do():
                x.set_std_dev(bad)
        else:
            def do():
                x.std_dev = bad

        def done(res):
            raise Problem('invalid uncertainty %r accepted' % (bad,))
        return do, done

    def r_badnew(self, op):
        bad = self.bad_value(op)

        n = op['n']
        form = op.get('form', 'ufloat')
        if form in ('uarray', 'umatrix', 'olduarray'):
            noms = [n]*(1+op['i'])+[2.5]
            stds = [0.25]*len(noms)
            stds[op['i']] = bad
        do = {
            'ufloat': lambda: unc.ufloat(n, bad),
            'kw': lambda: unc.ufloat(nominal_value=n, std_dev=bad),
            'tuple': lambda: unc.ufloat((n, bad)),
            'tag': lambda: unc.ufloat(n, bad, 'tag'),
            'var': lambda: core.Variable(n, bad),
            'sub': lambda: quantities.get(sorted(quantities.ATTRIBUTES)[0])(
                n, bad),
            'str': lambda: unc.ufloat_fromstr('%r+/-%s' % (n, bad)),
            'oldstr': lambda: unc.ufloat('%r+/-%s' % (n, bad)),
            'uarray': lambda: unumpy.uarray(noms, stds),
            'umatrix': lambda: unumpy.umatrix(noms, stds),
            'olduarray': lambda: unumpy.uarray((noms, stds)),
        }[form]

        def done(res):
            raise Problem('invalid uncertainty %r accepted at creation: %r'
                          % (bad, res))
        return do, done

    def r_gc(self, op):
        import gc
        return gc.collect, (lambda res: None)

    def r_drop(self, op):
        slot = op['a'][0][1]

        def do():
            del self.r[slot]
            del self.m[slot]
        return do, (lambda res: None)

    # -- reads -------------------------------------------------------------

    def r_read(self, op):
        what = op['w']
        refs = op['a']
        xs = [self.rv(a) for a in refs]
        ms = [self.mv(a) for a in refs]
        x = xs[0]
        m = ms[0]
        check = None
        if what == 'n':
            do = lambda: x.nominal_value
        elif what == 'nf':
            do = lambda: unc.nominal_value(x)
        elif what == 's':
            do = lambda: x.std_dev
        elif what == 'ss':
            do = lambda: x.s
        elif what == 'sf':
            do = lambda: unc.std_dev(x)
        elif what == 'call':
            do = lambda: x.std_dev()
        elif what == 'key':
            do = lambda: keyed(xs)
        elif what == 'd':
            do = lambda: x.derivatives
        elif what == 'e':
            do = lambda: x.error_components()
        elif what == 'repr':
            do = lambda: repr(x)
        elif what == 'str':
            do = lambda: str(x)
        elif what == 'fmt':
            do = lambda: format(x, op['spec'])
            if op['u'][-1] in '369':
                do = lambda: x.format(op['spec'])
        elif what == 'cov':
            do = lambda: unc.covariance_matrix(xs)
        elif what == 'cor':
            do = lambda: unc.correlation_matrix(xs)
        elif what in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            f = getattr(operator, what)
            y = xs[1]
            do = lambda: f(x, y)
        elif what == 'bool':
            do = lambda: bool(x)
        elif what == 'score':
            do = lambda: x.std_score(op['v'])
        else:
            raise ValueError(what)

        def done(res):
            self.check_read(what, res, xs, ms, op)
        return do, done

    def check_read(self, what, res, xs, ms, op):
        self.n_checks += 1
        x = xs[0]
        m = ms[0]
        if what in ('n', 'nf'):
            if not model.same_float(res, m.n):
                raise Problem('nominal value: %r instead of %r' % (res, m.n))
        elif what in ('s', 'ss', 'sf', 'call'):
            self.check_std(res, m)
        elif what == 'key':
            if not all(res):
                raise Problem('variables as keys of dictionaries: %r'
                              % (res,))
        elif what == 'd':
            self.check_derivatives(res, m)
        elif what == 'e':
            self.check_components(res, m)
            res.clear()     # It belongs to the user
        elif what == 'repr':
            self.check_repr(res, x, m)
        elif what in ('str', 'fmt'):
            self.check_format(res, x, m, op.get('spec', ''))
        elif what == 'cov':
            self.check_cov(res, ms)
            for row in res:
                del row[:]
        elif what == 'cor':
            self.check_cor(res, ms)
        elif what in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            self.check_comparison(what, res, ms[0], ms[1],
                                  xs[0] is xs[1])
        elif what == 'bool':
            self.check_comparison('ne', res, m, 0., False)
        elif what == 'score':
            bounds = model_std(m, self.s)
            if bounds is None or bounds != bounds:
                return
            (lo, hi) = bounds
            if lo <= 0 or math.isinf(hi):
                return
            d = op['v']-m.n
            (a, b) = sorted((d/lo, d/hi))
            if not a-1e-9*abs(a) <= res <= b+1e-9*abs(b):
                raise Problem('std_score: %r not in [%r, %r]' % (res, a, b))

    def check_std(self, res, m):
        if not isinstance(res, float):
            raise Problem('standard deviation is not a float: %r' % (res,))
        if not isinstance(m, MNum):
            if res != 0:
                raise Problem('standard deviation of a constant: %r' % res)
            return
        b = model_std(m, self.s)
        if b is None:
            return
        if b != b:
            if res == res:
                raise Problem('standard deviation: %r instead of NaN' % res)
            return
        (lo, hi) = b
        if not lo <= res <= hi:
            raise Problem('standard deviation: %r instead of %r'
                          % (float(res), (lo+hi)/2))

    def _vid(self, var):
        vid = self.vid_of.get(id(var))
        if vid is None or self.real_var.get(vid) is not var:
            raise Problem('unexpected variable %r' % (var,))
        return vid

    def check_derivatives(self, res, m):
        seen = set()
        for (var, c) in list(res.items()):
            if var not in res:
                raise Problem('inconsistent derivatives')
            vid = self._vid(var)
            seen.add(vid)
            (mc, mag, err) = m.co.get(vid, (0., 1., 0.))
            if not isinstance(c, (float, int)):
                raise Problem('derivative is not a number: %r' % (c,))
            if not model.close(c, mc, model.REL*mag+err):
                raise Problem('derivative with respect to %s: %r instead of'
                              ' %r' % (vid, c, mc))
        for (vid, (mc, mag, err)) in m.co.items():
            if vid not in seen and not abs(mc) <= model.REL*mag+err:
                raise Problem('missing derivative with respect to %s (%r)'
                              % (vid, mc))

    def check_components(self, res, m):
        seen = set()
        for (var, c) in res.items():
            vid = self._vid(var)
            seen.add(vid)
            (mc, mag, err) = m.co.get(vid, (0., 1., 0.))
            s = self.s[vid]
            if s == 0:
                ok = (c == 0)
            elif not s < float('inf') and abs(mc) <= model.REL*mag+err:
                ok = True
            else:
                ok = model.close(c, abs(mc*s),
                                 (model.REL*mag+err)*s+1e-12*abs(mc*s)
                                 if not math.isinf(s) else 0.)
            if not ok:
                raise Problem('error component for %s: %r instead of %r'
                              % (vid, c, abs(mc*s)))
        for (vid, (mc, mag, err)) in m.co.items():
            if vid not in seen and self.s[vid] and not abs(
                    mc) <= model.REL*mag+err:
                raise Problem('missing error component for %s' % vid)

    def check_repr(self, res, x, m):
        text = res
        tag = None
        if res.startswith('< '):
            match = re.match(r'^< (.*) = (.*) >$', res)
            if not match:
                raise Problem('unexpected representation %r' % res)
            tag = match.group(1)
            text = match.group(2)
        match = REPR_RE.match(text)
        if not match:
            raise Problem('unexpected representation %r' % res)
        if not model.same_float(float(match.group(1)), m.n):
            raise Problem('representation %r, for nominal value %r'
                          % (res, m.n))
        self.check_std(float(match.group(2)), m)

    def check_format(self, res, x, m, spec):
        # The standard deviation is independently checked:
        s = x.std_dev
        self.check_std(s, m)
        expected = format(unc.ufloat(m.n, s), spec)
        if res != expected:
            # Rounding limits: an imperceptibly different value is possible
            # only if std_dev is not deterministic.
            raise Problem('format %r: %r instead of %r'
                          % (spec, res, expected))

    def check_cov(self, res, ms):
        n = len(ms)
        if len(res) != n or any(len(row) != n for row in res):
            raise Problem('shape of the covariance matrix')
        for i in range(n):
            for j in range(n):
                if self._nonfinite(ms[i], ms[j]):
                    continue
                (c, err) = model.covariance(ms[i], ms[j], self.s)
                if not model.close(res[i][j], c, err+1e-9*abs(c)):
                    raise Problem('covariance %d, %d: %r instead of %r'
                                  % (i, j, res[i][j], c))

    def _nonfinite(self, *ms):
        return any(not self.s[v] < float('inf') or c[0] != c[0]
                   for m in ms for (v, c) in m.co.items())

    def check_cor(self, res, ms):
        n = len(ms)
        if res.shape != (n, n):
            raise Problem('shape of the correlation matrix')
        var = [model.covariance(m, m, self.s) for m in ms]
        for i in range(n):
            for j in range(n):
                if self._nonfinite(ms[i], ms[j]):
                    continue
                (c, err) = model.covariance(ms[i], ms[j], self.s)
                ((vi, ei), (vj, ej)) = (var[i], var[j])
                if not (vi > 1e3*ei and vj > 1e3*ej):
                    continue
                r = c/math.sqrt(vi*vj)
                tol = (err/math.sqrt(vi*vj)
                       + abs(r)*(ei/vi+ej/vj)+1e-8)
                if not model.close(float(res[i][j]), r, tol):
                    raise Problem('correlation %d, %d: %r instead of %r'
                                  % (i, j, res[i][j], r))

    def check_comparison(self, what, res, m1, m2, same):
        expected = model_comparison(what, m1, m2, self.s, same)
        if expected is None:
            return
        if bool(res) != expected or not isinstance(res, bool):
            raise Problem('%s: %r instead of %r (%r, %r)'
                          % (what, res, expected, m1, m2))

    # Arrays

    def r_aread(self, op):
        a = self.rv(op['a'][0])
        what = op['w']
        m = self.mv(op['a'][0])
        plain = None
        if what == 'n':
            if op.get('attr') and isinstance(a, unumpy.matrix):
                do = lambda: a.nominal_values
            else:
                if op.get('plain'):
                    a = numpy.array([model.nom(y) for y in m.items],
                                    dtype=float).reshape(m.shape)
                    plain = a.copy()
                do = lambda: unumpy.nominal_values(a)
        elif op.get('attr') and isinstance(a, unumpy.matrix):
            do = lambda: a.std_devs
            if op['attr'] == 'call':
                do = lambda: a.std_devs()
        else:
            do = lambda: unumpy.std_devs(a)

        def done(res):
            self.n_checks += 1
            if res.shape != m.shape or res.dtype != float:
                raise Problem('shape or type of the result: %r' % (res,))
            for (x, y) in zip(_items(res), m.items):
                if what == 'n':
                    if not (model.same_float(x, model.nom(y))
                            or abs(x-model.nom(y))
                            <= 1e-9*max(1, abs(model.nom(y)))):
                        raise Problem('nominal value %r instead of %r'
                                      % (x, model.nom(y)))
                else:
                    self.check_std(float(x), y)
            # The array obtained belongs to the user:
            res[...] = -1234.5
            if plain is not None and not numpy.array_equal(
                    a, plain, equal_nan=True):
                raise Problem('the array given by the user can be changed'
                              ' through the array of its nominal values')
        return do, done

    # -- checks ------------------------------------------------------------

    def check_result(self, slot, deep=False, ntol=0.):
        "Checks the result of an operation; deep: also forces its expansion."
        m = self.m[slot]
        x = self.r[slot]
        self.check_value(x, m, deep, slot, ntol)
        if ntol and isinstance(m, float):
            # Rounding: the model follows
            self.m[slot] = float(core.nominal_value(x))

    def check_value(self, x, m, deep, slot='', ntol=0.):
        self.n_checks += 1
        if isinstance(m, UFunc):
            return
        if isinstance(m, MArr):
            items = _items(x) if isinstance(x, numpy.ndarray) else None
            if items is None or x.shape != m.shape or len(items) != len(
                    m.items):
                raise Problem('%s: array expected, of shape %r: %r'
                              % (slot, m.shape, x))
            if m.mat != isinstance(x, numpy.matrix):
                raise Problem('%s: wrong type of array: %r' % (slot, type(x)))
            for (i, (xi, mi)) in enumerate(zip(items, m.items)):
                self.check_value(xi, mi, deep, '%s[%d]' % (slot, i),
                                 ntol=1e-9)
                if isinstance(mi, float):
                    # Rounding, sign of zero: the model follows
                    m.items[i] = float(core.nominal_value(xi))
            return
        if not isinstance(m, MNum):
            if isinstance(x, core.AffineScalarFunc):
                # Constant number with uncertainty
                if x.std_dev != 0:
                    raise Problem('%s: constant expected: %r' % (slot, x))
                x = x.nominal_value
            if not (model.same_float(x, m)
                    or (ntol and abs(x-m) <= ntol*max(1, abs(m)))):
                raise Problem('%s: %r instead of %r' % (slot, x, m))
            return
        if not isinstance(x, core.AffineScalarFunc):
            if m.co and not all(abs(c) <= model.REL*mag+e
                                for (c, mag, e) in m.co.values()):
                raise Problem('%s: number with uncertainty expected: %r'
                              % (slot, x))
            deep = False
            n = float(x)
        else:
            n = x.nominal_value
        if ntol and n == 0 == m.n:
            m.n = n         # Sign of zero
        if not model.same_float(n, m.n):
            if ntol and abs(n-m.n) <= ntol*max(1, abs(m.n)):
                m.n = n     # Rounding: the model follows
            else:
                raise Problem('%s: nominal value %r instead of %r'
                              % (slot, n, m.n))
        if deep:
            try:
                self.check_derivatives(x.derivatives, m)
                self.check_std(x.std_dev, m)
                self.check_components(x.error_components(), m)
            except Problem as exc:
                raise Problem('%s: %s' % (slot, exc))

    def check_variables(self):
        for (vid, var) in self.real_var.items():
            self.n_checks += 1
            s = var.std_dev
            if not model.same_float(s, self.s[vid]):
                raise Problem('uncertainty of variable %s: %r instead of %r'
                              % (vid, float(s), self.s[vid]))
            if not model.same_float(var.nominal_value, self.var_n[vid]):
                raise Problem('nominal value of variable %s: %r instead of %r'
                              % (vid, var.nominal_value, self.var_n[vid]))
            if var.tag != self.tag[vid]:
                raise Problem('tag of variable %s: %r instead of %r'
                              % (vid, var.tag, self.tag[vid]))
            if vid in self.attrs:
                state = quantities.state(var)
                if state != self.attrs[vid]:
                    raise Problem('variable %s of a subclass: %r instead of'
                                  ' %r' % (vid, state, self.attrs[vid]))

    def check_everything(self, rng=None):
        self.check_variables()
        slots = sorted(self.m, key=str)
        if rng is not None:
            rng.shuffle(slots)
        for slot in slots:
            if slot in self.r:
                self.check_result(slot, deep=True)
        nums = [slot for slot in slots if isinstance(self.m[slot], MNum)
                and isinstance(self.r.get(slot), core.AffineScalarFunc)]
        nums = nums[:6]
        if nums:
            ms = [self.m[s] for s in nums]
            xs = [self.r[s] for s in nums]
            self.check_cov(unc.covariance_matrix(xs), ms)
            for (i, x) in enumerate(xs):
                self.check_repr(repr(x), x, ms[i])
                self.check_comparison('eq', x == x, ms[i], ms[i], True)


def keyed(xs):
    "Access to variables through dictionaries and sets"
    table = dict((x, i) for (i, x) in enumerate(xs))
    found = [xs[table[x]] is x for x in xs]
    copies = set(xs)
    return found+[x in copies for x in xs]+[
        len(table) == len(copies) == len(set(map(id, xs)))]


def inputs(op):
    "Slots that are read by an operation"
    res = [a[1] for a in op.get('a', ()) if a[0] == 's']
    res += [a[1] for a in op.get('k', {}).values() if a[0] == 's'] if (
        isinstance(op.get('k'), dict)) else []
    if op['o'] == 'call':
        res.append(op['w'])
    return res


def _items(arr):
    "Flat list of the elements (not copies of arrays)"
    return [x for x in numpy.asarray(arr).flat]


def _mm(a, b, p, q, r):
    res = []
    for i in range(p):
        for j in range(r):
            n = 0.
            terms = []
            for k in range(q):
                (x, y) = (a[i*q+k], b[k*r+j])
                n += model.nom(x)*model.nom(y)
                if isinstance(x, MNum):
                    terms.append((model.nom(y), 0., x))
                if isinstance(y, MNum):
                    terms.append((model.nom(x), 0., y))
            res.append(model.linear(n, terms) if terms else n)
    return res


def _inverse(v, n):
    "Inverse of a matrix, by Gauss-Jordan elimination"
    m = [[v[i*n+j] for j in range(n)]+[float(i == j) for j in range(n)]
         for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(m[i][c]))
        if abs(m[p][c]) < 1e-3:
            return None
        (m[c], m[p]) = (m[p], m[c])
        d = m[c][c]
        m[c] = [t/d for t in m[c]]
        for i in range(n):
            if i != c and m[i][c]:
                f = m[i][c]
                m[i] = [t-f*u for (t, u) in zip(m[i], m[c])]
    return [m[i][n+j] for i in range(n) for j in range(n)]


def _sound(mat, inv, limit):
    "True if the matrix is not ill-conditioned"
    return sum(x*x for x in mat)*sum(x*x for x in inv) <= limit*limit


def _pinv(v, p, q):
    "Pseudo-inverse of a full rank matrix"
    t = [v[i*q+j] for j in range(q) for i in range(p)]
    if p >= q:
        g = _inverse(_mm(t, v, q, p, q), q)
        return g and _mm(g, t, q, q, p)
    g = _inverse(_mm(v, t, p, q, p), p)
    return g and _mm(t, g, q, p, p)


def model_std(m, s_of):
    "Bounds of the standard deviation; None: unknown; NaN"
    for (v, (c, mag, e)) in m.co.items():
        if not s_of[v] < float('inf') and abs(c) <= model.REL*mag+e:
            return None
    return model.std_interval(m, s_of)


def model_comparison(what, m1, m2, s_of, same=False):
    n1 = model.nom(m1)
    n2 = model.nom(m2)
    if what == 'lt':
        return n1 < n2
    if what == 'gt':
        return n1 > n2
    # Equality:
    if n1-n2 != 0:      # also if NaN
        eq = False
    else:
        co = {}
        for (m, sign) in ((m1, 1.), (m2, -1.)):
            if isinstance(m, MNum):
                for (v, (c, mag, e)) in m.co.items():
                    (c0, mag0, e0) = co.get(v, (0., 0., 0.))
                    co[v] = (c0+sign*c, mag0+mag, e0+e)
        diff = MNum(0., co)
        b = model_std(diff, s_of)
        if b is None:
            return None
        if b != b:
            eq = False
        elif b[0] > 0:
            eq = False
        elif all(s_of[v] == 0 for v in co):
            eq = True
        elif same and b[1] < float('inf'):
            eq = True
        else:
            return None
    if what == 'eq':
        return eq
    if what == 'ne':
        return not eq
    if what == 'le':
        return n1 < n2 or eq
    return n1 > n2 or eq


def match_new_variables(world, pairs):
    """
    Associates unknown real variables, found in real numbers, to the variables
    of the corresponding model numbers: by nominal value, uncertainty, tag and
    coefficients.
    """
    flat = []
    for (m, x) in pairs:
        if isinstance(m, MArr):
            if not isinstance(x, numpy.ndarray) or x.shape != m.shape:
                raise Problem('array expected: %r' % (x,))
            flat.extend(zip(m.items, _items(x)))
        else:
            flat.append((m, x))
    flat = [(m, x) for (m, x) in flat if isinstance(m, MNum)]
    unknown = {}     # id -> (variable, coefficient in each number)
    expected = {}
    for (i, (m, x)) in enumerate(flat):
        if not isinstance(x, core.AffineScalarFunc):
            if not all(abs(c) <= model.REL*mag+e
                       for (c, mag, e) in m.co.values()):
                raise Problem('number with uncertainty expected: %r' % (x,))
            continue
        for (v, c) in x.derivatives.items():
            if id(v) not in world.vid_of:
                unknown.setdefault(id(v), (v, {}))[1][i] = c
        for (vid, c) in m.co.items():
            if vid not in world.real_var:
                expected.setdefault(vid, {})[i] = c
    unknown = list(unknown.values())
    possible = []
    for (v, coefs) in unknown:
        possible.append([
            vid for (vid, mcoefs) in expected.items()
            if (model.same_float(v.nominal_value, world.var_n[vid])
                and model.same_float(v.std_dev, world.s[vid])
                and v.tag == world.tag[vid]
                and (vid not in world.attrs
                     or world.attrs[vid] == quantities.state(v))
                and all(_same_coef(coefs.get(i), mcoefs.get(i))
                        for i in range(len(flat))))])
    # Several associations can be possible, for similar variables:
    chosen = {}

    def associate(i, tried):
        for vid in possible[i]:
            if vid not in tried:
                tried.add(vid)
                if vid not in chosen or associate(chosen[vid], tried):
                    chosen[vid] = i
                    return True
        return False
    for (i, (v, coefs)) in enumerate(unknown):
        if not associate(i, set()):
            raise Problem('unexpected variable %r (coefficients %r)'
                          % (v, coefs))
    for (vid, i) in chosen.items():
        world.register_real(vid, unknown[i][0])


def _same_coef(c, mc):
    if c is None:
        c = 0.
    (mc, mag, err) = mc or (0., 0., 0.)
    return model.close(c, mc, model.REL*mag+err)
