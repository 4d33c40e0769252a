"""
Random generation of plans: what the simulated users do, how their tasks are
scheduled, and which faults happen.  Everything depends only on the seed.
"""

import math
import random

from . import model, userfuncs
from .execute import USER_EXC
from .model import MNum, Expected, Reject
from .quantities import ATTRIBUTES as SUBCLASSES
from .world import World, MArr, UFunc, inputs

RECOVERABLE = ['KI', 'ME', 'TO', 'SE', 'CA']


class Gen(object):

    def __init__(self, rng, weights, opts=None):
        self.rng = rng
        self.weights = dict(weights)
        self.opts = opts or {}
        self.w = World(real=False)
        self.count = 0
        self.prefix = ''
        self.nums = []       # slots with numbers with uncertainty
        self.plain = []
        self.arrays = []
        self.wraps = []
        self.frozen_vars = []
        self.guards = []     # names of the callbacks that can fail
        # Intermediate results that are not kept, accumulations:
        self.losing = rng.choice([0., .1, .1, .4])
        self.accumulating = rng.choice([0., 0., .1, .4])

    def fork(self, prefix, rng):
        "Generator for a task, that starts from the current state"
        g = Gen(rng, self.weights, self.opts)
        g.prefix = prefix
        w = g.w
        w.m = dict(self.w.m)
        w.s = dict(self.w.s)
        w.var_n = dict(self.w.var_n)
        w.tag = dict(self.w.tag)
        g.count = self.count
        for name in ('nums', 'plain', 'arrays', 'wraps', 'guards'):
            setattr(g, name, list(getattr(self, name)))
        return g

    # -- basic choices -----------------------------------------------------

    def new(self):
        self.count += 1
        return '%s%d' % (self.prefix, self.count)

    def value(self, lo=-4., hi=4.):
        "Nominal value that no other number has"
        self.count += 1
        r = self.rng.random()
        if r < 0.1:
            base = float(self.rng.randint(-3, 3))
            if self.opts.get('exact', True) and self.rng.random() < .3:
                return -base if self.rng.random() < .3 else base
        elif r < 0.75:
            base = self.rng.uniform(0.1, hi)
        else:
            base = self.rng.uniform(lo, hi)
        return round(base, 3)+self.count*1e-6

    def std(self):
        r = self.rng.random()
        if r < 0.06:
            return 0.
        if r < 0.09 and self.opts.get('nonfinite', True):
            return self.rng.choice([float('nan'), float('inf')])
        if r < 0.14:
            return float(self.rng.randint(1, 4))
        self.count += 1
        return round(10**self.rng.uniform(-3, 0.7), 5)+self.count*1e-8

    def num(self):
        "Slot of a number with uncertainty"
        if not self.nums:
            raise Reject
        if self.rng.random() < 0.4:
            return ['s', self.rng.choice(self.nums[-4:])]
        return ['s', self.rng.choice(self.nums)]

    def constant(self):
        if self.opts.get('zeros') and self.rng.random() < self.opts['zeros']:
            return ['c', self.rng.choice([0., -0.]), 'f']
        typ = self.rng.choice('ffffin')
        if typ == 'i':
            return ['c', self.rng.choice([1, 2, 3, -1, -2, 5]), 'i']
        v = self.rng.choice([0.5, 2., -1.5, 3., 1., 0.25, 10.])
        if self.rng.random() < .5:
            v = round(self.rng.uniform(0.1, 3), 3)
        return ['c', v, typ]

    def arg(self, p=0.7):
        if self.rng.random() < p:
            return self.num()
        if self.plain and self.rng.random() < 0.2:
            slot = self.rng.choice(self.plain)
            if isinstance(self.w.m.get(slot), (int, float)):
                return ['s', slot]
        return self.constant()

    def var_slot(self):
        slots = self.w.var_slots()
        if not slots:
            raise Reject
        return self.rng.choice(slots)

    # -- operations --------------------------------------------------------

    def apply(self, op):
        "Effect of the operation on the generator's model"
        w = self.w
        kind = op['o']
        if kind in ('arm', 'disarm', 'gc'):
            return
        results = w.evaluate(op)
        # All the results must be tame (rounding errors, etc.):
        for (slot, value) in results:
            if isinstance(value, MArr):
                if not all(model.acceptable(x) and not self._nan(x)
                           for x in value.items):
                    raise Reject
            elif not isinstance(value, UFunc):
                if not model.acceptable(value):
                    raise Reject
                if self._nan(value) and self.rng.random() < 0.9:
                    raise Reject
        if kind == 'setitem':
            m = w.mv(op['a'][0])
            m.items[op['i'] % len(m.items)] = w.mv(op['a'][1])
        elif kind == 'iop':
            w.mv(op['a'][0]).items[:] = results.pop()[1].items
        if kind == 'var':
            w.register(op['u'], op['n'], op['s'], op.get('tag'))
        elif kind == 'corr':
            for j in range(len(op['d'])):
                w.register('%s.%d' % (op['u'], j), 0., 1.)
        elif kind == 'uarr':
            for (i, (n, s)) in enumerate(zip(op['noms'], op['stds'])):
                w.register('%s.%d' % (op['u'], i), n, s)
        elif kind == 'set':
            (vid,) = w.mv(op['a'][0]).co
            w.s[vid] = float(op['s'])
        elif kind == 'drop':
            slot = op['a'][0][1]
            w.m.pop(slot, None)
            for lst in (self.nums, self.plain, self.arrays):
                if slot in lst:
                    lst.remove(slot)
        for (slot, value) in results:
            w.m[slot] = value
            if isinstance(value, MNum):
                self.nums.append(slot)
            elif isinstance(value, MArr):
                self.arrays.append(slot)
            elif isinstance(value, UFunc):
                self.wraps.append(slot)
            else:
                self.plain.append(slot)

    @staticmethod
    def _nan(x):
        if isinstance(x, MNum):
            return x.n != x.n or any(c[0] != c[0] for c in x.co.values())
        return isinstance(x, float) and x != x

    def make(self, n, weights=None):
        "List of n operations"
        weights = weights or self.weights
        kinds = sorted(weights)
        ps = [weights[k] for k in kinds]
        ops = []
        tries = 0
        while len(ops) < n and tries < 40*n+100:
            tries += 1
            kind = self.rng.choices(kinds, ps)[0]
            try:
                op = getattr(self, 'g_'+kind)()
                if op is None:
                    continue
                op['u'] = self.new()
                if 'd' in op:
                    if isinstance(op['d'], int):
                        op['d'] = ['%s_%d' % (op['u'], i)
                                   for i in range(op['d'])]
                    else:
                        op['d'] = op['u']
                self.apply(op)
                self.lose(op)
            except (Reject, IndexError, OverflowError):
                continue
            except Expected as exc:
                if op['o'] == 'read':
                    ops.append(op)
                elif (op['o'] == 'fn' and op.get('ns', 'umath') in (
                        'umath', 'op') and self.rng.random() < 0.15):
                    ops.append(self.decorate(op))   # The error is checked
                continue
            ops.append(self.decorate(op))
        return ops

    def lose(self, op):
        """
        Intermediate results that the user does not keep (total = total+x,
        a single expression, etc.)
        """
        acc = op.pop('acc', False)
        if op['o'] not in ('fn', 'sum', 'call', 'modf', 'ldexp') or (
                not acc and self.rng.random() >= self.losing):
            return
        slots = sorted(set(
            a[1] for a in (op['a'][:1] if acc else op['a'])
            if a[0] == 's' and a[1] in self.nums
            and a[1].startswith(self.prefix or '')
            and (self.prefix or a[1][:1].isdigit())))
        if self.rng.random() < .5:
            slots = slots[:1]
        if slots and len(self.nums) > 5:
            op['lose'] = slots
            for slot in slots:
                self.w.m.pop(slot, None)
                self.nums.remove(slot)

    def decorate(self, op):
        r = self.rng.random()
        deep = self.opts.get('deep', 0.15)
        if r < deep*.3:
            op['chk'] = 4
        elif r < deep:
            op['chk'] = 2
        if self.rng.random() < self.opts.get('fdeep', 0.3):
            op['fchk'] = 2
        f = self.opts.get('resource')
        if f and op['o'] not in NOT_ROBUST and 'array' not in op.get(
                'form', '') and 'matrix' not in op.get('form', ''):
            if self.rng.random() < self.opts.get('resource_p', .5):
                if f == 'nomem':
                    op['nomem'] = sorted(
                        int(2**self.rng.uniform(0, 9)) for _ in range(
                            self.rng.randint(1, 12)))
                else:
                    op['stack'] = sorted(
                        self.rng.randint(3, 40) for _ in range(
                            self.rng.randint(1, 4)))
        return op

    def g_var(self):
        op = {'o': 'var', 'd': 1 and None, 'n': self.value(), 's': self.std()}
        if self.opts.get('zeros') and self.rng.random() < self.opts['zeros']:
            op['n'] = self.rng.choice([0., -0.])
        if self.rng.random() < .06 and self.w.var_n:
            # Variable similar to another one
            vid = self.rng.choice(list(self.w.var_n))
            op['n'] = self.w.var_n[vid]
            if self.rng.random() < .6:
                op['s'] = self.w.s[vid]
            if self.rng.random() < .5 and self.w.tag.get(vid):
                op['tag'] = self.w.tag[vid]
        r = self.rng.random()
        if r < 0.12 and math.isfinite(op['s']):
            op['how'] = 'str'
            if op['s'] == 0:
                op['s'] = 0.25
        elif r < 0.2:
            op['how'] = 'kw'
        elif r < 0.28:
            op['how'] = 'np'
        elif r < 0.33:
            op['how'] = 'old'
        elif r < 0.36 and math.isfinite(op['s']) and op['s']:
            op['how'] = 'oldstr'
        elif r < 0.4 and math.isfinite(op['s']):
            # Other notations: the values are those of the documentation
            form = self.rng.choice(['par', 'pardot', 'exp', 'pm', 'common',
                                    'one'])
            (n, s) = (round(op['n'], 4), int(op['s']*1000) % 90+1)
            if form == 'par':
                text = '%.4f(%d)' % (n, s)
                (n, s) = (float('%.4f' % n), s/10.**4)
            elif form == 'pardot':
                text = '%.2f(%d.%d)' % (n, s, s % 7)
                (n, s) = (float('%.2f' % n), float('%d.%d' % (s, s % 7)))
            elif form == 'exp':
                text = '%.4f(%d)e-1' % (n, s)
                (n, s) = (float('%.4f' % n)*10.**-1, s/10.**4*10.**-1)
            elif form == 'pm':
                text = '%r\xb10.%02d' % (n, s)
                s = float('0.%02d' % s)
            elif form == 'common':
                text = '(%r+/-0.%02d)e1' % (n, s)
                (n, s) = (n*10., float('0.%02d' % s)*10.)
            else:
                text = '%.3f' % n
                (n, s) = (float('%.3f' % n), 1/10.**3)
            op.update(n=n, s=s, how=self.rng.choice(['text', 'oldtext']),
                      text=text)
        if self.rng.random() < 0.25:
            op['tag'] = self.rng.choice(['t', 'x', 'velocity'])+str(
                self.count)
        if 'how' not in op and self.rng.random() < self.opts.get('sub', .04):
            # Subclass made by the user, with attributes
            names = self.rng.choice(sorted(SUBCLASSES))
            op['sub'] = [names, dict(
                (a, '%s%d' % (a, self.count)) for a in SUBCLASSES[names]
                if self.rng.random() < .7)]
        return op

    def g_corr(self):
        n = self.rng.randint(2, 3)
        # Random positive matrix:
        L = [[self.rng.uniform(-1, 1) if j < i else
              (self.rng.uniform(0.3, 1.2) if i == j else 0.)
              for j in range(n)] for i in range(n)]
        cov = [[sum(L[i][k]*L[j][k] for k in range(n)) for j in range(n)]
               for i in range(n)]
        cov = [[round(cov[max(i, j)][min(i, j)], 6) for j in range(n)]
               for i in range(n)]
        op = {'o': 'corr', 'd': n, 'noms': [self.value() for _ in range(n)],
              'cov': cov}
        if self.rng.random() < .3:
            op['how'] = 'norm'
        return op

    def g_fn(self):
        r = self.rng.random()
        op = {'o': 'fn', 'd': None}
        if r < .55 and self.nums and self.rng.random() < self.accumulating:
            # total = total+x
            op.update(f=self.rng.choice(['add', 'add', 'add', 'sub', 'mul']),
                      a=[['s', self.nums[-1]], self.arg(.85)],
                      ns=self.rng.choice(['op', 'op', 'inplace']), acc=True)
        elif r < 0.55:
            f = self.rng.choice(['add', 'sub', 'mul', 'truediv', 'add', 'mul',
                                 'opow', 'mod', 'floordiv', 'sub', 'add'])
            (a, b) = (self.arg(0.85), self.arg(0.6))
            if self.rng.random() < .3:
                (a, b) = (b, a)
            if self.rng.random() < .12:
                b = a
            if a[0] == 'c' and b[0] == 'c':
                a = self.num()
            if 'n' == a[-1] and a[0] == 'c':
                a = ['c', a[1], 'f']
            op.update(f=f, a=[a, b], ns='op')
            if self.rng.random() < .1 and a[0] == 's':
                op['ns'] = 'inplace'
        elif r < 0.65:
            op.update(f=self.rng.choice(['neg', 'pos', 'abs', 'otrunc',
                                         'neg']),
                      a=[self.num()], ns='op')
        elif r < 0.9:
            op.update(f=self.rng.choice(model.FUNC1), a=[self.arg(.9)])
        elif r < 0.97:
            op.update(f=self.rng.choice(model.FUNC2),
                      a=[self.arg(.7), self.arg(.7)])
        else:
            op.update(f=self.rng.choice(model.LOCALLY_CONSTANT),
                      a=[self.num()])
        if op['f'] in ('ceil', 'floor', 'trunc', 'otrunc', 'floordiv'):
            v = [model.nom(self.w.mv(a)) for a in op['a']]
            if any(math.isnan(x) or math.isinf(x) for x in v):
                raise Reject
        if not model.tame(op['f'], [self.w.mv(a) for a in op['a']]):
            raise Reject
        return op

    def g_sum(self):
        n = self.rng.randint(2, 7)
        return {'o': 'sum', 'd': None, 'a': [self.arg(.85) for _ in range(n)],
                'k': self.rng.choice(['sum', 'sum', 'fsum', 'nsum'])}

    def g_modf(self):
        return {'o': 'modf', 'd': 2, 'a': [self.num()]}

    def g_ldexp(self):
        return {'o': 'ldexp', 'd': None, 'a': [self.num()],
                'i': self.rng.randint(-3, 3)}

    def g_frexp(self):
        return {'o': 'frexp', 'd': 2, 'a': [self.num()]}

    def g_mkwrap(self):
        f = self.rng.choice(sorted(userfuncs.FUNCS))
        forms = list(userfuncs.FORMS)+['short']
        form = self.rng.choice(forms)
        op = {'o': 'mkwrap', 'd': None, 'f': f, 'form': form}
        op['kwform'] = self.rng.choice([None, 'all', 'none'])
        if self.opts.get('fake') and self.rng.random() < self.opts['fake']:
            op['fake'] = True
        if self.opts.get('guard') and self.rng.random() < self.opts['guard']:
            op['guard'] = True
        if (self.opts.get('guard') or self.opts.get('faulty')
                or self.opts.get('lossy')) and (
                form in userfuncs.LAZY_FORMS):
            op['fake'] = False
        return op

    def g_call(self):
        if not self.wraps:
            raise Reject
        slot = self.rng.choice(self.wraps[-6:])
        uf = self.w.m[slot]
        (f, derivs, more, kwderivs, names) = userfuncs.FUNCS[uf.name]
        p = 0.75 if self.rng.random() < .9 else 0.
        args = []
        kwargs = {}

        def arg():
            a = self.arg(p)
            if p == 0 and a[0] == 's':
                a = self.constant()
            if a[0] == 'c':
                a = ['c', a[1], 'f']
            if abs(model.nom(self.w.mv(a))) > 20:
                raise Reject
            return a
        if uf.name == 'mode':
            args = [arg(), ['t', self.rng.choice(['add', 'mul'])]]
            if self.rng.random() < .7:
                args.append(arg())
        elif uf.name == 'rest':
            args = [arg() for _ in range(self.rng.randint(1, 5))]
        elif uf.name == 'kw':
            args = [arg()]
            for k in 'pq':
                if self.rng.random() < .6:
                    kwargs[k] = arg()
        elif uf.name == 'konly':
            args = [arg()]
            if self.rng.random() < .6:
                args.append(arg())
            if self.rng.random() < .7:
                kwargs['z'] = arg()
        elif uf.name == 'log':
            args = [arg() for _ in range(self.rng.randint(1, 2))]
        elif uf.name == 'poly':
            args = [arg() for _ in range(self.rng.randint(2, 3))]
        else:
            args = [arg() for _ in range(len(derivs))]
        if uf.name in ('hypot', 'log') and not model.tame(
                uf.name, [self.w.mv(a) for a in args]):
            raise Reject
        if uf.name in ('hypot', 'log') and any(
                abs(model.nom(self.w.mv(a))) < 0.1 for a in args):
            raise Reject
        if names and self.rng.random() < .3:
            # Some arguments are given by name
            k = self.rng.randint(0, len(args))
            if uf.name != 'rest':
                for i in range(k, min(len(args), len(names))):
                    kwargs[names[i]] = args[i]
                args = args[:k]
        if not any(a[0] == 's' for a in args+list(kwargs.values())) and (
                any(a[0] == 't' for a in args)) and False:
            raise Reject
        return {'o': 'call', 'd': None, 'w': slot, 'a': args, 'k': kwargs}

    # Arrays

    def array(self):
        if not self.arrays:
            raise Reject
        return ['s', self.rng.choice(self.arrays[-6:])]

    def shape(self):
        return self.rng.choice([[2], [3], [4], [2, 2], [2, 3], [3, 2], [1, 2],
                                [2, 2], [3, 3], [1, 1]])

    def g_mkarr(self):
        shape = self.shape()
        n = 1
        for t in shape:
            n *= t
        args = [self.arg(.85) for _ in range(n)]
        args = [['c', a[1], 'f'] if a[0] == 'c' else a for a in args]
        if not any(a[0] == 's' and isinstance(self.w.mv(a), MNum)
                   for a in args):
            raise Reject
        op = {'o': 'mkarr', 'd': None, 'shape': shape, 'a': args}
        if len(shape) == 2 and self.rng.random() < .35:
            op['mat'] = True
        return op

    def g_uarr(self):
        shape = self.shape()
        n = 1
        for t in shape:
            n *= t
        op = {'o': 'uarr', 'd': None, 'shape': shape,
              'noms': [self.value() for _ in range(n)],
              'stds': [self.std() for _ in range(n)]}
        r = self.rng.random()
        if r < .3:
            # Equal elements
            i = self.rng.randrange(n)
            v = self.rng.choice([0., op['noms'][i]])
            t = op['stds'][i] if self.rng.random() < .5 else 0.
            for j in range(n):
                if self.rng.random() < .7:
                    op['noms'][j] = v
                if self.rng.random() < .7:
                    op['stds'][j] = t
            if r < .15:
                op['stds'] = [0.]*n
        if len(shape) == 2 and self.rng.random() < .35:
            op['mat'] = True
        return op

    def g_afn(self):
        a = self.array()
        m = self.w.mv(a)
        if self.rng.random() < .1:
            return {'o': 'afn', 'd': None, 'f': 'ldexp', 'a': [a],
                    'i': self.rng.randint(-2, 2)}
        if self.rng.random() < .75:
            f = self.rng.choice([f for f in model.FUNC1 if f not in (
                'erf', 'erfc', 'gamma', 'lgamma')])
            args = [a]
            tests = [[x] for x in m.items]
        else:
            f = self.rng.choice(['atan2', 'hypot', 'copysign', 'fmod'])
            b = self.array() if self.rng.random() < .5 else self.constant()
            if b[0] == 'c':
                b = ['c', b[1], 'f']
            args = [a, b]
            tests = self.w._broadcast(m, self.w.mv(b))
        for t in tests:
            if not model.tame(f, list(t)):
                raise Reject
            if self._nan(t[0]):
                raise Reject
        # Exceptions in the middle of arrays:
        for t in tests:
            try:
                model.apply(f, list(t))
            except Expected:
                raise Reject
        return {'o': 'afn', 'd': None, 'f': f, 'a': args}

    def g_abin(self):
        a = self.array()
        f = self.rng.choice(['add', 'sub', 'mul', 'truediv', 'opow', 'add',
                             'mul', 'mod'])
        r = self.rng.random()
        if r < .5:
            b = self.array()
        elif r < .8:
            b = self.num()
        else:
            b = self.constant()
            b = ['c', b[1], 'f']
        if self.rng.random() < .3 and b[0] == 's' and isinstance(
                self.w.mv(b), MArr):
            (a, b) = (b, a)
        elif self.rng.random() < .3 and b[0] == 'c':
            (a, b) = (b, a)
        for t in self.w._broadcast(self.w.mv(a), self.w.mv(b)):
            if not model.tame(f, list(t)):
                raise Reject
            try:
                model.apply(f, list(t))
            except Expected:
                raise Reject
        return {'o': 'abin', 'd': None, 'f': f, 'a': [a, b]}

    def g_setitem(self):
        return {'o': 'setitem', 'a': [self.array(), self.arg(.85)],
                'i': self.rng.randint(0, 8), 'trace': False}

    def g_iop(self):
        op = self.g_abin()
        a = self.w.mv(op['a'][0])
        b = self.w.mv(op['a'][1])
        if not isinstance(a, MArr) or (
                not a.mat and getattr(b, 'mat', False)):
            raise Reject
        if op['f'] not in ('add', 'sub', 'mul', 'truediv'):
            raise Reject
        return dict(op, o='iop', trace=False)

    def g_asum(self):
        return {'o': 'asum', 'd': None, 'a': [self.array()],
                'k': self.rng.choice(['sum', 'mean', 'npsum', 'pysum'])}

    def g_idx(self):
        return {'o': 'idx', 'd': None, 'a': [self.array()],
                'i': self.rng.randint(0, 8)}

    def g_transpose(self):
        a = self.array()
        if len(self.w.mv(a).shape) != 2:
            raise Reject
        return {'o': 'transpose', 'd': None, 'a': [a]}

    def g_matmul(self):
        return {'o': 'matmul', 'd': None, 'a': [self.array(), self.array()]}

    def _invertible(self):
        a = self.array()
        m = self.w.mv(a)
        if any(self._nan(x) for x in m.items):
            raise Reject
        for x in m.items:
            if isinstance(x, MNum):
                for v in x.co:
                    if not self.w.s[v] < 1e6:
                        raise Reject
        return a

    def g_inv(self):
        a = self._invertible()
        how = self.rng.choice(['I', 'f', 'list'])
        if how == 'list' and self.w.mv(a).mat:
            how = 'f'
        return {'o': 'inv', 'd': None, 'a': [a], 'how': how}

    def g_pinv(self):
        return {'o': 'pinv', 'd': None, 'a': [self._invertible()],
                'how': self.rng.choice(['I', 'f'])}

    def g_aread(self):
        a = self.array()
        op = {'o': 'aread', 'a': [a], 'w': self.rng.choice('ns'),
              'attr': self.rng.random() < .5}
        if self.rng.random() < .15:
            op.update(w='n', attr=False, plain=True)
        elif self.rng.random() < .2:
            op.update(w='s', attr='call')
        return op

    def g_wafn(self):
        op = {'o': 'wafn', 'd': None, 'a': [self._invertible()],
              'f': self.rng.choice(sorted(userfuncs.ARRAY_FUNCS)),
              'k': self.rng.choice([1., -2., round(
                  self.rng.uniform(.3, 2), 3)])}
        if self.rng.random() < .3:
            op['fresh'] = True
        return op

    def g_acopy(self):
        return {'o': self.rng.choice(['copy', 'deepcopy']), 'd': None,
                'a': [self.array()]}

    def g_apickle(self):
        refs = [self.array()]
        if self.nums and self.rng.random() < .5:
            refs.append(self.num())
        return {'o': 'pickle', 'd': len(refs), 'a': refs,
                'p': self.rng.choice([2, 3, 4, 5])}

    # Copies

    def g_copy(self):
        if self.rng.random() < .5:
            return {'o': 'copy', 'd': None, 'a': [['s', self.var_slot()]]}
        return {'o': 'copy', 'd': None, 'a': [self.num()]}

    def g_deepcopy(self):
        if self.rng.random() < .3:
            return {'o': 'deepcopy', 'd': None, 'a': [['s', self.var_slot()]]}
        return {'o': 'deepcopy', 'd': None, 'a': [self.num()]}

    def g_pickle(self):
        refs = [self.num() for _ in range(self.rng.randint(1, 4))]
        if self.rng.random() < .4:
            refs.append(['s', self.var_slot()])
        return {'o': 'pickle', 'd': len(refs), 'a': refs,
                'p': self.rng.choice([0, 1, 2, 3, 4, 5, 2, 4])}

    # Changes

    def g_set(self):
        how = self.rng.choice(['std_dev', 'std_dev', 'np', 'attr', 'old'])
        return {'o': 'set', 'a': [['s', self.var_slot()]], 's': self.std(),
                'how': how}

    def g_badset(self):
        return {'o': 'badset', 'a': [['s', self.var_slot()]],
                'v': self.bad(), 'how': self.rng.choice(['attr', 'old'])}

    def bad(self):
        return self.rng.choice(['neg', 'tiny', 'ninf', 'str', 'none', 'list',
                                'complex', 'obj', 'negint', 'dict', 'npneg',
                                'strnum'])

    def g_badnew(self):
        v = self.bad()
        if v == 'none':
            v = 'neg'
        op = {'o': 'badnew', 'n': self.value(), 'v': v}
        forms = ['ufloat', 'kw', 'tuple', 'tag', 'var', 'sub', 'uarray',
                 'umatrix', 'olduarray']
        if v in ('neg', 'negint', 'npneg', 'ninf'):
            forms += ['str', 'oldstr', 'uarray']
        if not self.opts.get('numpy', True):
            forms = [f for f in forms if 'arr' not in f and f != 'umatrix']
        if self.rng.random() < .7:
            op['form'] = self.rng.choice(forms)
        if op.get('form') in ('uarray', 'umatrix', 'olduarray'):
            op['i'] = self.rng.randint(0, 3)
            if op['form'] == 'umatrix' and self.rng.random() < .5:
                op['form'] = 'uarray'
        return op

    def g_gc(self):
        return {'o': 'gc'}

    def g_drop(self):
        if len(self.nums) < 6:
            raise Reject
        slot = self.rng.choice(self.nums)
        return {'o': 'drop', 'a': [['s', slot]]}

    # Reads

    READS = ['n', 'nf', 's', 's', 'ss', 'sf', 'd', 'd', 'e', 'e', 'repr',
             'str', 'fmt', 'cov', 'cov', 'cor', 'eq', 'eq', 'ne', 'lt', 'le',
             'gt', 'ge', 'bool', 'score', 'call', 'key']
    SPECS = ['', '.3f', '.2e', '10.1f', '.3uS', 'P', 'L', '.1u', '+.2f', 'S',
             '010.3e', '>20', 'r', '.4ueP', '.6f', 'eL', '%', '.2u%']

    def g_read(self):
        what = self.rng.choice(self.opts.get('reads', self.READS))
        op = {'o': 'read', 'w': what}
        if what == 'key':
            op['a'] = [['s', self.var_slot()]
                       for _ in range(self.rng.randint(1, 4))]
        elif what in ('cov', 'cor'):
            op['a'] = [self.num() for _ in range(self.rng.randint(2, 4))]
        elif what in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            a = self.num()
            r = self.rng.random()
            if r < .3:
                b = a
            elif r < .85:
                b = self.num()
            else:
                b = ['c', model.nom(self.w.mv(a)), 'f']
                if b[1] != b[1]:
                    raise Reject
            op['a'] = [a, b]
        else:
            op['a'] = [self.num()]
        if what == 'fmt':
            op['spec'] = self.rng.choice(self.SPECS)
            if op['spec'] == 'r':
                op['spec'] = ''
        if what == 'score':
            op['v'] = round(self.rng.uniform(-5, 5), 3)
            m = self.w.mv(op['a'][0])
            from .world import model_std
            b = model_std(m, self.w.s)
            if b is None or b != b or (b[0] < 1e-9 and b != (0., 0.)):
                raise Reject
        return op

    # Failing callbacks

    def g_arm(self):
        if self.arrays and self.weights.get('wafn') and (
                self.rng.random() < .3):
            return {'o': 'arm', 'n': self.rng.choice([0, 0, 1, 2, 3, 5]),
                    'cb': 'awf.'+self.rng.choice(
                        sorted(userfuncs.ARRAY_FUNCS)),
                    'exc': self.rng.choice(sorted(USER_EXC))}
        if not self.wraps:
            raise Reject
        slot = self.rng.choice(self.wraps[-6:])
        uf = self.w.m[slot]
        (f, derivs, more, kwderivs, names) = userfuncs.FUNCS[uf.name]
        cbs = [slot+'.f']*2+['%s.d%d' % (slot, i) for i in range(len(derivs))]
        cbs += ['%s.k%s' % (slot, k) for k in kwderivs]
        if uf.form in ('gen', 'iterator', 'iterable'):
            cbs += [slot+'.it']*3
        cb = self.rng.choice(cbs)
        kinds = sorted(USER_EXC)
        if cb.endswith('.it'):
            kinds = [k for k in kinds if k not in ('stop', 'gexit')]
        return {'o': 'arm', 'cb': cb, 'n': self.rng.choice([0, 0, 0, 1, 2, 3]),
                'exc': self.rng.choice(kinds)}


CALC = {'var': 2, 'corr': .3, 'fn': 10, 'sum': 3, 'modf': .4, 'ldexp': .4,
        'frexp': .4, 'mkwrap': .8, 'call': 2.}
ARR = {'mkarr': 1.5, 'uarr': .8, 'afn': 2.5, 'abin': 3, 'asum': 1, 'idx': 1,
       'transpose': .5, 'matmul': 1.2, 'inv': 1.2, 'pinv': .6,
       'wafn': .6}


def merged(*parts):
    result = {}
    for (d, f) in parts:
        for (k, v) in d.items():
            result[k] = result.get(k, 0)+v*f
    return result


# NumPy does not correctly handle errors everywhere:
NOT_ROBUST = ['gc', 'setitem', 'iop', 'drop', 'arm', 'disarm', 'corr']+sorted(ARR)+[
    'aread', 'acopy', 'apickle']

START = {'var': 5, 'corr': .3}


def sched_threads(rng, faults):
    s = {}
    s['switch_mean'] = rng.choice([3, 8, 20, 60, 200])
    if rng.random() < .35:
        s['pct'] = True
        s['switch_mean'] = rng.choice([30, 100, 300])
    if faults:
        s['fault_mean'] = rng.choice([100, 300, 1000])
        s['fault_kinds'] = rng.sample(RECOVERABLE, rng.randint(1, 3))
        s['max_faults'] = rng.randint(1, 4)
    if rng.random() < .1:
        s['gc_mean'] = rng.choice([50, 300])
    return s


def sched_single(rng, faults):
    s = {}
    if faults:
        s['fault_mean'] = rng.choice([30, 60, 150, 400])
        s['fault_kinds'] = rng.sample(RECOVERABLE, rng.randint(1, 4))
        s['max_faults'] = rng.choice([2, 5, 15])
    if rng.random() < .15:
        s['gc_mean'] = rng.choice([50, 300])
    return s


def single(rng, seed, weights, n, faults, opts=None, start=4):
    opts = dict(opts or {})
    opts['faulty'] = bool(faults)
    if faults in ('nomem', 'stack'):
        opts['resource'] = faults
    g = Gen(rng, weights, opts)
    ops = g.make(start, START if opts.get('numpy', True) else {'var': 1})
    for op in ops:
        op['chk'] = 1
    ops += g.make(n)
    sched = sched_single(rng, faults == 'async')
    return {'seed': seed, 'tasks': [ops], 'sched': sched,
            'traced': faults not in ('nomem', 'stack'),
            'resource': faults}


def threads(rng, seed, prelude_w, task_w, n_prelude, n_task, faults,
            opts=None):
    opts = dict(opts or {})
    opts.setdefault('deep', .05)
    opts['faulty'] = bool(faults)
    g = Gen(rng, prelude_w, dict(opts, deep=0., fdeep=0.))
    prelude = g.make(5, START)+g.make(n_prelude)
    tasks = []
    for i in range(rng.choice([2, 2, 3, 3, 4])):
        t = g.fork('t%d.' % i, random.Random(rng.random()))
        t.weights = task_w
        t.opts = opts
        tasks.append(t.make(rng.randint(*n_task)))
    # Reads made by several threads at the same time
    return {'seed': seed, 'prelude': prelude, 'tasks': tasks,
            'sched': sched_threads(rng, faults)}


def fault_choice(rng, p_none=0.):
    r = rng.random()
    if r < p_none:
        return None
    return rng.choices(['async', 'nomem', 'stack'], [7, 2, 1.2])[0]


def gen_C01(rng, seed):
    w = merged((CALC, 1), (ARR, rng.choice([0, 0, .3, 1])),
               ({'read': 10, 'copy': .7, 'deepcopy': .7, 'pickle': .7,
                 'aread': .5, 'acopy': .1, 'apickle': .1}, 1))
    return single(rng, seed, w, rng.randint(8, 30), fault_choice(rng))


def gen_C02(rng, seed):
    arrays = rng.random() < .2
    pre = merged((CALC, 1), (ARR, rng.choice([0, 0, .3])))
    task = merged((CALC, .4), ({'read': 12, 'copy': .3, 'deepcopy': .5,
                                'pickle': .5}, 1),
                  (ARR, rng.choice([0, 0, .2])))
    if arrays:
        pre.update(mkarr=3, uarr=1)
        task = merged((task, .3), (ARR, rng.choice([0, .5])),
                      ({'aread': 6, 'afn': 1, 'acopy': .3, 'apickle': .3},
                       1))
    return threads(rng, seed, pre, task, rng.randint(4, 25), (1, 6), False,
                   {'nonfinite': rng.random() < .2})


def gen_C03(rng, seed):
    pre = {'var': 1, 'mkwrap': 6, 'fn': 3}
    task = {'call': 12, 'fn': 2, 'read': 2, 'sum': .5, 'ldexp': .3,
            'frexp': .3, 'mkwrap': .5}
    faults = rng.random() < .3
    opts = {'fake': .6, 'faulty': faults, 'nonfinite': False}
    if faults and rng.random() < .5:
        return single(rng, seed, merged((task, 1), ({'mkwrap': 3}, 1)),
                      rng.randint(8, 20), 'async', opts)
    return threads(rng, seed, pre, task, rng.randint(4, 12), (2, 6), faults,
                   opts)


def gen_C04(rng, seed):
    opts = {'guard': .9, 'fake': .3, 'nonfinite': False}
    task = {'call': 12, 'arm': 6, 'fn': 1.5, 'read': 3, 'mkwrap': 2,
            'disarm': 0, 'sum': .5, 'set': .0}
    arrays = rng.random() < .3
    if arrays:
        task.update(mkarr=1, wafn=4, aread=.5)
    if rng.random() < .5:
        return single(rng, seed, task, rng.randint(10, 30), None, opts)
    pre = {'var': 1, 'mkwrap': 6, 'fn': 3, 'arm': 4}
    if arrays:
        pre.update(mkarr=2, wafn=1)
    return threads(rng, seed, pre, task, rng.randint(4, 14), (3, 8), False,
                   opts)


def gen_C05(rng, seed):
    w = merged((CALC, .7), ({'set': 8, 'read': 12, 'copy': .3,
                             'deepcopy': .2, 'pickle': .2, 'gc': .3}, 1),
               (ARR, rng.choice([0, 0, .2])))
    return single(rng, seed, w, rng.randint(20, 50),
                  'async' if rng.random() < .25 else None,
                  {'deep': .2})


def gen_C07(rng, seed):
    w = merged((CALC, 1), ({'read': 8, 'copy': .6, 'deepcopy': .6,
                            'pickle': .4, 'gc': .7, 'drop': 1.5, 'set': .5},
                           1),
               (ARR, rng.choice([0, 0, 0, .2])))
    return single(rng, seed, w, rng.randint(20, 80), None,
                  {'deep': rng.choice([0, .05, .3]), 'fake': .2})


def gen_C09(rng, seed):
    w = merged((CALC, .5), ({'copy': 5, 'deepcopy': 4, 'pickle': 3,
                             'read': 7, 'set': 5, 'gc': .3, 'drop': .5,
                             'acopy': .4, 'apickle': .3, 'mkarr': .4}, 1))
    return single(rng, seed, w, rng.randint(15, 45),
                  fault_choice(rng, .4), {'deep': .15, 'sub': .15})


def gen_C10(rng, seed):
    w = merged((CALC, .3), ({'set': 10, 'badset': 6, 'badnew': 4, 'var': 4,
                             'read': 5, 'copy': .3}, 1))
    plan = single(rng, seed, w, rng.randint(15, 40),
                  fault_choice(rng, .3), {'deep': .1})
    for op in plan['tasks'][0]:
        if op['o'] in ('set', 'badset', 'var', 'badnew') and (
                rng.random() < .3):
            op['warn'] = 'error'
    if rng.random() < .5:
        s = plan['sched']
        if s.get('fault_mean'):
            s['fault_mean'] = rng.choice([5, 12, 25])
            s['max_faults'] = 40
    return plan


def gen_C13(rng, seed):
    # Handlers that use the same numbers, in the middle of operations
    pre = merged((CALC, 1), (ARR, rng.choice([0, 0, .3])))
    task = merged((CALC, .5), ({'read': 9, 'copy': .4, 'deepcopy': .6,
                                'pickle': .5, 'mkwrap': .5, 'call': 1.5}, 1),
                  (ARR, rng.choice([0, 0, .2])))
    handler = merged((CALC, .3), ({'read': 12, 'copy': .3, 'deepcopy': .5,
                                   'pickle': .5, 'call': 2}, 1),
                     (ARR, rng.choice([0, 0, .2])))
    faults = rng.random() < .3
    opts = {'nonfinite': rng.random() < .2, 'deep': .05, 'faulty': True,
            'fake': .3}
    calls = rng.random() < .3
    if calls:
        # Same functions called by the operations and by the handlers
        pre = {'var': 1, 'mkwrap': 4}
        task = {'call': 12, 'fn': 1, 'read': 2, 'mkwrap': 1}
        handler = {'call': 12, 'read': 2}
    g = Gen(rng, pre, dict(opts, deep=0., fdeep=0.))
    prelude = g.make(5, START)+g.make(rng.randint(4, 25))
    tasks = []
    for i in range(rng.choice([1, 1, 1, 2])):
        t = g.fork('t%d.' % i, random.Random(rng.random()))
        t.weights = task
        t.opts = opts
        tasks.append(t.make(rng.randint(2, 8)))
    handlers = []
    for i in range(rng.randint(1, 8)):
        t = g.fork('h%d.' % i, random.Random(rng.random()))
        t.weights = handler
        t.opts = opts
        handlers.append(t.make(rng.randint(1, 3)))
    sched = (sched_threads if len(tasks) > 1 else sched_single)(rng, faults)
    sched['handler_mean'] = rng.choice([10, 30, 100, 200])
    if calls:
        sched['handler_mean'] = rng.choice([4, 10, 30, 100])
    return {'seed': seed, 'prelude': prelude, 'tasks': tasks,
            'handlers': handlers, 'sched': sched}


def gen_C14(rng, seed):
    w = merged((CALC, .35), (ARR, 1.4), ({'read': 2, 'aread': 4, 'set': 2,
                                          'acopy': .5, 'apickle': .4,
                                          'setitem': 1.5, 'iop': .7,
                                          'wafn': 1, 'arm': .5}, 1))
    opts = {'nonfinite': rng.random() < .3, 'deep': .15}
    r = rng.random()
    if r < .35:
        return single(rng, seed, w, rng.randint(10, 30), None, opts)
    if r < .7:
        return single(rng, seed, w, rng.randint(8, 20), fault_choice(rng),
                      opts)
    task = dict(w)
    for kind in ('set', 'setitem', 'iop', 'arm'):
        task.pop(kind)
    pre = merged((CALC, .5), (ARR, 1))
    return threads(rng, seed, pre, task, rng.randint(4, 12), (1, 4), False,
                   opts)


def gen_C15(rng, seed):
    w = merged((CALC, .8), ({'read': 6, 'copy': .6, 'deepcopy': .6,
                             'pickle': .5, 'gc': .2, 'drop': 1, 'set': .5,
                             'call': 1, 'mkwrap': .5, 'arm': .3}, 1),
               (ARR, rng.choice([0, 0, .3, 1])))
    opts = {'nonfinite': rng.random() < .2, 'deep': rng.choice([0, .1]),
            'fake': .2, 'guard': .5}
    if rng.random() < .75:
        faults = rng.choice([None, 'async', 'async', 'stack'])
        return single(rng, seed, w, rng.randint(8, 40), faults, opts)
    task = dict(w)
    for kind in ('set', 'setitem', 'iop', 'drop', 'gc', 'arm'):
        task.pop(kind, None)
    return threads(rng, seed, w, task, rng.randint(4, 15), (2, 6),
                   rng.random() < .5, opts)


def gen_C17(rng, seed):
    w = merged((CALC, .8), ({'read': 7, 'copy': .6, 'deepcopy': .6,
                             'pickle': .6, 'gc': .2, 'drop': .5, 'set': 1,
                             'call': 1.5, 'mkwrap': .7, 'arm': .3,
                             'badset': .3, 'badnew': .4}, 1),
               (ARR, rng.choice([0, 0, .4, .8])))
    opts = {'nonfinite': rng.random() < .2, 'deep': rng.choice([0, .1]),
            'fake': .2, 'guard': .5}
    if rng.random() < .55:
        faults = rng.choice([None, 'async', 'async', 'async', 'stack'])
        plan = single(rng, seed, w, rng.randint(8, 35), faults, opts)
        for op in plan['tasks'][0]:
            if op['o'] in ('set', 'badset', 'var', 'badnew') and (
                    rng.random() < .15):
                op['warn'] = 'error'
    else:
        task = dict(w)
        for kind in ('set', 'setitem', 'iop', 'drop', 'gc', 'arm', 'badset',
                     'badnew'):
            task.pop(kind, None)
        plan = threads(rng, seed, w, task, rng.randint(4, 15), (2, 6),
                       rng.random() < .6, opts)
    plan['settings'] = True
    return plan


def gen_program(rng, seed):
    "A calculation without faults: (plan, weights, options)"
    w = merged((CALC, .8), ({'read': 6, 'copy': .5, 'deepcopy': .5,
                             'pickle': .5, 'gc': .2, 'drop': .5, 'set': 1,
                             'call': 1, 'mkwrap': .5}, 1),
               (ARR, rng.choice([0, .3, .6])))
    opts = {'nonfinite': rng.random() < .15, 'deep': rng.choice([0, .1]),
            'fake': .2, 'zeros': rng.choice([0, .1, .3])}
    return (single(rng, seed, w, rng.randint(8, 35), None, opts), w, opts)


def gen_other(rng, seed, weights, opts):
    "Another calculation, with failures"
    w = dict(weights)
    w.update({'badset': .5, 'badnew': .5, 'arm': rng.choice([0, 0, 1])})
    if not w['arm']:
        del w['arm']
    else:
        opts = dict(opts, guard=.6)
    g = Gen(rng, w, opts)
    g.prefix = 'n'
    prelude = g.make(4, START)
    return {'prelude': prelude, 'tasks': [g.make(rng.randint(4, 30))]}


GENERATORS = {'C01': gen_C01, 'C02': gen_C02, 'C03': gen_C03, 'C04': gen_C04,
              'C05': gen_C05, 'C07': gen_C07, 'C09': gen_C09, 'C10': gen_C10,
              'C13': gen_C13, 'C14': gen_C14, 'C17': gen_C17}


def make_plan(prop, seed):
    rng = random.Random('plan %s %s' % (prop, seed))
    plan = GENERATORS[prop](rng, seed)
    plan['prop'] = prop
    plan['kind'] = 'history'
    plan['addresses'] = random.Random(
        'addresses %s %s' % (prop, seed)).random() < .4 and (
            plan.get('resource') != 'nomem')
    return plan
