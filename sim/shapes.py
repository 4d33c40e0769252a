"""
Long calculations of many shapes: the work and the stack depth needed for
reading, copying and storing their results are bounded.
"""

import copy
import hashlib
import math
import pickle
import random
import sys
import traceback

from . import kernel as kernel_module
from . import world as world_module
from .kernel import Kernel, SimStop
from .execute import library_error
from .world import Problem


class Dag(object):
    """
    Calculation: nodes are ('v', nominal, std) or
    (operation, operand indices..., parameters).
    """

    def __init__(self, nodes):
        self.nodes = nodes

    def build(self, names=None):
        "Real objects"
        unc = world_module.unc
        umath = world_module.umath
        res = []
        for node in self.nodes:
            op = node[0]
            if op == 'v':
                x = unc.ufloat(node[1], node[2])
            elif op == 'add':
                x = res[node[1]]+res[node[2]]
            elif op == 'sub':
                x = res[node[1]]-res[node[2]]
            elif op == 'mul':
                x = res[node[1]]*res[node[2]]
            elif op == 'mulc':
                x = res[node[1]]*node[2]
            elif op == 'addc':
                x = node[2]+res[node[1]]
            elif op == 'neg':
                x = -res[node[1]]
            elif op == 'div':
                x = res[node[1]]/res[node[2]]
            elif op == 'sin':
                x = umath.sin(res[node[1]])
            elif op == 'hypot':
                x = umath.hypot(res[node[1]], res[node[2]])
            elif op == 'sum':
                x = sum([res[i] for i in node[1]])
            elif op == 'fsum':
                x = umath.fsum([res[i] for i in node[1]])
            elif op == 'copy':
                x = copy.copy(res[node[1]])
            else:
                raise ValueError(op)
            res.append(x)
        return res

    def model(self):
        "Nominal values, and function for derivatives (reverse mode)"
        noms = []
        edges = []
        for node in self.nodes:
            op = node[0]
            if op == 'v':
                noms.append(node[1])
                edges.append([])
                continue
            if op in ('sum', 'fsum'):
                lst = [noms[i] for i in node[1]]
                noms.append(math.fsum(lst) if op == 'fsum' else sum(lst))
                edges.append([(1., i) for i in node[1]])
                continue
            a = noms[node[1]]
            b = (noms[node[2]] if op in ('add', 'sub', 'mul', 'div', 'hypot')
                 else None)
            if op == 'add':
                r = (a+b, [(1., node[1]), (1., node[2])])
            elif op == 'sub':
                r = (a-b, [(1., node[1]), (-1., node[2])])
            elif op == 'mul':
                r = (a*b, [(b, node[1]), (a, node[2])])
            elif op == 'div':
                r = (a/b, [(1./b, node[1]), (-a/(b*b), node[2])])
            elif op == 'mulc':
                r = (a*node[2], [(node[2], node[1])])
            elif op == 'addc':
                r = (node[2]+a, [(1., node[1])])
            elif op == 'neg':
                r = (-a, [(-1., node[1])])
            elif op == 'sin':
                r = (math.sin(a), [(math.cos(a), node[1])])
            elif op == 'hypot':
                h = math.hypot(a, b)
                r = (h, [(a/h, node[1]), (b/h, node[2])])
            elif op == 'copy':
                r = (a, [(1., node[1])])
            noms.append(r[0])
            edges.append(r[1])

        def derivatives(root):
            adj = {root: (1., 1.)}
            for i in range(root, -1, -1):
                if i not in adj or not edges[i]:
                    continue
                (c, mag) = adj.pop(i)
                for (d, j) in edges[i]:
                    (c0, m0) = adj.get(j, (0., 0.))
                    adj[j] = (c0+c*d, m0+mag*abs(d))
            return adj
        return (noms, derivatives)

    def size(self):
        return sum(len(n[1]) if n[0] in ('sum', 'fsum') else 1
                   for n in self.nodes)

    def n_vars(self):
        return sum(1 for n in self.nodes if n[0] == 'v')


SHAPES = ['sum', 'chain', 'rchain', 'double', 'fib', 'ladder', 'dag', 'wide',
          'tree', 'sinchain', 'biggsum', 'square', 'neg', 'grid', 'longsum',
          'mixed', 'loop', 'copies']


def make_dag(shape, n, v, seed):
    """
    Calculation of a given shape, with about n operations on v variables.
    """
    rng = random.Random('dag %s' % seed)
    nodes = [['v', round(rng.uniform(.5, 1.5), 3), round(
        rng.uniform(.01, .2), 4)] for _ in range(v)]

    def add(*node):
        nodes.append(list(node))
        return len(nodes)-1

    def var():
        return rng.randrange(v)
    x = 0
    if shape == 'sum':          # t += variable
        for i in range(n):
            x = add('add', x, i % v)
    elif shape == 'rchain':     # variable + t
        for i in range(n):
            x = add('sub' if i % 2 else 'add', i % v, x)
    elif shape == 'chain':
        for i in range(n):
            x = add(*rng.choice([('addc', x, .5), ('mulc', x, .9),
                                 ('neg', x)]))
    elif shape == 'neg':
        for i in range(n):
            x = add('neg', x)
    elif shape == 'double':     # t = t + t
        for i in range(n):
            y = add('add', x, x)
            x = add('mulc', y, .5)
    elif shape == 'square':     # t = t * t
        for i in range(n):
            y = add('mul', x, x)
            x = add('addc', add('mulc', y, .3), .6)
    elif shape == 'fib':
        (x, y) = (0, 1 % v)
        for i in range(n):
            z = add('mulc', add('add', x, y), .5)
            (x, y) = (y, z)
        x = y
    elif shape == 'ladder':     # two results at each step, used by both
        (x, y) = (0, 1 % v)
        for i in range(n):
            (x, y) = (add('mulc', add('add', x, y), .5),
                      add('mulc', add('sub', x, y), .5))
    elif shape == 'dag':        # random earlier results
        for i in range(n):
            k = len(nodes)
            a = rng.randrange(max(0, k-6), k)
            b = rng.randrange(max(0, k-6), k)
            x = add('mulc', add(rng.choice(['add', 'sub', 'add']), a, b), .5)
    elif shape == 'wide':       # sums of all the earlier results
        layer = list(range(v))
        width = max(2, min(6, v+1))
        for i in range(max(2, n//width)):
            new = []
            for _ in range(width):
                s = add('sum', list(layer))
                new.append(add('mulc', s, .9/len(layer)))
            layer = new
        x = add('sum', layer)
    elif shape == 'tree':
        layer = [add('mulc', i % v, 1.+i*1e-3) for i in range(n)]
        while len(layer) > 1:
            new = [add('add', layer[i], layer[i+1])
                   for i in range(0, len(layer)-1, 2)]
            if len(layer) % 2:
                new.append(layer[-1])
            layer = new
        x = layer[0]
    elif shape == 'sinchain':
        for i in range(n):
            x = add('sin', add('add', x, i % v))
    elif shape == 'biggsum':
        x = add('sum', [i % v for i in range(n)])
    elif shape == 'longsum':
        x = add('fsum', [i % v for i in range(n)])
    elif shape == 'grid':
        w = 5
        row = [i % v for i in range(w)]
        for i in range(max(1, n//w)):
            row = [add('mulc', add('add', row[j], row[(j+1) % w]), .5)
                   for j in range(w)]
        x = row[0]
    elif shape == 'mixed':
        for i in range(n):
            r = rng.random()
            if r < .3:
                x = add('mulc', add('add', x, x), .5)
            elif r < .6:
                x = add('add', add('mulc', x, .5), var())
            elif r < .7:
                x = add('hypot', x, var())
            elif r < .8:
                x = add('sin', x)
            elif r < .9:
                x = add('mulc', add('mul', x, x), .3)
            else:
                x = add('div', x, var())
    elif shape == 'loop':       # x_{n+1} = f(x_n, x_n, a)
        for i in range(n):
            y = add('mul', x, add('addc', add('neg', x), 1.))
            x = add('mulc', y, .4)
            x = add('sin', add('addc', x, .1))
    elif shape == 'copies':
        for i in range(n):
            y = add('copy', x) if nodes[x][0] != 'v' else x
            x = add('mulc', add('add', x, y), .5)
    else:
        raise ValueError(shape)
    return (Dag(nodes), x)


READS = ['s', 'd', 'e', 'repr', 'str', 'fmt', 'eq', 'eqother', 'cov',
         'copy', 'deepcopy', 'pickle', 'score', 'nested', 'stds',
         'deeplist', 'cor', 'fsum', 'le', 'bool', 'modf', 'ldexp', 'frexp',
         'wrapped', 'array', 'inv', 'covall', 'pickleall', 'stdall']
ALL_RESULTS = ('covall', 'pickleall', 'stdall')     # Only for small ones


class ShapeRun(object):

    def __init__(self, plan):
        self.plan = plan
        self.kernel = Kernel(plan, random.Random('sched %s' % plan['seed']))
        self.problem = None
        self.n_checks = 0
        self.n_ops = 0
        self.kinds = {}
        self.outcomes = {}
        self.max_steps = 0
        self.max_ratio = 0.

    # -- operations on results ---------------------------------------------

    def make_op(self, what, x, y, every=()):
        """
        Function to be called, on x (result) and y (other result); some of
        them concern every (intermediate) result.
        """
        unc = world_module.unc
        if what == 's':
            return lambda: x.std_dev
        if what == 'd':
            return lambda: x.derivatives
        if what == 'e':
            return lambda: x.error_components()
        if what == 'repr':
            return lambda: repr(x)
        if what == 'str':
            return lambda: str(x)
        if what == 'fmt':
            return lambda: '{:.3uS}'.format(x)
        if what == 'eq':
            return lambda: x == x
        if what == 'eqother':
            return lambda: x == y
        if what == 'le':
            return lambda: x <= y
        if what == 'bool':
            return lambda: bool(x)
        if what == 'cov':
            return lambda: unc.covariance_matrix([x, y])
        if what == 'cor':
            return lambda: unc.correlation_matrix([x, y])
        if what == 'copy':
            return lambda: copy.copy(x)
        if what == 'deepcopy':
            return lambda: copy.deepcopy(x)
        if what == 'deeplist':
            return lambda: copy.deepcopy([x, y])
        if what == 'pickle':
            return lambda: pickle.loads(pickle.dumps(
                [x, y], self.plan.get('protocol', 2)))
        if what == 'score':
            return lambda: x.std_score(1.)
        if what == 'nested':
            return lambda: (x+y)-(x-y)*2
        if what == 'fsum':
            return lambda: world_module.umath.fsum([x, y, x])
        umath = world_module.umath
        if what == 'modf':
            return lambda: umath.modf(x)
        if what == 'ldexp':
            return lambda: umath.ldexp(x, 3)
        if what == 'frexp':
            return lambda: umath.frexp(x)
        if what == 'wrapped':
            f = unc.wrap(lambda a, b: 3*a-b, [lambda a, b: 3., None])
            return lambda: f(x, b=y)
        if what == 'array':
            a = world_module.numpy.array([x, y])
            return lambda: (a*2+a).dot(a)
        if what == 'inv':
            m = [[x, 0.], [1., 1.]]
            return lambda: world_module.unumpy.ulinalg.inv(m)
        if what == 'covall':
            return lambda: unc.covariance_matrix(every)
        if what == 'pickleall':
            return lambda: pickle.loads(pickle.dumps(
                every, self.plan.get('protocol', 2)))
        if what == 'stdall':
            return lambda: world_module.unumpy.std_devs(every)
        if what == 'stds':
            return lambda: world_module.unumpy.std_devs([x, y])
        raise ValueError(what)

    def fail(self, what, msg):
        if self.problem is None:
            p = self.plan
            self.problem = '%s of a calculation of shape %s: %s' % (
                what, p['shape']['kind'], msg)

    # -- calibration -------------------------------------------------------

    def headroom(self, what):
        "Stack depth needed by the operation on small calculations"
        worst = 0
        p = self.plan['shape']
        for (kind, n) in ((p['kind'], 4), (p['kind'], 9), ('dag', 5),
                          ('longsum', 4)):
            (dag, root) = make_dag(kind, n, min(p['v'], 4), p['seed'])
            for other in (0, max(0, len(dag.nodes)-2)):
                h = max(3, worst)
                while h < 400:
                    # (a read can succeed because a previous one has done a
                    # part of the work: new numbers)
                    res = dag.build()
                    f = self.make_op(what, res[root], res[other],
                                     [res[root], res[other]])
                    try:
                        self.limited(f, h)
                        break
                    except RecursionError:
                        h += 1 if h < 40 else 10
                    except ValueError:
                        break
                worst = max(worst, h)
        return worst

    @staticmethod
    def limited(f, h):
        from .execute import depth
        old = sys.getrecursionlimit()
        try:
            sys.setrecursionlimit(depth()+h+2)
        except RecursionError:
            raise
        try:
            return f()
        finally:
            sys.setrecursionlimit(old)

    # -- run ---------------------------------------------------------------

    def budget(self, dag):
        """
        Generous polynomial: the operations are allowed a time proportional
        to (number of operations)*(number of variables+1), with a large
        factor, plus a quadratic part.
        """
        n = dag.size()
        v = dag.n_vars()
        return 20000+300*(n+10)*(v+3)+8*n*n

    def run(self):
        p = self.plan['shape']
        k = self.kernel
        (dag, root) = make_dag(p['kind'], p['n'], p['v'], p['seed'])
        budget = self.budget(dag)
        (noms, derivatives) = dag.model()
        rng = random.Random('ops %s' % self.plan['seed'])
        k.install()
        # The calculation itself:
        k.op_budget = 20000+2500*(dag.size()+10)
        task0 = kernel_module.Task(0)
        task0.prio = 0
        k.tasks = [task0]
        k.cur = task0
        try:
            k.op_begin('build', faultable=False)
            try:
                res = dag.build()
            finally:
                k.op_end()
        except SimStop:
            self.fail('calculation', 'more than %d steps' % k.op_budget)
        except BaseException:
            self.fail('calculation', traceback.format_exc()[-800:])
        if self.problem:
            return self.result()
        k.op_budget = budget
        room = {}
        for ops in self.plan['tasks']:
            for op in ops:
                if op['w'] not in room:
                    k.in_op = False
                    try:
                        room[op['w']] = self.headroom(op['w'])
                    except Exception as exc:
                        error = library_error(exc)
                        if error is None:
                            raise
                        self.fail(op['w'], 'fails, in %s' % error)
                        return self.result()
        self.state = (dag, root, res, noms, derivatives, room)
        tasks = self.plan['tasks']
        if len(tasks) == 1:
            k.run_inline(self.body(tasks[0]))
        else:
            k.run_tasks([self.body(ops) for ops in tasks])
        for t in k.tasks:
            if t.crash:
                raise RuntimeError('harness: '+t.crash)
        if self.problem is None and self.plan.get('release', True):
            # Freeing the calculation needs no deep recursion either
            self.state = None
            del res[:]
        return self.result()

    def body(self, ops):
        def run(task):
            for op in ops:
                if self.problem:
                    break
                try:
                    self.exec_op(op, task)
                except Problem as exc:
                    self.fail(op['w'], str(exc))
                except Exception as exc:
                    error = library_error(exc)
                    if error is None:
                        raise
                    self.fail(op['w'], 'a read fails, in %s' % error)
        return run

    def exec_op(self, op, task):
        (dag, root, res, noms, derivatives, room) = self.state
        n = len(res)
        i = root if op['i'] is None else min(n-1, int(op['i']*n))
        j = min(n-1, int(op['j']*n))
        what = op['w']
        x = res[i]
        y = res[j]
        k = self.kernel
        if any(not mag < 1e100 for t in (i, j)
               for (c, mag) in derivatives(t).values()):
            return      # Limits of floats: not the subject
        every = res[-25:]+res[:5]
        if what in ('inv', 'frexp') and (
                not 1e-6 < abs(x.nominal_value) < 1e6):
            return
        self.n_ops += 1
        self.kinds[what] = self.kinds.get(what, 0)+1
        for attempt in range(4):
            f = self.make_op(what, x, y, every)
            task.injected = []
            task.op_budget = k.op_budget*(40 if what in ALL_RESULTS else 1)
            out = failure = None
            steps = 0
            try:
                k.op_begin('%s#%d' % (op['u'], attempt),
                           faultable=attempt < 3)
                try:
                    out = self.limited(f, room[what]+20)
                finally:
                    steps = k.step-task.k0
                    k.op_end()
            except BaseException as exc:
                failure = exc
            if self.problem:
                return
            if k.problem == 'budget':
                raise Problem('more than %d steps, for %d operations on %d'
                              ' variables' % (task.op_budget, dag.size(),
                                              dag.n_vars()))
            if k.problem:
                raise Problem(k.problem)
            self.max_steps = max(self.max_steps, steps)
            self.max_ratio = max(self.max_ratio, steps/task.op_budget)
            if failure is None:
                break
            if any(failure is e for e in task.injected):
                self.outcomes['injected'] = self.outcomes.get('injected', 0)+1
                continue
            if isinstance(failure, RecursionError):
                raise Problem('more stack depth needed than for a small'
                              ' calculation (%d), for %d operations'
                              % (room[what], dag.size()))
            if isinstance(failure, ValueError) and what == 'score':
                return
            raise Problem('unexpected exception %s' % ''.join(
                traceback.format_exception(type(failure), failure,
                                           failure.__traceback__))[-900:])
        else:
            return
        self.outcomes['ok'] = self.outcomes.get('ok', 0)+1
        self.check(what, out, i, j, x, y)

    def check(self, what, out, i, j, x, y):
        (dag, root, res, noms, derivatives, room) = self.state
        self.n_checks += 1
        if what == 's':
            self.check_std(out, i)
        elif what == 'd':
            self.check_coefs(dict((id(v), c) for (v, c) in out.items()), i,
                             'derivative')
        elif what == 'e':
            adj = derivatives(i)
            self.check_std(math.sqrt(sum(c*c for c in out.values())), i)
            if len(out) > len(adj):
                raise Problem('too many error components')
        elif what == 'repr':
            text = out.split('+/-')
            if len(text) != 2 or float(text[0]) != x.nominal_value:
                raise Problem('representation %r' % out)
            self.check_std(float(text[1]), i)
        elif what == 'eq':
            if out is not True:
                raise Problem('x == x is %r' % out)
        elif what in ('copy', 'deepcopy'):
            self.check_same(out, x, i, what == 'copy')
        elif what in ('pickle', 'deeplist'):
            self.check_same(out[0], x, i, False)
            self.check_same(out[1], y, j, False)
        elif what in ('cov', 'cor'):
            a = derivatives(i)
            b = derivatives(j)
            cov = 0.
            mag = 0.
            for v in a:
                if v in b:
                    s2 = dag.nodes[v][2]**2
                    cov += a[v][0]*b[v][0]*s2
                    mag += a[v][1]*b[v][1]*s2
            if what == 'cov' and mag < 1e300 and (
                    not abs(out[0][1]-cov) <= 1e-9*mag+1e-300):
                raise Problem('covariance %r instead of %r'
                              % (out[0][1], cov))
        elif what in ('modf', 'ldexp', 'frexp'):
            (new, factor) = {
                'modf': lambda: (out[0], 1.), 'ldexp': lambda: (out, 8.),
                'frexp': lambda: (out[0], math.ldexp(1., -out[1]))}[what]()
            if derivatives(i):
                self.check_std(new.std_dev/factor, i)
        elif what == 'inv':
            if not abs(out[0, 0].nominal_value*x.nominal_value-1) < 1e-6:
                raise Problem('inverse %r' % out[0, 0])
            self.check_std(out[0, 0].std_dev*x.nominal_value**2, i)
        elif what in ALL_RESULTS:
            n = len(res)
            indices = list(range(max(0, n-25), n))+list(range(min(n, 5)))
            for (pos, index) in enumerate(indices):
                if any(not mag < 1e100
                       for (c, mag) in derivatives(index).values()):
                    continue
                if what == 'covall':
                    if out[pos][pos] < 1e300:
                        self.check_std(math.sqrt(out[pos][pos]), index)
                elif what == 'stdall':
                    self.check_std(out[pos], index)
                else:
                    self.check_same(out[pos], res[index], index, False)
        elif what == 'wrapped':
            if not abs(out.nominal_value-(3*x.nominal_value-y.nominal_value)
                       ) <= 1e-9*(1+abs(x.nominal_value)
                                  + abs(y.nominal_value)):
                raise Problem('nominal value %r' % out.nominal_value)
            out.std_dev
        elif what == 'nested':
            if not abs(out.nominal_value-(3*y.nominal_value-x.nominal_value)
                       ) <= 1e-9*(1+abs(x.nominal_value)
                                  + abs(y.nominal_value)):
                raise Problem('nominal value %r' % out.nominal_value)

    def check_same(self, new, x, i, correlated):
        if not world_module.model.same_float(new.nominal_value,
                                             x.nominal_value):
            raise Problem('nominal value %r instead of %r'
                          % (new.nominal_value, x.nominal_value))
        self.check_std(new.std_dev, i)
        same = any(v in x.derivatives for v in new.derivatives)
        is_var = self.state[0].nodes[i][0] == 'v'
        if same != (correlated and not is_var) and new.derivatives:
            raise Problem('correlations of the copy')

    def check_std(self, s, i):
        (dag, root, res, noms, derivatives, room) = self.state
        adj = derivatives(i)
        tot = err = 0.
        for (v, (c, mag)) in adj.items():
            sv = dag.nodes[v][2]
            tot += (c*sv)**2
            err += (mag*sv*1e-9)**2
        if not tot+err < 1e300:
            return
        if not abs(s-math.sqrt(tot)) <= math.sqrt(err)+1e-150:
            raise Problem('standard deviation %r instead of %r'
                          % (s, math.sqrt(tot)))

    def check_coefs(self, coefs, i, what):
        (dag, root, res, noms, derivatives, room) = self.state
        adj = derivatives(i)
        ids = dict((id(res[v]), v) for v in adj)
        for (key, c) in coefs.items():
            if key not in ids:
                raise Problem('unexpected variable')
            (mc, mag) = adj[ids[key]]
            if not abs(c-mc) <= 1e-9*mag+1e-300 and mag < 1e300:
                raise Problem('%s %r instead of %r' % (what, c, mc))
        for (v, (mc, mag)) in adj.items():
            if id(res[v]) not in coefs and abs(mc) > 1e-9*mag+1e-300:
                raise Problem('missing %s' % what)

    def result(self):
        k = self.kernel
        sig = hashlib.sha1(repr(
            (k.switch_sites, [ev[3:] for ev in k.trace if ev[3] != 'switch']
             )).encode()).hexdigest()[:16]
        return {
            'problem': self.problem, 'trace': k.trace,
            'stats': {
                'steps': k.step, 'ops': self.n_ops, 'switches': k.n_switch,
                'blocked': k.n_forced, 'fired': k.fired,
                'checks': self.n_checks, 'outcomes': self.outcomes,
                'kinds': self.kinds, 'op_steps': self.max_steps,
                'max_ratio_to_budget': self.max_ratio,
                'max_operations': self.plan['shape']['n'],
                'shapes': {self.plan['shape']['kind']: 1}, 'sig': sig,
                'nontrivial': self.plan['shape']['n'] >= 20}}


def run_shape(plan):
    return ShapeRun(plan).run()


def make_plan(prop, seed):
    rng = random.Random('plan %s %s' % (prop, seed))
    kind = rng.choice(SHAPES)
    v = rng.choice([1, 1, 2, 3, 5, 10])
    if rng.random() < .85:
        n = rng.choice([20, 40, 60, 100, 200])
    else:
        n = rng.choice([500, 1000, 2000, 4000, 8000])
        v = min(v, 5)
        if kind in ('wide', 'mixed', 'loop', 'copies', 'square', 'grid'):
            n = min(n, 2000)
    if kind in ('sum', 'biggsum', 'tree', 'longsum') and rng.random() < .3:
        v = min(n, 60)
    n_tasks = rng.choice([1, 1, 1, 2, 3])
    count = 0
    tasks = []
    final = rng.random()
    for t in range(n_tasks):
        ops = []
        for _ in range(rng.randint(1, 4)):
            count += 1
            op = {'u': 'r%d' % count, 'w': rng.choice(READS),
                  'i': None, 'j': round(rng.random(), 3)}
            if rng.random() < .3:
                op['i'] = round(rng.random(), 3)
            if rng.random() < .15:
                op['j'] = .999
            ops.append(op)
        if final < .6:
            # The most difficult operation first
            ops[0]['i'] = None
        tasks.append(ops)
    sched = {}
    if n_tasks > 1:
        sched = {'switch_mean': rng.choice([50, 300, 2000])}
    if rng.random() < .3:
        sched.update({'fault_mean': rng.choice([300, 2000, 10000]),
                      'fault_kinds': ['KI', 'ME', 'TO'],
                      'max_faults': 3})
    return {'seed': seed, 'kind': 'shape', 'prop': prop, 'tasks': tasks,
            'protocol': rng.choice([0, 1, 2, 3, 4, 5, 2, 4]),
            'shape': {'kind': kind, 'n': n, 'v': v, 'seed': '%s' % seed},
            'sched': sched}
