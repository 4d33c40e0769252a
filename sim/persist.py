"""
Numbers stored by a process and restored by another one (each phase of the
plan is executed in its own, new process; only the contents of the simulated
disk survive).
"""

import base64
import errno
import io
import json
import pickle
import random

from . import execute, gen, model, runner, userfuncs
from . import world as world_module
from .model import MNum, Reject
from .world import MArr, Problem, World


class SimFile(object):
    "File of the simulated disk: writes can fail, after a partial write"

    def __init__(self, fail_at=None):
        self.data = bytearray()
        self.fail_at = fail_at     # Capacity of the disk
        self.n_writes = 0

    def write(self, b):
        b = bytes(b)
        self.n_writes += 1
        if self.fail_at is not None and len(self.data)+len(b) > self.fail_at:
            self.data += b[:self.fail_at-len(self.data)]
            exc = OSError(errno.ENOSPC, 'No space left on (simulated) device')
            userfuncs.Plan.raised.append((userfuncs.Plan.who(), exc))
            raise exc
        self.data += b
        return len(b)


class ShortReads(object):
    "File that returns less data than asked, and can fail"

    def __init__(self, data, rng, fail_after=None):
        self.f = io.BytesIO(data)
        self.rng = rng
        self.fail_after = fail_after

    def _check(self):
        if self.fail_after is not None:
            self.fail_after -= 1
            if self.fail_after < 0:
                self.fail_after = None
                exc = OSError(errno.EIO, 'Simulated read error')
                userfuncs.Plan.raised.append((userfuncs.Plan.who(), exc))
                raise exc

    def read(self, n=-1):
        self._check()
        return self.f.read(n)

    def readline(self):
        self._check()
        return self.f.readline()


def pack(values):
    "Model values, for JSON (identities are kept)"
    memo = {}
    objs = []

    def one(x):
        if isinstance(x, MArr):
            return {'shape': list(x.shape), 'mat': x.mat,
                    'items': [one(y) for y in x.items]}
        if isinstance(x, MNum):
            if id(x) not in memo:
                memo[id(x)] = len(objs)
                objs.append([x.n, x.isvar, sorted(
                    [v, list(c)] for (v, c) in x.co.items()), x])
            return {'num': memo[id(x)]}
        return {'plain': x}
    out = [one(x) for x in values]
    return {'values': out, 'objs': [o[:3] for o in objs]}


def unpack(data):
    objs = [MNum(n, dict((v, tuple(c)) for (v, c) in co), isvar)
            for (n, isvar, co) in data['objs']]

    def one(x):
        if 'num' in x:
            return objs[x['num']]
        if 'shape' in x:
            return MArr(x['shape'], [one(y) for y in x['items']], x['mat'])
        return x['plain']
    return [one(x) for x in data['values']]


def contain(how, xs):
    "Puts numbers in a container"
    if how == 'tuple':
        return tuple(xs)
    if how == 'dict':
        return dict((str(i), x) for (i, x) in enumerate(xs))
    if how == 'nested':
        return [xs[:1], {'rest': (xs[1:], xs)}]
    if how == 'single':
        return xs[0] if len(xs) == 1 else list(xs)
    if how == 'derivs':
        # Along with other results of the library
        return [list(xs), [x.derivatives for x in xs
                           if hasattr(x, 'derivatives')]]
    return list(xs)


def extract(how, obj, n):
    if how == 'dict':
        return [obj[str(i)] for i in range(n)]
    if how == 'nested':
        (rest, xs) = obj[1]['rest']
        for (a, b) in zip(obj[0]+rest, xs):
            if a is not b:
                raise Problem('shared objects are not shared any more')
        return list(xs)
    if how == 'single':
        return [obj] if n == 1 else list(obj)
    if how == 'derivs':
        for (x, d) in zip([x for x in obj[0] if hasattr(x, 'derivatives')],
                          obj[1]):
            if dict(d) != dict(x.derivatives):
                raise Problem('stored derivatives are different: %r, %r'
                              % (d, x.derivatives))
        return list(obj[0])
    return list(obj)


class PersistWorld(World):

    incoming = None
    out = None
    partials = ()

    def receive(self, incoming):
        "Contents of the disk and corresponding model"
        self.incoming = incoming
        m = incoming['model']
        self.incoming_m = unpack(m)
        for (vid, (n, s, tag)) in incoming['vars'].items():
            self.register(vid, n, s, tag)
        self.attrs.update(incoming['attrs'])

    def snapshot(self, op):
        values = [self.mv(a) for a in op['a']]
        data = pack(values)
        vids = set(v for o in data['objs'] for (v, _) in o[2])
        return {'model': data, 'attrs': dict((v, self.attrs[v]) for v in vids
                                             if v in self.attrs),
                'vars': dict((v, [self.var_n.get(v, 0.), self.s[v],
                                  self.tag.get(v)]) for v in vids),
                'how': op['how'], 'n': len(op['a'])}

    # Storage

    def m_dump(self, op):
        if op['how'] == 'derivs' and any(isinstance(self.mv(a), MArr)
                                         for a in op['a']):
            raise Reject
        return []

    def r_dump(self, op):
        xs = [self.rv(a) for a in op['a']]
        attempt = self.attempts = getattr(self, 'attempts', -1)+1
        limits = op.get('full', [])
        f = SimFile(limits[attempt] if attempt < len(limits) else None)

        def do():
            obj = contain(op['how'], xs)
            if op.get('py'):
                pickle._Pickler(f, op['p']).dump(obj)
            else:
                pickle.Pickler(f, op['p']).dump(obj)

        def done(res):
            self.out = dict(self.snapshot(op), data=base64.b64encode(
                bytes(f.data)).decode())
            self.partials = [base64.b64encode(bytes(p.data)).decode()
                             for p in self.files[:-1]]
        self.files = getattr(self, 'files', [])
        self.files.append(f)
        return do, done

    def m_restore(self, op):
        if self.incoming is None or self.incoming['n'] != len(op['d']):
            raise Reject     # Another history, because of minimisation
        memo = {}
        return [(d, self._renewed(op, m, memo=memo))
                for (m, d) in zip(self.incoming_m, op['d'])]

    def r_restore(self, op):
        inc = self.incoming
        data = base64.b64decode(inc['data'])
        rng = random.Random('cuts %s' % op['u'])
        n_reads = op.get('eio')
        attempt = self.restores = getattr(self, 'restores', -1)+1
        f = (ShortReads(data, rng, n_reads if attempt == 0 else None)
             if op.get('file') else None)

        def do():
            if op.get('py'):
                obj = pickle._Unpickler(f or io.BytesIO(data)).load()
            elif f:
                obj = pickle.Unpickler(f).load()
            else:
                obj = pickle.loads(data)
            return obj

        def done(obj):
            ys = extract(inc['how'], obj, inc['n'])
            if len(ys) != len(op['d']):
                raise Problem('number of restored objects')
            for (d, y) in zip(op['d'], ys):
                self.r[d] = y
                m = self.m[d]
                if isinstance(m, MNum):
                    if isinstance(y, world_module.core.Variable) != m.isvar:
                        raise Problem('type of a restored number: %r'
                                      % type(y))
                elif not isinstance(m, MArr) and not model.same_float(y, m):
                    raise Problem('restored value %r instead of %r' % (y, m))
            self._match(op['d'], op)
            self.check_cuts(op, data, rng)
        return do, done

    def check_cuts(self, op, data, rng):
        "Incomplete files never give numbers"
        cuts = [data[:rng.randrange(len(data))] for _ in range(
            op.get('cuts', 0))]
        cuts += [base64.b64decode(p) for p in self.incoming['partials']]
        for cut in cuts:
            self.n_checks += 1
            if len(cut) >= len(data):
                continue
            try:
                obj = pickle.loads(cut)
            except Exception:
                continue
            raise Problem('incomplete file (%d bytes of %d) loaded as %r'
                          % (len(cut), len(data), obj))


class PhaseRun(execute.Run):

    def __init__(self, plan, incoming):
        execute.Run.__init__(self, plan)
        self.world = PersistWorld()
        if incoming:
            self.world.receive(incoming)


def run_phase(arg):
    (plan, incoming) = arg
    run = PhaseRun(plan, incoming)
    result = run.run()
    out = run.world.out
    if out:
        out['partials'] = list(run.world.partials)
    result['out'] = out
    return result


def merge(total, stats):
    for (k, v) in stats.items():
        if isinstance(v, dict):
            d = total.setdefault(k, {})
            for (kk, n) in v.items():
                d[kk] = d.get(kk, 0)+n
        elif isinstance(v, bool):
            total[k] = total.get(k, False) or v
        elif isinstance(v, str):
            total[k] = total.get(k, '')+v
        elif k == 'op_steps':
            total[k] = max(v, total.get(k, 0))
        else:
            total[k] = total.get(k, 0)+v


def run_persist(plan):
    incoming = None
    total = {'processes': 0, 'restored_generations': 0}
    traces = []
    for (i, ops) in enumerate(plan['tasks']):
        phase = {'seed': '%s/%d' % (plan['seed'], i), 'tasks': [ops],
                 'sched': dict(plan['sched']),
                 'traced': plan.get('traced', True)}
        if plan['sched'].get('mode') == 'replay':
            # Decisions of this phase
            phase['sched']['decisions'] = [
                ev[1:] for ev in plan['sched']['decisions'] if ev[0] == i]
        (result, death) = runner.in_child(run_phase, (phase, incoming))
        if result is None:
            return runner.dead(plan, death)
        merge(total, result['stats'])
        total['processes'] += 1
        traces += [[i]+list(ev) for ev in result['trace']]
        if result['problem']:
            return {'problem': 'process %d: %s' % (i+1, result['problem']),
                    'trace': traces, 'stats': total}
        if incoming and any(op['o'] == 'restore' for op in ops):
            total['restored_generations'] += 1
        incoming = result['out']     # (nothing if the storage failed)
    total['nontrivial'] = total['restored_generations'] > 0
    return {'problem': None, 'trace': traces, 'stats': total}


# -- plans -----------------------------------------------------------------

class PersistGen(gen.Gen):

    def __init__(self, rng, weights, opts=None):
        gen.Gen.__init__(self, rng, weights, opts)
        self.w = PersistWorld(real=False)

    def dump(self):
        rng = self.rng
        nums = list(self.nums)
        n = rng.randint(1, min(7, len(nums)))
        chosen = [['s', s] for s in rng.sample(nums, n)]
        if rng.random() < .4:
            # Variables, along with numbers that depend on them
            slots = self.w.var_slots()
            if slots:
                chosen.append(['s', rng.choice(slots)])
        if rng.random() < .15:
            chosen.append(rng.choice(chosen))    # Twice the same object
        if self.arrays and rng.random() < .4 and not self.opts.get(
                'resource'):
            chosen.append(['s', rng.choice(self.arrays)])
        rng.shuffle(chosen)
        op = {'o': 'dump', 'a': chosen, 'u': self.new(),
              'p': rng.choice([0, 1, 2, 3, 4, 5, 2, 4]),
              'how': rng.choice(['list', 'list', 'tuple', 'dict', 'nested',
                                 'single', 'derivs'])}
        if op['how'] == 'derivs' and any(isinstance(self.w.mv(a), MArr)
                                         for a in chosen):
            op['how'] = 'list'
        if rng.random() < .25:
            op['py'] = True
        if rng.random() < .3:
            op['full'] = [int(2**rng.uniform(0, 11))
                          for _ in range(rng.randint(1, 3))]
        return self.decorate(op)

    def restore(self, n):
        rng = self.rng
        u = self.new()
        op = {'o': 'restore', 'd': ['%s_%d' % (u, i) for i in range(n)],
              'u': u, 'cuts': rng.choice([0, 2, 5])}
        if rng.random() < .25:
            op['py'] = True
        if rng.random() < .3:
            op['file'] = True
            if rng.random() < .5:
                op['eio'] = rng.randint(0, 12)
        return self.decorate(op)


def make_plan(prop, seed):
    rng = random.Random('plan %s %s' % (prop, seed))
    faults = gen.fault_choice(rng, .45)
    opts = {'deep': rng.choice([0., .1, .3]),
            'nonfinite': rng.random() < .4, 'sub': .12}
    opts['faulty'] = bool(faults)
    if faults in ('nomem', 'stack'):
        opts['resource'] = faults
    weights = gen.merged(
        (gen.CALC, .8), (gen.ARR, rng.choice([0, 0, .2])),
        ({'read': 6, 'copy': .5, 'deepcopy': .5, 'pickle': .5, 'set': 1.5,
          'gc': .2, 'drop': .3}, 1))
    start = dict(gen.START)
    count = 0
    phases = []
    previous = None
    for i in range(rng.choice([2, 2, 2, 3, 4])):
        g = PersistGen(rng, weights, opts)
        g.prefix = 'p%d.' % i
        g.count = 1000*i+(count if rng.random() < .5 else 0)
        ops = []
        if previous is None or rng.random() < .7:
            # Numbers of the process itself
            ops += g.make(rng.randint(1, 4), start)
            if rng.random() < .5:
                ops += g.make(rng.randint(1, 5))
        if previous is not None:
            g.w.receive(previous)
            for _ in range(rng.choice([1, 1, 1, 2])):
                op = g.restore(previous['n'])
                try:
                    g.apply(op)
                except Reject:
                    continue
                ops.append(op)
            ops += g.make(rng.randint(0, 10))
        else:
            ops += g.make(rng.randint(3, 20))
        if not g.nums:
            break
        op = g.dump()
        ops.append(op)
        previous = dict(g.w.snapshot(op), data='', partials=[])
        if rng.random() < .3:
            ops += g.make(rng.randint(1, 5))    # Not stored
        count = g.count
        phases.append(ops)
    return {'seed': seed, 'kind': 'persist', 'prop': prop, 'tasks': phases,
            'sched': gen.sched_single(rng, faults == 'async'),
            'traced': faults not in ('nomem', 'stack'), 'resource': faults}
