"""
Reads that race with changes of uncertainties.

Each variable has a history of uncertainties, with the events (operation
starts and ends, globally numbered) of each change.  The result of a read must
be consistent, for each variable, with one of the values that the variable can
have had during the read, and, for each thread, with what it has already
observed.
"""

import itertools
import math
import random

from . import execute, gen, model, world as world_module
from .model import MNum
from .world import Problem, model_std, model_comparison

MAX_COMBINATIONS = 400


class RaceRun(execute.Run):

    def __init__(self, plan):
        execute.Run.__init__(self, plan)
        self.clock = 0
        self.history = {}    # vid -> [[value, start, end or None]]
        self.seen = {}       # (tid, vid) -> lowest possible index
        self.n_raced = 0
        self.n_new = 0
        self.n_old = 0

    def tick(self):
        self.clock += 1
        return self.clock

    def hist(self, vid):
        h = self.history.get(vid)
        if h is None:
            h = self.history[vid] = [[self.world.s[vid], 0, 0]]
        return h

    def _exec_op(self, op, task, traced):
        if task is None or op['o'] not in ('set', 'read', 'aread'):
            return execute.Run._exec_op(self, op, task, traced)
        w = self.world
        if not w.has(op):
            self.n_skipped += 1
            return
        self.n_ops += 1
        self.kinds[op['o']] = self.kinds.get(op['o'], 0)+1
        if op['o'] == 'set':
            self.do_set(op, task)
        else:
            self.do_read(op, task)

    def call(self, op, task, do):
        task.injected = []
        failure = None
        res = None
        try:
            self.kernel.op_begin(op['u'], faultable=False)
            try:
                res = do()
            finally:
                self.kernel.op_end()
        except BaseException as exc:
            failure = exc
        if self.problem is not None:
            return (False, None)
        if self.kernel.problem:
            self.fail(op, 'the operation does not finish (%s)'
                      % self.kernel.problem)
            return (False, None)
        if isinstance(failure, ValueError) and op.get('w') == 'score':
            return (True, failure)
        if failure is not None:
            import traceback
            raise Problem('unexpected exception: %s' % ''.join(
                traceback.format_exception(
                    type(failure), failure, failure.__traceback__))[-900:])
        self.count('ok')
        return (True, res)

    def do_set(self, op, task):
        w = self.world
        (vid,) = w.mv(op['a'][0]).co
        h = self.hist(vid)
        (do, done) = w.prepare(op)
        entry = [float(op['s']), self.tick(), None]
        h.append(entry)
        (ok, res) = self.call(op, task, do)
        if not ok:
            return
        entry[2] = self.tick()
        done(res)
        # The writer of a variable immediately sees the new value:
        now = w.real_var[vid].std_dev
        if not model.same_float(now, entry[0]):
            raise Problem('uncertainty of %s after a change: %r instead of %r'
                          % (vid, now, entry[0]))
        self.seen[(task.tid, vid)] = len(h)-1

    # -- reads -------------------------------------------------------------

    def do_read(self, op, task):
        w = self.world
        refs = op['a']
        xs = [w.rv(a) for a in refs]
        ms = [w.mv(a) for a in refs]
        (do, _) = w.prepare(op)
        start = self.tick()
        # Changes done before the read:
        low = {}
        nums = []
        for m in ms:
            nums += m.items if isinstance(m, world_module.MArr) else [m]
        vids = sorted(set(v for m in nums if isinstance(m, MNum)
                          for v in m.co))
        for v in vids:
            h = self.hist(v)
            low[v] = max([i for (i, e) in enumerate(h)
                          if e[2] is not None]
                         + [self.seen.get((task.tid, v), 0)])
        (ok, res) = self.call(op, task, do)
        if not ok:
            return
        w.n_checks += 1
        candidates = {}
        for v in vids:
            h = self.hist(v)
            candidates[v] = list(range(low[v], len(h)))
        if any(len(c) > 1 for c in candidates.values()):
            self.n_raced += 1
        if op['o'] == 'aread':
            self.check_array(op, res, ms[0], candidates, task)
            return
        what = op['w']
        if what == 'e':
            self.check_components(res, ms[0], candidates, task)
        else:
            self.check_combinations(op, what, res, xs, ms, vids, candidates,
                                    task)

    def value(self, v, i):
        return self.hist(v)[i][0]

    def describe(self, candidates):
        return dict((v, [self.value(v, i) for i in c])
                    for (v, c) in candidates.items())

    def check_components(self, res, m, candidates, task):
        w = self.world
        seen = set()
        for (var, c) in res.items():
            v = w._vid(var)
            seen.add(v)
            if v not in m.co:
                if c != 0:
                    raise Problem('unexpected error component for %s' % v)
                continue
            (mc, mag, err) = m.co[v]
            match = [i for i in candidates[v]
                     if self.component_ok(c, mc, mag, err, self.value(v, i))]
            if not match:
                raise Problem('error component for %s: %r, derivative %r,'
                              ' possible uncertainties %r' % (
                                  v, c, mc, self.describe(candidates)[v]))
            self.note(task, v, match, candidates)
        for (v, (mc, mag, err)) in m.co.items():
            if v not in seen and abs(mc) > model.REL*mag+err and not any(
                    self.value(v, i) == 0 for i in candidates[v]):
                raise Problem('missing error component for %s' % v)

    @staticmethod
    def component_ok(c, mc, mag, err, s):
        if s == 0:
            return c == 0
        if not s < float('inf') and abs(mc) <= model.REL*mag+err:
            return True
        return model.close(c, abs(mc*s), (model.REL*mag+err)*s
                           + 1e-12*abs(mc*s) if not math.isinf(s) else 0.)

    def note(self, task, v, match, candidates):
        "Records what the thread has observed"
        key = (task.tid, v)
        self.seen[key] = max(self.seen.get(key, 0), min(match))
        if len(candidates[v]) > 1:
            if min(match) > candidates[v][0]:
                self.n_new += 1
            elif max(match) < candidates[v][-1]:
                self.n_old += 1

    def check_array(self, op, res, m, candidates, task):
        w = self.world
        if op['w'] == 'n':
            return
        if res.shape != m.shape or res.dtype != float:
            raise Problem('shape or type of the result: %r' % (res,))
        for (x, y) in zip(world_module._items(res), m.items):
            vids = sorted(y.co) if isinstance(y, MNum) else []
            self.check_combinations(
                dict(op, w='s'), 's', float(x), [None], [y], vids,
                candidates, task)

    def check_combinations(self, op, what, res, xs, ms, vids, candidates,
                           task):
        lists = [candidates[v] for v in vids]
        n = 1
        for c in lists:
            n *= len(c)
        if n > MAX_COMBINATIONS:
            w = self.world
            w.probe('too many combinations')
            return
        matching = []
        first = None
        for combo in itertools.product(*lists):
            s_of = dict((v, self.value(v, i)) for (v, i) in zip(vids, combo))
            try:
                self.check_one(op, what, res, xs, ms, s_of)
            except Problem as exc:
                first = first or exc
            else:
                matching.append(combo)
        if not matching:
            raise Problem('%s [possible uncertainties: %r]' % (
                first, self.describe(candidates)))
        for (k, v) in enumerate(vids):
            self.note(task, v, [combo[k] for combo in matching], candidates)

    def check_one(self, op, what, res, xs, ms, s_of):
        w = self.world
        if what in ('str', 'fmt'):
            return self.check_text(res, ms[0], op.get('spec', ''), s_of)
        if isinstance(res, ValueError):
            # Null standard deviation
            b = model_std(ms[0], s_of)
            if b is not None and (b != b or b[0] > 0):
                raise Problem('%r for a standard deviation of %r' % (res, b))
            return
        saved = w.s
        w.s = dict(saved)
        w.s.update(s_of)
        n_checks = w.n_checks
        try:
            w.check_read(what, res, xs, ms, op)
        finally:
            w.s = saved
            w.n_checks = n_checks

    def check_text(self, res, m, spec, s_of):
        b = model_std(m, s_of)
        if b is None:
            return
        if b != b:
            tests = [b]
        else:
            tests = [b[0], (b[0]+b[1])/2, b[1]]
        unc = world_module.unc
        texts = [format(unc.ufloat(m.n, s), spec) for s in tests]
        if res in texts:
            return
        if len(set(texts)) == 1 and res != texts[0]:
            raise Problem('format %r: %r instead of %r'
                          % (spec, res, texts[0]))

    def result(self):
        r = execute.Run.result(self)
        r['stats'].update(raced_reads=self.n_raced, new_seen=self.n_new,
                          old_seen=self.n_old)
        return r


READS = ['s', 's', 's', 'ss', 'sf', 'e', 'e', 'e', 'cov', 'cov', 'cov',
         'cor', 'repr', 'str', 'fmt',
         'fmt', 'eq', 'ne', 'le', 'ge', 'score', 'd', 'n', 'bool']

# Formats that show enough digits to identify the uncertainty
SPECS = ['', '.3f', '.6e', '.6f', '.5u', '.3uS', 'P', 'L', '.1u', '.8f',
         '.4ueP', '.5uS', '+.6f', '20.5f', '.2u%']


class RaceGen(gen.Gen):

    SPECS = SPECS


def make_plan(prop, seed):
    rng = random.Random('plan %s %s' % (prop, seed))
    opts = {'reads': READS, 'deep': 0., 'fdeep': 0.,
            'nonfinite': rng.random() < .15}
    g = RaceGen(rng, gen.merged(
        (gen.CALC, 1), (gen.ARR, rng.choice([0, 0, .15]))), opts)
    prelude = g.make(rng.randint(2, 5), gen.START)
    prelude += g.make(rng.randint(1, 14))
    slots = g.w.var_slots()
    # Each variable is changed by a single thread:
    n_writers = rng.choice([1, 1, 1, 2])
    owner = dict((slot, rng.randrange(n_writers)) for slot in slots)
    tasks = []
    warm = rng.random()
    for i in range(n_writers):
        mine = [s for s in slots if owner[s] == i]
        if len(mine) > 2 and rng.random() < .5:
            mine = rng.sample(mine, 2)
        t = fork(g, 't%d.' % i, rng)
        ops = []
        if mine:
            for _ in range(rng.randint(3, 16)):
                if rng.random() < .2 and ops:
                    ops += t.make(1, {'read': 1})
                    continue
                op = {'o': 'set', 'a': [['s', rng.choice(mine)]],
                      's': t.std(), 'how': rng.choice(
                          ['std_dev', 'std_dev', 'np', 'attr', 'old']),
                      'u': t.new()}
                ops.append(op)
        tasks.append(ops)
    for i in range(n_writers, n_writers+rng.choice([1, 1, 2, 3])):
        t = fork(g, 't%d.' % i, rng)
        reads = {'read': 10, 'fn': rng.choice([0, 1, 3]), 'aread': .5}
        if not t.arrays:
            del reads['aread']
        ops = t.make(rng.randint(1, 8), reads)
        if rng.random() < .3 and ops:
            # Many reads of the same number
            ops += [dict(op, u=t.new()) for op in ops if op['o'] == 'read']
        for op in ops:
            if op['o'] == 'aread':
                op['w'] = 's'
            # Checks of new results would be made with the final values
            op['chk'] = 0
        tasks.append(ops)
    if warm < .5:
        # Some numbers are read before the race (what is kept by these
        # numbers must be updated)
        prelude += g.make(rng.randint(1, 8), {'read': 1})
    rng.shuffle(tasks)
    # (the final uncertainties can be null)
    g.opts = dict(opts, reads=[r for r in READS if r != 'score'])
    post = g.make(rng.randint(0, 6), {'read': 1})
    sched = gen.sched_threads(rng, False)
    if not sched.get('pct'):
        sched['switch_mean'] = rng.choice([2, 4, 8, 20, 60])
    return {'seed': seed, 'prelude': prelude, 'tasks': tasks,
            'post': post,
            'sched': sched, 'kind': 'race', 'prop': prop}


def fork(g, prefix, rng):
    t = g.fork(prefix, random.Random(rng.random()))
    t.__class__ = RaceGen
    return t


def run_race(plan):
    return RaceRun(plan).run()
