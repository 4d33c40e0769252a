"""
Command line: seeded search for violations of a property, minimisation,
replay, evidence.
"""

import argparse
import collections
import hashlib
import json
import os
import random
import re
import select
import subprocess
import sys
import time

from . import runner, shrink

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'

# Number of simulated runs: (quick, thorough)
RUNS = {
    'C01': (12000, 150000), 'C02': (10000, 130000), 'C03': (12000, 150000),
    'C04': (12000, 150000), 'C05': (9000, 110000), 'C06': (10000, 130000),
    'C07': (9000, 110000), 'C08': (3500, 50000), 'C09': (10000, 130000),
    'C10': (12000, 150000), 'C11': (1500, 15000), 'C12': (2500, 30000),
    'C13': (10000, 130000), 'C14': (8000, 100000),
    'C15': (6000, 80000), 'C16': (6000, 80000),
    'C17': (6000, 80000), 'C18': (4000, 60000),
    'C19': (6000, 80000),
}
# Limits, in s of wall time (the number of runs decides, usually)
TIME = (200, 700)
WORKERS = 8

RULES = {
    'default': (
        'one case = one simulated run, made from (VERIF_SEED, run number): a'
        ' random history of operations of one or several simulated users,'
        ' a schedule and a fault sequence; non-trivial: at least one thread'
        ' switch, injected fault, failing callback, failing allocation,'
        ' stack exhaustion or forced garbage collection really happened;'
        ' distinct: different sequence of operations, switch sites and fault'
        ' sites'),
}


def make_plan(prop, verif_seed, i):
    from . import gen, special
    maker = special.GENERATORS.get(prop, gen.make_plan)
    plan = maker(prop, '%s-%d' % (verif_seed, i))
    plan['property'] = prop
    if plan.get('sched') and random.Random(
            'lines %s-%d' % (verif_seed, i)).random() < .3:
        # Switches and faults are possible at the start of any line
        plan['sched']['lines'] = True
    # Exactly what a replay file would contain:
    return json.loads(json.dumps(plan))


# -- known findings --------------------------------------------------------

def known_findings(prop):
    """
    List of (regular expression, description) for the property.  The lines of
    the file are either "fixed: ..." or
    "known: property=<id> match=<regular expression> :: <description>".
    """
    result = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) match=(.*?) :: (.*)', line)
            if m and m.group(1) == prop:
                result.append((re.compile(m.group(2)), m.group(3)))
    return result


# -- workers ---------------------------------------------------------------

def worker(prop, verif_seed, first, step, total, deadline, out):
    for i in range(first, total, step):
        if time.monotonic() > deadline:
            break
        t0 = time.monotonic()
        record = {'i': i}
        try:
            plan = make_plan(prop, verif_seed, i)
            result = runner.run(plan)
            if result['problem'] and not runner.run(plan)['problem']:
                # Not a repeatable run (the CPU time limit, for instance)
                record['unrepeatable'] = result['problem']
                result['problem'] = None
                result['aborted'] = 'unrepeatable'
        except Exception:
            import traceback
            record['harness'] = traceback.format_exc()[-3000:]
        else:
            record['problem'] = result['problem']
            record['aborted'] = result.get('aborted')
            record['stats'] = result['stats']
            sig = result['stats'].get('sig')
            record['sig'] = hashlib.sha1(('%s %s' % (
                sig, shape(plan))).encode()).hexdigest()[:16]
            if i < 3:
                record['sample'] = summary(plan, result)
        record['t'] = time.monotonic()-t0
        data = (json.dumps(record)+'\n').encode()
        while data:
            data = data[os.write(out, data):]


def shape(plan):
    "Sequence of the operations of a plan"
    text = json.dumps([plan.get(k) for k in (
        'prelude', 'tasks', 'handlers', 'post', 'phases', 'shape', 'files',
        'events', 'program', 'other', 'mode')],
        sort_keys=True)
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def summary(plan, result):
    def op(o):
        if not isinstance(o, dict):
            return str(o)[:60]
        return ' '.join(str(o[k])[:60] for k in ('o', 'f', 'w', 'a', 's', 'how',
                                            'form') if k in o)
    return {
        'seed': plan['seed'],
        'operations': [[op(o) for o in ops[:12]]
                       for ops in [plan.get('prelude', [])]
                       + list(plan.get('tasks', []))],
        'scheduler': plan.get('sched'),
        'decisions': result['trace'][:15],
        'other': dict((k, str(v)[:400]) for (k, v) in plan.items() if k in (
            'shape', 'phases', 'files', 'events', 'kind', 'resource')),
    }


class Totals(object):

    def __init__(self):
        self.runs = 0
        self.aborted = 0
        self.sigs = set()
        self.sums = collections.Counter()
        self.maxima = {}
        self.groups = {}
        self.samples = []
        self.failures = []
        self.unrepeatable = []
        self.harness = []
        self.abort_reasons = collections.Counter()

    def add(self, record):
        if 'harness' in record:
            self.harness.append(record)
            return
        self.runs += 1
        if 'unrepeatable' in record:
            self.unrepeatable.append((record['i'], record['unrepeatable']))
        if record.get('aborted'):
            self.aborted += 1
            self.abort_reasons[record['aborted']] += 1
        stats = record['stats']
        if stats.get('nontrivial'):
            self.sigs.add(record['sig'])
            self.sums['nontrivial_runs'] += 1
        for (k, v) in stats.items():
            if isinstance(v, dict):
                group = self.groups.setdefault(k, collections.Counter())
                for (kk, n) in v.items():
                    group[kk] += n
            elif isinstance(v, bool) or isinstance(v, str):
                pass
            elif k in ('op_steps',) or k.startswith('max_'):
                self.maxima[k] = max(v, self.maxima.get(k, 0))
            elif isinstance(v, (int, float)):
                self.sums[k] += v
        if 'sample' in record:
            self.samples.append(record['sample'])
        if record['problem']:
            self.failures.append(record)


def search(prop, verif_seed, total, limit, n_workers):
    totals = Totals()
    deadline = time.monotonic()+limit
    readers = {}
    for w in range(n_workers):
        (r, wr) = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            status = 0
            try:
                os.close(r)
                for other in readers:
                    os.close(other)
                worker(prop, verif_seed, w, n_workers, total, deadline, wr)
            except BaseException:
                import traceback
                traceback.print_exc()
                status = 1
            finally:
                os._exit(status)
        os.close(wr)
        readers[r] = [pid, b'']
    stop_at = None
    while readers:
        (ready, _, _) = select.select(list(readers), [], [], 1.)
        for r in ready:
            chunk = os.read(r, 1 << 16)
            entry = readers[r]
            if not chunk:
                os.close(r)
                os.waitpid(entry[0], 0)
                del readers[r]
                continue
            entry[1] += chunk
            while b'\n' in entry[1]:
                (line, entry[1]) = entry[1].split(b'\n', 1)
                if os.environ.get('SIM_LOG'):
                    with open(os.environ['SIM_LOG'], 'ab') as log:
                        log.write(line+b'\n')
                totals.add(json.loads(line))
        known = known_findings(prop)
        new = [f for f in totals.failures
               if not any(k.search(f['problem']) for (k, _) in known)]
        if new and stop_at is None:
            stop_at = time.monotonic()+3.
        if stop_at and time.monotonic() > stop_at or len(
                totals.harness) > 20:
            # Enough is known
            for (pid, _) in readers.values():
                try:
                    os.kill(pid, 15)
                except OSError:
                    pass
            for (r, (pid, _)) in readers.items():
                os.close(r)
                os.waitpid(pid, 0)
            readers = {}
    return totals


# -- violations ------------------------------------------------------------

def write_replay(prop, plan, result, verif_seed):
    folder = os.path.join(HERE, 'replays')
    os.makedirs(folder, exist_ok=True)
    data = {'property': prop, 'verif_seed': verif_seed,
            'problem': result['problem'], 'plan': plan,
            'trace': result.get('trace')}
    text = json.dumps(data, indent=1, sort_keys=True)
    name = '%s-%s.json' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10])
    path = os.path.join(folder, name)
    with open(path, 'w') as f:
        f.write(text)
    return path


def replay(path):
    data = json.load(open(path))
    result = runner.run(data['plan'])
    return (data, result)


def confirm(path):
    "Executes the replay file in a new process: the problem found, or None"
    out = subprocess.run(
        [sys.executable, '-B', os.path.join(HERE, 'check'), '--replay', path],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        timeout=400).stdout
    m = re.search(r'^PROBLEM (.*)$', out, re.M)
    return json.loads(m.group(1)) if m else None


def investigate(prop, verif_seed, totals, say):
    """
    Reproduces, minimises and confirms violations: list of (path, problem).
    """
    known = known_findings(prop)
    found = []
    hits = collections.Counter()
    unreproduced = 0
    for record in sorted(totals.failures, key=lambda r: r['i']):
        matching = [d for (k, d) in known if k.search(record['problem'])]
        if matching:
            hits[matching[0]] += 1
            continue
        if found or unreproduced >= 6:
            continue
        plan = make_plan(prop, verif_seed, record['i'])
        result = None
        for _ in range(3):
            candidate = runner.run(plan)
            if candidate['problem']:
                result = candidate
                break
        if result is None:
            unreproduced += 1
            say('run %d: problem not reproduced: %s'
                % (record['i'], record['problem'][:300]))
            continue
        shrinker = shrink.Shrinker(plan, result)
        (small, small_result) = shrinker.run()
        # Minimisation must not lead to a known problem:
        if any(k.search(small_result['problem']) for (k, _) in known):
            (small, small_result) = (plan, result)
        path = write_replay(prop, small, small_result, verif_seed)
        again = confirm(path)
        if again != small_result['problem']:
            # Fallback: the original run
            path2 = write_replay(prop, plan, result, verif_seed)
            if confirm(path2) == result['problem']:
                (path, small_result, again) = (
                    path2, result, result['problem'])
        found.append((path, small_result['problem'],
                      again == small_result['problem'], shrinker.runs))
    for (d, n) in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (prop, d, n))
    return (found, unreproduced)


# -- main ------------------------------------------------------------------

REAL = ('uncertainties (all modules) with NumPy, copy, pickle, inspect,'
        ' lib2to3: real code, imported from the working tree of /repo')
STUBS = ('thread scheduling, locks, signal delivery (asynchronous'
         ' exceptions), allocation failures, stack limit, disk (C08, C12):'
         ' simulator; users and their callbacks: simulated')


def evidence(prop, tier, verif_seed, totals, wall, violations, extra):
    hours = wall/3600.
    groups = dict((k, dict(v)) for (k, v) in totals.groups.items())
    from . import special
    coverage = {
        'evaluations': totals.runs,
        'distinct_nontrivial': len(totals.sigs),
        'rule': special.RULES.get(prop, RULES['default']),
        'samples': totals.samples[:3],
        'simulated_runs_per_hour': int(totals.runs/hours) if hours else 0,
        'seeds_per_hour': int(totals.runs/hours) if hours else 0,
        'simulated_time': {
            'unit': 'bytecode instructions of the code under test (there is'
                    ' no clock in this library)',
            'total': totals.sums.get('steps', 0),
            'per_hour': int(totals.sums.get('steps', 0)/hours)
            if hours else 0},
        'faults_injected': dict(
            list(groups.get('fired', {}).items())
            + [('outcome: '+k, v) for (k, v) in groups.get(
                'outcomes', {}).items() if k not in ('ok', 'expected')]),
        'thread_switches': totals.sums.get('switches', 0),
        'blocked_or_ended_threads': totals.sums.get('blocked', 0),
        'operations': totals.sums.get('ops', 0),
        'operation_kinds': groups.get('kinds', {}),
        'oracle_checks': totals.sums.get('checks', 0),
        'aborted_runs': totals.aborted,
        'abort_reasons': dict(totals.abort_reasons),
        'distinct_measure': 'hash of (operations, thread switch sites, fault'
                            ' kinds and sites)',
        'components': {'real': REAL, 'simulated': STUBS},
    }
    for (k, v) in totals.sums.items():
        if k not in ('steps', 'switches', 'blocked', 'ops', 'checks'):
            coverage.setdefault(k, v)
    for (k, v) in groups.items():
        if k not in ('fired', 'outcomes', 'kinds'):
            coverage.setdefault(k, v)
    coverage.update(totals.maxima)
    coverage.update(extra)
    data = {
        'property': prop, 'tier': tier, 'seed': verif_seed, 'level': LEVEL,
        'coverage': coverage, 'wall_s': round(wall, 2),
        'violations': violations,
        'assumptions': [
            'Asynchronous exceptions and signal handlers arrive only where'
            ' CPython 3.12 allows it (after calls, at function starts and'
            ' loop iterations); threads switch there and, in part of the'
            ' runs, at the start of any line.',
            'A single operation of a built-in type (dict, list, iterator)'
            ' on floats and plain objects is atomic.',
        ],
    }
    folder = os.path.join(HERE, 'evidence')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, prop+'.json')
    with open(path+'.tmp', 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True, default=str)
    os.rename(path+'.tmp', path)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('tier', nargs='?',
                        default=os.environ.get('VERIF_TIER', 'quick'),
                        choices=['quick', 'thorough'])
    parser.add_argument('--replay')
    parser.add_argument('--runs', type=int)
    parser.add_argument('--workers', type=int, default=WORKERS)
    parser.add_argument('--digest', action='store_true',
                        help='prints a digest of all the runs')
    args = parser.parse_args()
    start = time.monotonic()
    verif_seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    def say(text):
        print(text)
        sys.stdout.flush()

    n_code = runner.setup()

    if args.replay:
        (data, result) = replay(args.replay)
        if result['problem']:
            say('PROBLEM %s' % json.dumps(result['problem']))
            say('VIOLATION property=%s replay=%s' % (
                data['property'], args.replay))
            return 1
        say('no problem')
        return 0

    prop = args.property
    total = args.runs or RUNS[prop][args.tier == 'thorough']
    if args.runs is None and os.environ.get('SIM_SCALE'):
        total = int(total*float(os.environ['SIM_SCALE']))
    say('property %s, tier %s, VERIF_SEED=%d: %d simulated runs'
        % (prop, args.tier, verif_seed, total))
    totals = search(prop, verif_seed, total,
                    TIME[args.tier == 'thorough'], args.workers)
    if args.digest:
        say('digest %s' % hashlib.sha1(repr((
            totals.runs, sorted(totals.sigs), sorted(totals.sums.items()),
            sorted((f['i'], f['problem']) for f in totals.failures))
        ).encode()).hexdigest())
    for (i, problem) in totals.unrepeatable[:5]:
        say('run %d: not repeatable: %s' % (i, problem[:300]))
    (found, unreproduced) = investigate(prop, verif_seed, totals, say)
    wall = time.monotonic()-start
    evidence(prop, args.tier, verif_seed, totals, wall, len(found), {
        'traced_functions': n_code, 'planned_runs': total,
        'unreproduced_problems': unreproduced+len(totals.unrepeatable),
        'replays_confirmed_in_a_new_process': [f[2] for f in found],
        'minimisation_runs': [f[3] for f in found]})
    say('%d runs (%d aborted, %d distinct non-trivial), %d steps, in %.1f s'
        % (totals.runs, totals.aborted, len(totals.sigs),
           totals.sums.get('steps', 0), wall))
    if found:
        for (path, problem, confirmed, _) in found:
            say('problem (%s): %s' % (
                'confirmed in a new process' if confirmed
                else 'seed '+str(verif_seed), problem))
            say('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if totals.harness:
        say('%d errors of the simulator, for instance run %d:\n%s' % (
            len(totals.harness), totals.harness[0]['i'],
            totals.harness[0]['harness']))
        return 3
    return 0
