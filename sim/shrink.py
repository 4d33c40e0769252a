"""
Minimisation of failing plans: recorded decisions (switches, faults) and
operations that are not needed for the violation are removed.
"""

import copy
import time

from . import runner


class Shrinker(object):

    def __init__(self, plan, result, max_runs=500, max_time=40.):
        self.left = max_runs
        self.deadline = time.monotonic()+max_time
        self.runs = 0
        self.plan = plan
        self.result = result

    def test(self, plan):
        "Result of the plan if it fails"
        if self.left <= 0 or time.monotonic() > self.deadline:
            return None
        self.left -= 1
        self.runs += 1
        try:
            result = runner.run(plan)
        except runner.HarnessError:
            return None
        return result if result.get('problem') else None

    def keep(self, plan):
        result = self.test(plan)
        if result:
            self.plan = plan
            self.result = result
            return True
        return False

    def ddmin(self, get, put):
        "Minimises a list of the plan"
        try:
            items = get(self.plan)
        except (IndexError, KeyError):      # Removed
            return
        size = max(1, len(items)//2)
        while items and size >= 1:
            i = 0
            changed = False
            while i < len(items):
                candidate = items[:i]+items[i+size:]
                plan = copy.deepcopy(self.plan)
                put(plan, candidate)
                if self.keep(plan):
                    items = candidate
                    changed = True
                else:
                    i += size
                if self.left <= 0 or time.monotonic() > self.deadline:
                    return
            if size == 1 and not changed:
                return
            if size > 1:
                size = max(1, size//2)

    def run(self):
        plan = self.plan
        trace = self.result.get('trace')
        if trace and plan.get('sched', {}).get('mode') != 'replay':
            new = copy.deepcopy(plan)
            new['sched'] = {'mode': 'replay', 'decisions': trace}
            if plan['sched'].get('lines'):
                new['sched']['lines'] = True
            self.keep(new)
        for _ in range(2):
            before = self.plan
            lists = []
            if 'shrink' in self.plan:
                lists = [list(path) for path in self.plan['shrink']]
            else:
                if self.plan.get('post'):
                    lists.append(['post'])
                lists += [['tasks', i]
                          for i in range(len(self.plan.get('tasks', ())))]
                lists += [['handlers', i]
                          for i in range(len(self.plan.get('handlers', ())))]
                if self.plan.get('prelude'):
                    lists.append(['prelude'])
            if self.plan.get('sched', {}).get('mode') == 'replay':
                lists.insert(0, ['sched', 'decisions'])
                lists.append(['sched', 'decisions'])
            for path in lists:
                self.ddmin(lambda p: _get(p, path),
                           lambda p, v: _put(p, path, v))
            if self.plan is before or self.left <= 0:
                break
        if 'shape' in self.plan:
            n = self.plan['shape']['n']
            for new_n in (5, 10, 20, 40, 100, 400, 1000, 1500, 3000):
                if new_n < n:
                    new = copy.deepcopy(self.plan)
                    new['shape']['n'] = new_n
                    if self.keep(new):
                        break
        self.simplify()
        return (self.plan, self.result)

    def simplify(self):
        "Removes options of operations"
        for names in (('fchk',), ('chk',), ('nomem',), ('stack',), ('warn',),
                      ('tag',)):
            new = copy.deepcopy(self.plan)
            changed = False
            for ops in [new.get('prelude', [])]+list(new.get('tasks', []))+list(
                    new.get('handlers', [])):
                for op in ops:
                    for name in names:
                        if isinstance(op, dict) and name in op:
                            del op[name]
                            changed = True
            if changed:
                self.keep(new)


def _get(plan, path):
    for key in path:
        plan = plan[key]
    return list(plan)


def _put(plan, path, value):
    for key in path[:-1]:
        plan = plan[key]
    plan[path[-1]] = value
