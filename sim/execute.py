"""
Execution of a plan (prelude, concurrent tasks, final operations), under the
control of the simulation kernel, with checks against the reference model.
"""

import gc
import hashlib
import json
import os
import random
import sys
import traceback
import warnings

from . import kernel as kernel_module
from . import addresses, model, settings, userfuncs, world as world_module
from .kernel import Kernel, SimStop
from .model import Expected, Reject
from .world import Problem, World

ATTEMPTS = 4


class UserError(Exception):
    "Error raised by a user callback"


class UserInterrupt(BaseException):
    "Non-standard error raised by a user callback"


USER_EXC = {
    'value': ValueError, 'zero': ZeroDivisionError, 'overflow': OverflowError,
    'key': KeyError, 'user': UserError, 'base': UserInterrupt,
    'type': TypeError, 'stop': StopIteration, 'attr': AttributeError,
    'index': IndexError, 'assert': AssertionError, 'lookup': LookupError,
    'notimpl': NotImplementedError, 'mem': MemoryError,
    'rec': RecursionError, 'os': OSError, 'gexit': GeneratorExit,
}


def traced_modules():
    "Globals of the code where switches and faults can happen"
    import copy
    import inspect
    result = set()
    for (name, mod) in list(sys.modules.items()):
        if mod is not None and (name == 'uncertainties'
                                or name.startswith('uncertainties.')):
            result.add(id(mod.__dict__))
    result.add(id(userfuncs.__dict__))
    result.add(id(copy.__dict__))
    result.add(id(inspect.__dict__))
    return result


def depth():
    frame = sys._getframe()
    n = 0
    while frame is not None:
        n += 1
        frame = frame.f_back
    return n


def library_error(exc):
    """
    Description of an exception that comes from the code under test, while its
    results are being checked; None for errors of the simulator.
    """
    import uncertainties
    folder = os.path.dirname(os.path.abspath(uncertainties.__file__))
    tb = exc.__traceback__
    last = None
    while tb is not None:
        code = tb.tb_frame.f_code
        if os.path.abspath(code.co_filename).startswith(folder+os.sep):
            last = '%s: %r' % (code.co_name, exc)
        tb = tb.tb_next
    return last


class Run(object):

    def __init__(self, plan):
        self.plan = plan
        self.world = World()
        self.rng = random.Random('run %s' % plan.get('seed'))
        self.kernel = Kernel(plan, random.Random('sched %s' % plan.get('seed')),
                             budget=plan.get('budget', 3000000))
        self.problem = None
        self.n_ops = 0
        self.n_skipped = 0
        self.kinds = {}
        self.outcomes = {}
        self.checked = False
        self.no_faults = False
        self.prefix = ''
        self.linked = None      # World with other calculations
        self.observer = None
        self.before_op = None
        self.settings = None
        self.addresses = None
        userfuncs.Plan.reset()
        userfuncs.Plan.who = staticmethod(self._who)

    def _who(self):
        k = Kernel.current
        if k is None or k.cur is None:
            return -1
        return k.cur.tid+(1000 if k.cur.in_handler else 0)

    def count(self, outcome):
        self.outcomes[outcome] = self.outcomes.get(outcome, 0)+1

    # -- operations --------------------------------------------------------

    def fail(self, op, msg):
        if self.problem is None:
            short = dict((k, v) for (k, v) in op.items() if k != 'cov')
            self.problem = '%s [operation %s]' % (
                msg, json.dumps(short, sort_keys=True, default=str)[:400])

    def exec_op(self, op, task=None, traced=True):
        if self.problem is not None:
            return
        try:
            self._exec_op(op, task, traced)
            if self.settings is not None:
                self.check_settings(op)
        except Problem as exc:
            self.fail(op, str(exc))
        except Exception as exc:
            error = library_error(exc)
            if error is None:
                raise
            self.fail(op, 'a read fails afterwards, in %s' % error)

    def check_settings(self, op, last=False):
        self.world.n_checks += 1
        problem = self.settings.after(last)
        if problem:
            self.fail(op, problem)

    def _exec_op(self, op, task, traced):
        w = self.world
        kind = op['o']
        if kind == 'arm':
            cb = op['cb']
            base = userfuncs.Plan.counts.get(cb, 0)
            exc = USER_EXC[op['exc']]('from the callback %s' % cb)
            userfuncs.Plan.failing.setdefault(cb, {})[base+op['n']] = exc
            return
        if kind == 'disarm':
            userfuncs.Plan.failing = {}
            return
        if not w.has(op):
            self.n_skipped += 1
            return
        expected_exc = None
        results = None
        try:
            results = w.evaluate(op)
        except Expected as exc:
            expected_exc = exc.exc
        except (Reject, KeyError):
            self.n_skipped += 1
            return
        if self.before_op is not None:
            self.before_op()
        self.n_ops += 1
        self.kinds[kind] = self.kinds.get(kind, 0)+1
        trace = traced and op.get('trace', True)
        nomem = op.get('nomem', ())
        stack = op.get('stack', ())

        attempt = 0
        while True:
            if attempt and expected_exc is None:
                # The model can depend on what happened
                try:
                    results = w.evaluate(op)
                except (Expected, Reject):
                    return
            try:
                (do, done) = w.prepare(op)
            except AttributeError as exc:
                if "module 'uncertainties" not in str(exc):
                    raise
                raise Problem('missing function: %s' % exc)
            failure = None
            special = None
            res = None
            n_raised = len(userfuncs.Plan.raised)
            if task is not None:
                task.injected = []
            if attempt < len(nomem):
                special = 'nomem'
            elif attempt < len(stack):
                special = 'stack'
            try:
                if special == 'nomem':
                    res = self._with_nomem(do, nomem[attempt])
                elif special == 'stack':
                    res = self._with_stack(do, stack[attempt])
                elif op.get('warn') == 'error' and attempt == 0:
                    with warnings.catch_warnings():
                        warnings.simplefilter('error')
                        res = self._with_settings(do)
                elif trace:
                    self.kernel.op_begin(
                        self.prefix+op['u'] if not attempt
                        else '%s%s#%d' % (self.prefix, op['u'], attempt),
                        faultable=attempt < ATTEMPTS-1 and kind != 'matmul'
                        and not self.no_faults)
                    try:
                        res = do()
                    finally:
                        self.kernel.op_end()
                else:
                    res = do()
            except BaseException as exc:
                failure = exc
            if self.problem is not None:
                return
            if self.kernel.problem:
                self.fail(op, {
                    'budget': 'operation not finished after %d steps'
                    % self.kernel.op_budget,
                    'deadlock': 'deadlock'}[self.kernel.problem])
                return
            me = self._who()
            raised = [exc for (tid, exc)
                      in userfuncs.Plan.raised[n_raised:] if tid == me]
            injected = task.injected if task is not None else ()

            if failure is None:
                if raised:
                    raise Problem('exception %r of a callback was lost'
                                  % (raised[-1],))
                if expected_exc is not None:
                    raise Problem('%r expected, instead of %r'
                                  % (expected_exc, res))
                self.count('ok')
                if w.lazy_faulted or w.in_handler:
                    # Faults in other tasks can change the tolerances
                    results = w.evaluate(op)
                for (slot, value) in results:
                    w.m[slot] = value
                try:
                    done(res)
                    if self.observer is not None:
                        self.observer(op, 'ok', res)
                    self._check(op, results)
                    for slot in op.get('lose', ()):
                        w.r.pop(slot, None)
                        w.m.pop(slot, None)
                except Problem:
                    raise
                except Exception as exc:
                    raise Problem('result cannot be used: %s' % (
                        traceback.format_exc()[-600:]))
                return

            # An exception happened:
            if self.observer is not None:
                self.observer(op, 'exception', failure)
            if hasattr(done, 'check_args'):
                done.check_args()
            is_fault = False
            if raised:
                if failure is not raised[-1] and not (
                        any(failure is e for e in raised)) and (
                        special is None) and not (
                        any(failure is e for e in injected)):
                    raise Problem('%r instead of the exception %r of the'
                                  ' callback' % (failure, raised[-1]))
                is_fault = True
                self.count('callback')
            elif any(failure is e for e in injected):
                is_fault = True
                self.count('injected')
            elif special == 'nomem':
                is_fault = True
                self.count('nomem')
            elif special == 'stack' and isinstance(
                    failure, (RecursionError, SystemError)):
                is_fault = True
                self.count('stack')
            elif (op.get('warn') == 'error' and attempt == 0
                  and isinstance(failure, Warning)):
                is_fault = True
                self.count('warning')
            if not is_fault:
                if op['o'] in ('badset', 'badnew'):
                    if isinstance(failure, Exception):
                        self.count('refused')
                        self._check_bad(op)
                        return
                if expected_exc is not None and (
                        type(failure) is type(expected_exc)):
                    self.count('expected')
                    return
                if op.get('w') == 'score' and isinstance(
                        failure, ValueError) and w.can_be_exact(op['a'][0]):
                    self.count('expected')
                    return
                raise Problem('unexpected exception: %s' % (
                    ''.join(traceback.format_exception(
                        type(failure), failure, failure.__traceback__)
                    )[-900:]))
            failure.__traceback__ = None
            failure = None
            w.faulted = True
            w.lazy_faulted = True
            if special == 'nomem' or len(injected) > 1:
                # (Exception during the handling of an exception.)
                w.iterator_lost = True
                if self.linked is not None:
                    self.linked.iterator_lost = True
            self._after_fault(op)
            attempt += 1
            if op.get('giveup') and attempt >= op['giveup']:
                self.count('given up')
                return
            if attempt > 60:
                raise Problem('the operation never succeeds')

    def _with_nomem(self, do, k):
        import _testcapi
        _testcapi.set_nomemory(k, k+1)
        try:
            return do()
        finally:
            _testcapi.remove_mem_hooks()

    def _with_stack(self, do, h):
        old = sys.getrecursionlimit()
        try:
            sys.setrecursionlimit(depth()+h)
        except RecursionError:
            return do()
        try:
            return self._with_settings(do)
        finally:
            sys.setrecursionlimit(old)

    def _with_settings(self, do):
        "Executes do() with settings chosen by the user for this operation"
        if self.settings is None:
            return do()
        reference = self.settings.accept()
        try:
            return do()
        finally:
            try:
                self.settings.during('after an operation')
            finally:
                self.settings.reference = reference

    # -- checks ------------------------------------------------------------

    def _check(self, op, results):
        w = self.world
        chk = op.get('chk', 1)
        # NumPy does not always sum terms from left to right:
        ntol = 1e-9 if op['o'] in ('asum', 'sum') else 0.
        if chk:
            for (slot, _) in results:
                if slot not in w.m:
                    continue    # Operation in place
                w.check_result(slot, deep=chk >= 2, ntol=ntol)
        if op['o'] == 'set' or chk >= 3:
            w.check_variables()
        if chk >= 4:
            w.check_everything(self.rng)

    def _check_bad(self, op):
        self.world.check_variables()

    def _after_fault(self, op):
        w = self.world
        if op['o'] == 'set':
            # All or nothing:
            (vid, s) = w._setting
            now = w.real_var[vid].std_dev
            if not (model.same_float(now, w.s[vid])
                    or model.same_float(now, float(s))):
                raise Problem('interrupted change of an uncertainty: %r'
                              ' instead of %r or %r' % (now, w.s[vid], s))
            w.s[vid] = float(now)
        w.check_variables()
        if op.get('fchk', 0) >= 2:
            w.check_everything(self.rng)

    # -- run ---------------------------------------------------------------

    def body(self, ops):
        def run(task):
            if self.settings is not None:
                self.settings.begin()
            for op in ops:
                if self.problem is not None:
                    break
                self.exec_op(op, task)
        return run

    def run_handler(self, index):
        "Operations of a handler that interrupts the current operation"
        w = self.world
        # An iterator of derivatives that is being used by the interrupted
        # operation cannot be used by the handler (numerical derivatives are
        # used instead):
        w.in_handler += 1
        try:
            for op in self.plan['handlers'][index]:
                self.exec_op(op, None, traced=False)
        finally:
            w.in_handler -= 1

    def after_tasks(self):
        pass

    def run(self):
        plan = self.plan
        self.kernel.run_handler = self.run_handler
        self.addresses = None
        if plan.get('addresses'):
            self.addresses = addresses.Recycled(plan['seed'])
            addresses.install(self.addresses)
        if plan.get('traced', True):
            self.kernel.install()
        if plan.get('settings'):
            self.settings = settings.Watch(
                len(plan['tasks']) > 1, plan['seed'])
        for op in plan.get('prelude', ()):
            self.exec_op(op, None, traced=False)
        k = self.kernel
        if self.problem is None:
            tasks = plan['tasks']
            if len(tasks) == 1:
                k.run_inline(self.body(tasks[0]))
            elif tasks:
                k.run_tasks([self.body(ops) for ops in tasks])
            for task in k.tasks:
                if task.crash:
                    raise RuntimeError('harness: '+task.crash)
            if k.problem and self.problem is None:
                self.problem = k.problem
        k.fault_free = True
        if self.problem is None:
            self.after_tasks()
        for op in plan.get('post', ()):
            self.exec_op(op, None, traced=False)
        if self.problem is None and plan.get('final', True):
            try:
                self.world.check_everything(self.rng)
            except Problem as exc:
                self.problem = 'final checks: %s' % exc
            except Exception as exc:
                self.problem = 'final checks: unexpected exception: %s' % (
                    traceback.format_exc()[-900:])
        if self.problem is None and self.settings is not None:
            self.check_settings({'o': 'end'}, True)
        if self.problem is None and plan.get('memory'):
            from . import memory
            self.problem = memory.check_end(self)
        return self.result()

    def result(self):
        k = self.kernel
        sig = hashlib.sha1(repr(
            (k.switch_sites, [ev[3:] for ev in k.trace if ev[3] != 'switch']
             )).encode()).hexdigest()[:16]
        return {
            'problem': self.problem,
            'trace': k.trace,
            'stats': {
                'steps': k.step, 'ops': self.n_ops, 'skipped': self.n_skipped,
                'switches': k.n_switch, 'blocked': k.n_forced,
                'fired': k.fired, 'checks': self.world.n_checks,
                'outcomes': self.outcomes, 'kinds': self.kinds,
                'addresses_reused': getattr(
                    self.addresses, 'n_reused', 0),
                'op_steps': k.max_op_steps, 'probes': self.world.probes,
                'sig': sig, 'nontrivial': bool(
                    k.n_switch or k.fired or self.outcomes.get('callback')
                    or self.outcomes.get('nomem')
                    or self.outcomes.get('stack')
                    or self.outcomes.get('warning')),
            }}


def run_plan(plan):
    return Run(plan).run()
