"""
Deterministic simulation kernel.

Tasks are real threads, parked on private locks: exactly one of them runs at
any time, and the kernel decides which.  The only points where control can
pass from one task to another, or where a fault can happen, are the bytecodes
of the code under test before which CPython really can run another thread or a
signal handler (after a call, at the start of a function or of an iteration),
the acquisition of a simulated lock, and the boundaries of operations.  All decisions come from a random
generator seeded by the plan, or from a recorded list of decisions (replay).

A decision is identified by (task, operation uid, number of steps executed in
that operation): this makes recorded decisions meaningful even after other
operations have been removed (minimisation).
"""

import _thread
import dis
import gc
import sys
import threading
import types

_alloc = _thread.allocate_lock   # real locks, kept before any patch


class SimStop(BaseException):
    "Raised in a task to stop it (step budget exceeded, deadlock)."


class SimTimeout(Exception):
    "Exception raised by an (imaginary) alarm signal handler."


class SimCancelled(BaseException):
    "Exception injected into a thread to cancel it."


FAULTS = {
    'KI': KeyboardInterrupt,
    'ME': MemoryError,
    'TO': SimTimeout,
    'SE': SystemExit,
    'CA': SimCancelled,
}


def _eligible_offsets(code):
    """
    Offsets of the instructions before which CPython can run another thread
    or signal handlers: after a call, at the beginning of a function and at
    the beginning of an iteration.
    """
    result = set()
    after = False
    for ins in dis.get_instructions(code):
        if after:
            result.add(ins.offset)
        after = ins.opname in ('CALL', 'CALL_FUNCTION_EX', 'RESUME')
        if ins.opname.startswith('JUMP_BACKWARD'):
            result.add(ins.argval)
    return result


def _line_offsets(code):
    """
    Also the beginning of all the lines (where debuggers, profilers, other
    interpreters and other versions of CPython can do the same).  This does not
    apply to functions that use a context manager: a lock would never be
    released if an exception could come between its release by __exit__() and
    the end of the with statement.
    """
    result = _eligible_offsets(code)
    if not any(ins.opname == 'BEFORE_WITH'
               for ins in dis.get_instructions(code)):
        starts = set(offset for (offset, line) in dis.findlinestarts(code)
                     if line is not None and offset)
        # (Not the internal instructions of exception handlers,
        # and not those, like NOP, that can be out of their range.)
        result.update(ins.offset for ins in dis.get_instructions(code)
                      if ins.offset in starts
                      and ins.opname.startswith(('LOAD_', 'PUSH_NULL',
                                                 'BUILD_', 'CALL')))
    return result


ELIGIBLE = {}      # code id -> (code, offsets)
LINES = {}


def eligible(code, offset, lines=False):
    cache = LINES if lines else ELIGIBLE
    entry = cache.get(id(code))
    if entry is None:
        entry = (code, (_line_offsets if lines else _eligible_offsets)(code))
        cache[id(code)] = entry
    return offset in entry[1]


TOOL = 4
MON = sys.monitoring


def instrument(traced_globals):
    """
    Makes the interpreter report each instruction executed by the functions
    that have the given globals.
    """
    MON.use_tool_id(TOOL, 'simulator')
    seen = set()

    def visit(code):
        if id(code) in seen:
            return
        seen.add(id(code))
        MON.set_local_events(TOOL, code, MON.events.INSTRUCTION)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                visit(const)
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and (
                id(obj.__globals__) in traced_globals):
            visit(obj.__code__)
    return len(seen)


class Task(object):

    def __init__(self, tid):
        self.tid = tid
        self.baton = None
        self.state = 'ready'     # ready, blocked, done
        self.waiting_for = None
        self.uid = None          # Current operation
        self.k0 = 0              # Global step at k = 0, while running
        self.kdone = 0           # Steps done, while parked
        self.injected = []       # Exceptions raised by the simulator
        self.events = []         # Replay: decisions for the current op
        self.crash = None
        self.op_budget = None    # None: default one
        self.in_handler = False


class Kernel(object):

    current = None  # The kernel in use, for simulated locks

    def __init__(self, plan, rng, budget=2000000):
        sched = plan.get('sched', {})
        self.rng = rng
        self.mode = sched.get('mode', 'policy')   # or 'replay'
        self.switch_mean = sched.get('switch_mean')     # None: no switch
        self.fault_mean = sched.get('fault_mean')       # None: no fault
        self.fault_kinds = sched.get('fault_kinds', ['KI'])
        self.max_faults = sched.get('max_faults', 3)
        self.priorities = sched.get('pct')   # number of change points
        self.gc_mean = sched.get('gc_mean')
        # Handlers (of signals, etc.), run in the middle of operations:
        self.handler_mean = sched.get('handler_mean')
        self.n_handlers = len(plan.get('handlers', ()))
        self.handlers_done = set()
        self.run_handler = None
        self.lines = bool(sched.get('lines'))
        self.op_budget = budget
        self.step = 0
        self.stop = 1 << 60
        self.tasks = []
        self.cur = None
        self.in_op = False
        self.faultable = True
        self.trace = []          # Decisions made
        self.fired = {}
        self.n_switch = 0
        self.n_forced = 0
        self.switch_sites = []
        self.problem = None      # 'budget', 'deadlock'
        self.n_faults = 0
        self.max_op_steps = 0
        self.done_lock = None
        self.recorded = {}
        if self.mode == 'replay':
            for ev in sched.get('decisions', []):
                self.recorded.setdefault((ev[0], ev[1]), []).append(ev)
        self.next_switch = self._gap(self.switch_mean)
        self.next_fault = self._gap(self.fault_mean)
        self.next_gc = self._gap(self.gc_mean)
        self.next_handler = self._gap(self.handler_mean)

    # -- random gaps -------------------------------------------------------

    def _gap(self, mean):
        if not mean or self.mode == 'replay':
            return 1 << 60
        return self.step + 1 + int(self.rng.expovariate(1.0 / mean))

    # -- tracing -----------------------------------------------------------

    def install(self):
        "Starts to listen to the instructions executed"
        self.in_op = False
        MON.register_callback(TOOL, MON.events.INSTRUCTION,
                              self.on_instruction)

    @staticmethod
    def uninstall():
        MON.register_callback(TOOL, MON.events.INSTRUCTION, None)

    def on_instruction(self, code, offset):
        if self.in_op:
            self.step += 1
            if self.step >= self.stop:
                self.on_stop(code, offset)

    # -- operations --------------------------------------------------------

    def op_begin(self, uid, faultable=True):
        "Beginning of an operation of the current task."
        task = self.cur
        task.uid = uid
        task.k0 = self.step
        task.injected = []
        self.faultable = faultable
        task.faultable = faultable
        self.in_op = True
        if self.mode == 'replay':
            task.events = sorted(
                (ev for ev in self.recorded.get((task.tid, uid), ())
                 if ev[2] >= 0), key=lambda ev: ev[2])
        self._compute_stop()
        # A switch is possible before the operation:
        if self.mode == 'replay':
            while task.events and task.events[0][2] == 0:
                ev = task.events.pop(0)
                if ev[3] == 'switch':
                    self._switch(ev[4])
        elif self.step >= self.next_switch:
            self.next_switch = self._gap(self.switch_mean)
            self._random_switch()
        self._compute_stop()

    def op_end(self):
        task = self.cur
        used = self.step - task.k0
        if used > self.max_op_steps:
            self.max_op_steps = used
        self.in_op = False
        self.stop = 1 << 60

    def _compute_stop(self):
        task = self.cur
        stop = task.k0 + (task.op_budget or self.op_budget)
        if self.mode == 'replay':
            if task.events:
                stop = min(stop, task.k0 + task.events[0][2])
        else:
            stop = min(stop, self.next_switch, self.next_gc,
                       self.next_handler)
            if self.faultable:
                stop = min(stop, self.next_fault)
        self.stop = stop

    def on_stop(self, code, offset):
        task = self.cur
        k = self.step - task.k0
        if k >= (task.op_budget or self.op_budget):
            self.problem = 'budget'
            self._throw(task, SimStop('step budget exceeded'))
        if not eligible(code, offset, self.lines):
            return
        if self.mode == 'replay':
            while task.events and task.events[0][2] <= k:
                ev = task.events.pop(0)
                self._compute_stop()
                if ev[3] == 'switch':
                    self._switch(ev[4], code, offset)
                elif ev[3] == 'gc':
                    self._collect()
                elif ev[3] == 'handler':
                    self._handle(ev[4])
                else:
                    self._raise(ev[3], code, offset)
            self._compute_stop()
            return
        if self.step >= self.next_gc:
            self.trace.append([task.tid, task.uid, k, 'gc'])
            self._collect()
            self.next_gc = self._gap(self.gc_mean)
        if self.step >= self.next_handler:
            left = [i for i in range(self.n_handlers)
                    if i not in self.handlers_done]
            if left:
                self.next_handler = self._gap(self.handler_mean)
                self._handle(left[0])
            else:
                self.next_handler = 1 << 60
        if self.faultable and self.step >= self.next_fault:
            if self.n_faults >= self.max_faults:
                self.next_fault = 1 << 60
            else:
                kind = self.rng.choice(self.fault_kinds)
                self.next_fault = self._gap(self.fault_mean)
                self._compute_stop()
                self._raise(kind, code, offset)
        if self.step >= self.next_switch:
            self.next_switch = self._gap(self.switch_mean)
            self._random_switch(code, offset)
        self._compute_stop()

    # -- faults ------------------------------------------------------------

    def _raise(self, kind, code, offset):
        task = self.cur
        k = self.step - task.k0
        self.trace.append([task.tid, task.uid, k, kind, '%s:%d' % (
            code.co_name, line_of(code, offset))])
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.n_faults += 1
        self._throw(task, FAULTS[kind]('injected by the simulator'))

    def _throw(self, task, exc):
        task.injected.append(exc)
        raise exc

    def _collect(self):
        self.fired['gc'] = self.fired.get('gc', 0) + 1
        gc.collect()

    def _handle(self, index):
        """
        Runs a handler (of a signal, etc.) in the middle of the current
        operation.
        """
        if index in self.handlers_done or index >= self.n_handlers:
            return
        self.handlers_done.add(index)
        task = self.cur
        self.trace.append([task.tid, task.uid, self.step - task.k0, 'handler',
                           index])
        self.fired['handler'] = self.fired.get('handler', 0) + 1
        self.in_op = False
        task.in_handler = True
        try:
            self.run_handler(index)
        finally:
            task.in_handler = False
            self.in_op = True
            self._compute_stop()

    def alone(self):
        "The current task is the only one, from now on, and has no fault"
        self.tasks = [self.cur]
        self.next_switch = self.next_fault = self.next_gc = 1 << 60
        self.next_handler = 1 << 60
        self.switch_mean = self.fault_mean = self.gc_mean = None
        self.handler_mean = None
        self.cur.events = []
        self.recorded = {}

    # -- scheduling --------------------------------------------------------

    def _runnable(self):
        return [t for t in self.tasks if t.state == 'ready']

    def _random_switch(self, code=None, offset=None):
        others = [t for t in self._runnable() if t is not self.cur]
        if not others:
            return
        if self.priorities:
            # PCT-like: the running task loses its priority and the one with
            # the highest priority runs.
            self.cur.prio = min(t.prio for t in self.tasks)-1
            target = max(others, key=lambda t: t.prio)
        else:
            target = self.rng.choice(others)
        task = self.cur
        self.trace.append([task.tid, task.uid, self.step - task.k0, 'switch',
                           target.tid])
        self._switch(target.tid, code, offset, record=False)

    def _switch(self, tid, code=None, offset=None, record=True):
        target = self.tasks[tid] if tid < len(self.tasks) else None
        if target is None or target.state != 'ready' or target is self.cur:
            return
        if record:
            task = self.cur
            self.trace.append([task.tid, task.uid, self.step - task.k0,
                               'switch', tid])
        self.n_switch += 1
        if code is not None and len(self.switch_sites) < 200:
            self.switch_sites.append(
                (code.co_name, offset, self.cur.tid, tid))
        self._transfer(target)

    def _transfer(self, target):
        cur = self.cur
        cur.kdone = self.step - cur.k0
        was_in_op = self.in_op
        self._resume(target)
        cur.baton.acquire()
        # Somebody gave control back to us:
        self.in_op = was_in_op

    def _resume(self, target):
        self.cur = target
        target.k0 = self.step - target.kdone
        self.faultable = getattr(target, 'faultable', True)
        self._compute_stop()
        target.baton.release()

    def forced_switch(self, why):
        "The current task cannot continue: another one must run."
        cur = self.cur
        others = [t for t in self._runnable() if t is not cur]
        if not others:
            return False
        self.n_forced += 1
        key = [cur.tid, cur.uid, -1, why]
        target = None
        if self.mode == 'replay':
            lst = self.recorded.get((cur.tid, cur.uid), [])
            for ev in lst:
                if ev[2] == -1 and ev[3] == why:
                    lst.remove(ev)
                    cand = self.tasks[ev[4]] if ev[4] < len(self.tasks) else None
                    if cand in others:
                        target = cand
                    break
            if target is None:
                target = others[0]
        elif self.priorities:
            target = max(others, key=lambda t: t.prio)
        else:
            target = self.rng.choice(others)
        self.trace.append(key + [target.tid])
        if why == 'end':
            cur.kdone = 0
            self._resume(target)
        else:
            self._transfer(target)
        return True

    def run_tasks(self, bodies):
        "Runs the given functions as simulated threads, until all are done."
        self.tasks = [Task(i) for i in range(len(bodies))]
        prios = list(range(len(bodies)))
        self.rng.shuffle(prios)
        self.done_lock = _alloc()
        self.done_lock.acquire()
        for (task, body, prio) in zip(self.tasks, bodies, prios):
            task.prio = prio
            task.baton = _alloc()
            task.baton.acquire()
            _thread.start_new_thread(self._task_main, (task, body))
        Kernel.current = self
        if self.priorities:
            first = max(self.tasks, key=lambda t: t.prio)
        else:
            first = self.rng.choice(self.tasks)
        if self.mode == 'replay':
            for ev in self.recorded.get((-1, None), ()):
                if ev[4] < len(self.tasks):
                    first = self.tasks[ev[4]]
        self.trace.append([-1, None, -1, 'first', first.tid])
        self.cur = first
        first.baton.release()
        self.done_lock.acquire()
        Kernel.current = None
        self.in_op = False

    def _task_main(self, task, body):
        task.baton.acquire()
        self.in_op = False
        try:
            body(task)
        except BaseException as exc:   # Bug in the harness
            import traceback
            task.crash = traceback.format_exc()
        task.state = 'done'
        self.in_op = False
        task.uid = 'end'
        if not self.forced_switch('end'):
            left = [t for t in self.tasks if t.state == 'blocked']
            if left:
                # Deadlock: blocked tasks are released one after the other
                self.problem = 'deadlock'
                nxt = left[0]
                nxt.state = 'ready'
                self._resume(nxt)
            else:
                self.done_lock.release()

    def run_inline(self, body):
        "Runs a single task in the current thread."
        task = Task(0)
        task.prio = 0
        self.tasks = [task]
        self.cur = task
        Kernel.current = self
        body(task)
        Kernel.current = None

    # -- locks -------------------------------------------------------------

    def block_on(self, lock):
        "The current task waits for a simulated lock."
        cur = self.cur
        cur.state = 'blocked'
        cur.waiting_for = lock
        if not self.forced_switch('block'):
            cur.state = 'ready'
            cur.waiting_for = None
            self.problem = 'deadlock'
            self._throw(cur, SimStop('deadlock'))
        if cur.waiting_for is not None and self.problem == 'deadlock':
            cur.waiting_for = None
            self._throw(cur, SimStop('deadlock'))

    def wake(self, lock):
        for t in self.tasks:
            if t.state == 'blocked' and t.waiting_for is lock:
                t.state = 'ready'
                t.waiting_for = None


class SimLock(object):
    "Lock whose waits are decided by the simulator."

    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        k = Kernel.current
        return ('main',) if k is None or k.cur is None else k.cur

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self._owner is me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking or timeout == 0:
                return False
            k = Kernel.current
            if k is None:
                raise SimStop('deadlock (single thread)')
            if timeout is not None and timeout > 0:
                # Timers have no duration here: the wait can end at any time
                if not k.forced_switch('wait'):
                    return False
                if self._owner is not None:
                    return False
                continue
            k.block_on(self)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None or (self.reentrant
                                   and self._owner is not self._me()):
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            if Kernel.current is not None:
                Kernel.current.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    # For threading.Condition:
    def _is_owned(self):
        return self._owner is self._me()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        if Kernel.current is not None:
            Kernel.current.wake(self)
        return state

    def _acquire_restore(self, state):
        self.acquire()
        (self._count, self._owner) = state

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _recursion_count(self):
        return self._count if self._is_owned() else 0


class SimRLock(SimLock):
    reentrant = True


def patch_locks():
    "Puts locks created from now on under the control of the simulator."
    for mod in (threading, _thread):
        for name in ('Lock', 'allocate_lock', '_allocate_lock', 'allocate',
                     'LockType'):
            if mod is _thread and name == 'LockType':
                continue
            if hasattr(mod, name) and name != 'LockType':
                setattr(mod, name, SimLock)
        for name in ('RLock', '_CRLock', '_PyRLock'):
            if hasattr(mod, name):
                setattr(mod, name, SimRLock)


def line_of(code, offset):
    line = 0
    for (start, end, lineno) in code.co_lines():
        if start <= offset < end:
            line = lineno
    return line or 0
