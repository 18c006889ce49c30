"""Controlled scheduler: runs real threads one at a time and decides at every step of the code under test which one goes on.

A step is one 'line' (or one 'opcode') trace event in a frame of the sqlparams package. Locks created by the package are replaced
by cooperative ones, so that waiting is visible. Executions are explored depth first up to a bound on preemptions (switching
away from a thread that could go on); switches at the end of a thread, or where it blocks, are free.
"""
import os
import sys
import threading
import _thread

from . import repo

REAL_LOCK = _thread.allocate_lock
PKG = os.path.abspath(repo.PKG) + os.sep


class Deadlock(Exception):
    pass


class Stop(Exception):
    pass


class Abandon(BaseException):
    """Ends a thread of an execution that is given up."""


class Execution:
    """One run under one schedule. deviations: {decision index: thread id}; everything else is the default choice."""

    def __init__(self, deviations, opcodes=False):
        self.dev = deviations
        self.opcodes = opcodes
        self.points = []        # (running thread or None, tuple of enabled threads, chosen)
        self.current = None
        self.blocked = {}       # thread id -> lock it waits for
        self.finished = set()
        self.results = {}
        self.deadlock = False
        self.dead = False
        self.steps = 0
        self.diverged = False
        self.outside = set()    # threads that wait for something the scheduler does not see
        self.stalls = 0

    # -- called with exactly one thread running ------------------------------------------------------------------------------
    def enabled(self):
        return tuple(t for t in range(self.n) if t not in self.finished and t not in self.outside and
                     (t not in self.blocked or self.blocked[t].owner is None))

    def decide(self, running):
        """Next thread to run; running: the current one if it could go on, else None."""
        en = self.enabled()
        if not en:
            return None
        idx = len(self.points)
        choice = self.dev.get(idx)
        if choice is None:
            choice = running if running is not None else en[0]
        elif choice not in en:
            self.diverged = True    # counted by the check; the execution itself is still a real one
            choice = running if running is not None else en[0]
        self.points.append((running, en))
        return choice

    def hand_over(self, me, to):
        self.gates[to].release()
        self.gates[me].acquire()
        if self.dead:
            raise Abandon()

    def come_back(self, me):
        """A thread that waited for something the scheduler does not see (see stalled) takes part again."""
        with self.mutex:
            self.outside.discard(me)
            if self.current is None:
                self.current = me
                return
        self.gates[me].acquire()
        if self.dead:
            raise Abandon()

    def step(self, me):
        while True:
            with self.mutex:
                if me not in self.outside:
                    self.steps += 1
                    to = self.current = self.decide(me)
                    break
            self.come_back(me)
        if to != me:
            self.hand_over(me, to)

    def wait_for(self, me, lock):
        while True:
            with self.mutex:
                if me not in self.outside:
                    self.steps += 1
                    if lock.owner is None:
                        return
                    self.blocked[me] = lock
                    to = self.current = self.decide(None)
                    stuck = to is None and not self.outside
                    break
            self.come_back(me)
        if stuck:
            self.deadlock = True
            self.give_up(me)
            raise Abandon()
        if to is None:      # threads outside may still release the lock
            while lock.owner is not None and not self.dead:
                self.gates[me].acquire(timeout=0.01)
            if self.dead:
                raise Abandon()
            with self.mutex:
                del self.blocked[me]
                self.outside.add(me)
            self.come_back(me)
            return
        if to != me:
            self.hand_over(me, to)
        del self.blocked[me]

    def give_up(self, me):
        self.dead = True
        for t in range(self.n):
            if t != me and t not in self.finished:
                try:
                    self.gates[t].release()
                except RuntimeError:
                    pass
        self.all_done.release()

    def finish(self, me):
        with self.mutex:
            self.finished.add(me)
            self.outside.discard(me)
            if self.dead:
                return
            if len(self.finished) == self.n:
                self.all_done.release()
                return
            if self.current not in (me, None):
                return
            to = self.decide(None)
            self.current = to
            if to is not None:
                self.gates[to].release()
            elif not self.outside:
                self.deadlock = True
                self.give_up(me)

    def stalled(self):
        """The running thread makes no step: it waits for something the scheduler cannot see, such as an import lock. Another one
        goes on meanwhile (the execution stays a real one). Returns whether anything can still happen."""
        with self.mutex:
            cur = self.current
            if cur is None:
                return False
            if cur in self.finished or cur in self.outside:
                return True
            self.outside.add(cur)
            self.stalls += 1
            to = self.decide(None)
            self.current = to
            if to is not None:
                self.gates[to].release()
            return True

    # -- threads --------------------------------------------------------------------------------------------------------------
    def tracer(self, me):
        step = self.step
        opcodes = self.opcodes
        event_name = "opcode" if opcodes else "line"

        def local(frame, event, arg):
            if event == event_name:
                step(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKG):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def body(self, me, fn):
        self.gates[me].acquire()
        if self.dead:
            return
        try:
            sys.settrace(self.tracer(me))
            try:
                r = ("ok", fn())
            except Abandon:
                return
            except Exception as e:
                r = ("err", e)
            finally:
                sys.settrace(None)
            self.results[me] = r
        finally:
            self.finish(me)

    def run(self, bodies):
        global ACTIVE
        self.n = len(bodies)
        self.gates = [REAL_LOCK() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.all_done = REAL_LOCK()
        self.all_done.acquire()
        self.mutex = REAL_LOCK()
        self.ids = {}
        ACTIVE = self
        threads = []
        for k, fn in enumerate(bodies):
            _thread.start_new_thread(self._entry, (k, fn))
        first = self.decide(None)
        self.current = first
        self.gates[first].release()
        global STALLS
        wait = 0.1 if STALLS < 20 else 0.002    # once waits outside the scheduler are known to happen, notice them faster
        ok = self.all_done.acquire(timeout=wait)
        seen, idle = -1, 0
        while not ok and idle < 5:
            if self.steps == seen:
                idle = 0 if self.stalled() else idle + wait
            else:
                seen, idle = self.steps, 0
            ok = self.all_done.acquire(timeout=wait)
        STALLS += self.stalls > 0
        ACTIVE = None
        if not ok:
            self.deadlock = True
            self.dead = True
            for g in self.gates:
                try:
                    g.release()
                except RuntimeError:
                    pass
        return self

    def _entry(self, k, fn):
        self.ids[_thread.get_ident()] = k
        self.body(k, fn)


class Crowd(Execution):
    """Every thread goes on to its p-th step and stops there; then all finish, in the order they came or the other way round; or
    the threads take turns of p steps each."""

    def __init__(self, p, order, opcodes=False):
        super().__init__({}, opcodes)
        self.p, self.order = p, order
        self.took = {}
        self.turn = 0

    def decide(self, running):
        en = self.enabled()
        if not en:
            return None
        if self.order == "turns":
            if running is None or self.turn >= self.p:
                self.turn = 0
                last = self.points[-1][2] if self.points else self.n - 1
                choice = next((t for t in en if t > last), en[0])
            else:
                choice = running
            self.turn += 1
        else:
            waiting = [t for t in en if self.took.get(t, 0) < self.p]
            choice = waiting[0] if waiting else en[0] if self.order == "fifo" else en[-1]
        self.took[choice] = self.took.get(choice, 0) + 1
        self.points.append((running, en, choice))
        return choice


def crowd(build, check, ps, orders, opcodes=False):
    """All the executions of Crowd for the steps ps (None: as many as the longest thread takes) and orders."""
    p = 1
    for p in range(1, 10 ** 6) if ps is None else ps:
        longest = 0
        for order in orders:
            ex = Crowd(p, order, opcodes)
            with patched_locks():
                ex.run(build())
            check(ex, {"step": p, "order": order})
            if ex.deadlock:
                return
            longest = max([longest] + list(ex.took.values()))
        if ps is None and p > longest:
            break


ACTIVE = None
STALLS = 0          # executions of this process in which a thread waited outside the scheduler


class CoopLock:
    """Stands for threading.Lock / RLock in the code under test."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        ex = ACTIVE
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if ex is None or me not in ex.ids:
                raise Deadlock("lock held and nobody to release it")
            if timeout is not None and timeout >= 0:
                return False
            ex.wait_for(ex.ids[me], self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        count, self.count, self.owner = self.count, 0, None
        return count

    def _acquire_restore(self, count):
        self.acquire()
        self.count = count

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def fresh_package():
    """A pristine copy of the package whose locks are cooperative."""
    saved = threading.Lock, threading.RLock, _thread.allocate_lock
    threading.Lock = CoopLock
    threading.RLock = lambda: CoopLock(True)
    _thread.allocate_lock = CoopLock
    try:
        return repo.fresh()
    finally:
        threading.Lock, threading.RLock, _thread.allocate_lock = saved


class patched_locks:
    """Locks made while the instances are built and an execution runs are cooperative too."""

    def __enter__(self):
        self.saved = threading.Lock, threading.RLock, threading._allocate_lock
        threading.Lock = threading._allocate_lock = CoopLock
        threading.RLock = lambda: CoopLock(True)

    def __exit__(self, *a):
        threading.Lock, threading.RLock, threading._allocate_lock = self.saved


def explore(build, check, bound, opcodes=False, part=(0, 1), report=None):
    """All schedules with at most `bound` preemptions. build() -> thread bodies; check(execution, schedule).

    part=(k, m): of the alternatives branching off the default schedules, explore every m-th (the parts together are complete).
    """
    def run(dev):
        ex = Execution(dev, opcodes)
        with patched_locks():
            ex.run(build())
        check(ex, dev)
        if ex.deadlock:
            raise Stop()
        return ex

    def branches(ex, dev, cost, top):
        last = max(dev) if dev else -1
        for i in range(last + 1, len(ex.points)):
            running, en = ex.points[i]
            c = cost + (running is not None)
            if c > bound:
                continue
            default = running if running is not None else en[0]
            for alt in en:
                if alt != default:
                    if top is not None:
                        top[0] += 1
                        if top[0] % part[1] != part[0]:
                            continue
                    yield {**dev, i: alt}, c

    def go(dev, cost, ex=None, top=None):
        ex = ex or run(dev)
        for d, c in branches(ex, dev, cost, top):
            go(d, c)

    if opcodes:
        with patched_locks():       # the interpreter reports only some of the instructions the first time a process asks for them
            Execution({}, True).run(build())
    root = Execution({}, opcodes)
    with patched_locks():
        root.run(build())
    if part[0] == 0 or root.deadlock:
        check(root, {})
    try:
        if not root.deadlock:
            go({}, 0, ex=root, top=[-1])
    except Stop:
        pass            # reported; every further schedule may wait as long
