"""Seam for threads: real threads of which exactly one runs at a time; who runs on is decided at each line of the library.

Every thread is parked on its own semaphore and released by the thread that hands over to it.  A schedule is a list of
[step, choice]: at the given step - counted over all threads, one per source line of the code in scope - the running
thread hands over to the choice-th other runnable thread.  Threads that end or block hand over to the lowest runnable one.
"""

import os
import sys
import threading
import _thread

HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep

CURRENT = None  # the scheduler of this process while threads run


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class SimLock:
    """A lock created by the library: blocks by handing over."""

    def __init__(self, reentrant=False):
        self._real = _thread.allocate_lock()
        self._reentrant, self._owner, self._depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._depth += 1
            return True
        while not self._real.acquire(False):
            if not blocking:
                return False
            if CURRENT is None or not CURRENT.inside():
                if timeout is not None and timeout >= 0:
                    if not self._real.acquire(True, timeout):
                        return False
                else:
                    self._real.acquire()
                break
            if timeout is not None and timeout >= 0:
                return False  # a simulated wait takes no time
            CURRENT.block(self)
        self._owner, self._depth = me, 1
        return True

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._depth -= 1
            if self._depth:
                return
        self._owner = None
        self._real.release()
        if CURRENT is not None and CURRENT.inside():
            CURRENT.unblock(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


def patch_threading():
    """Locks made by qp become simulated ones.  To be called before qp is imported."""

    def maker(real, reentrant):
        def make(*a, **k):
            name = sys._getframe(1).f_globals.get("__name__", "")
            return SimLock(reentrant) if name == "qp" or name.startswith("qp.") else real(*a, **k)

        return make

    threading.Lock = maker(threading.Lock, False)
    threading.RLock = maker(threading.RLock, True)


class Scheduler:
    def __init__(self, programs, switches, ctx, roots, faults=()):
        """programs: one function per thread.  faults: [thread, its n-th step, exception]"""
        self.ctx, self.n = ctx, len(programs)
        self.programs, self.roots = programs, tuple(roots)
        self.switches = sorted((int(a), int(b)) for a, b in switches)
        self.pos = self.steps = 0
        self.own = [0] * self.n
        self.faults = {(f[0], f[1]): f[2] for f in faults}
        self.sems = [threading.Semaphore(0) for _ in programs]
        self.state = ["ready"] * self.n  # ready, blocked, done
        self.waiting = {}
        self.ids = {}
        self.running = None
        self.errors = [None] * self.n
        self.abort = None
        self.done = threading.Semaphore(0)
        self.nswitch = 0
        self.ours = {}
        self.where = set()
        self.seen, self.novel = set(), []  # lines met, and the steps at which a thread met one for the first time
        self.last_line = [None] * self.n

    def inside(self):
        return _thread.get_ident() in self.ids

    # -------------------------------------------------------- run by the threads

    def _global(self, frame, event, arg):
        code = frame.f_code
        ours = self.ours.get(code)
        if ours is None:
            f = code.co_filename
            ours = self.ours[code] = f.startswith(self.roots)
        return self._local if ours else None

    def _local(self, frame, event, arg):
        if event == "line":
            self._step(frame)
        return self._local

    def _step(self, frame):
        me = self.ids[_thread.get_ident()]
        self.last_line[me] = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
        step, self.steps = self.steps, self.steps + 1
        mine, self.own[me] = self.own[me], self.own[me] + 1
        line = (me, frame.f_code, frame.f_lineno)
        if line not in self.seen:
            self.seen.add(line)
            self.novel.append(step)
        if self.pos < len(self.switches) and self.switches[self.pos][0] <= step and not self.holds():
            choice = self.switches[self.pos][1]
            self.pos += 1
            others = [t for t in range(self.n) if t != me and self.state[t] == "ready"]
            if others:
                to = others[choice % len(others)]
                self.nswitch += 1
                self.where.add((self.last_line[me], self.last_line[to]))
                self._hand_over(me, to)
        exc = self.faults.pop((me, mine), None)
        if exc is not None:
            self.ctx.fault(f"{exc.__name__} in a thread")
            raise exc("simulated")

    @staticmethod
    def holds():
        """Whether the running thread holds h5py's lock (while it loops over a group), which others would wait for.

        The hand-over is put off until it does not."""
        h5 = sys.modules.get("h5py._objects")
        return h5 is not None and h5.phil._is_owned()

    def _hand_over(self, me, to):
        self.running = to
        self.sems[to].release()
        self._park(me)

    def _park(self, me):
        self.sems[me].acquire()
        if self.abort:
            raise _Abort()

    def block(self, lock):
        me = self.ids[_thread.get_ident()]
        self.state[me], self.waiting[me] = "blocked", lock
        ready = [t for t in range(self.n) if self.state[t] == "ready"]
        if not ready:
            self.abort = Deadlock(f"threads {[t for t in range(self.n) if self.state[t] == 'blocked']} wait for each other's locks")
            for t in range(self.n):
                if t != me:
                    self.sems[t].release()
            raise _Abort()
        self._hand_over(me, ready[0])

    def unblock(self, lock):
        for t, l in list(self.waiting.items()):
            if l is lock:
                self.state[t] = "ready"
                del self.waiting[t]

    def _body(self, me):
        self.ids[_thread.get_ident()] = me
        try:
            self._park(me)
            sys.settrace(self._global)
            try:
                self.programs[me]()
            finally:
                sys.settrace(None)
        except _Abort:
            pass
        except BaseException as x:  # pylint: disable=broad-except
            self.errors[me] = x
        self.state[me] = "done"
        ready = [t for t in range(self.n) if self.state[t] == "ready"]
        if self.abort:
            pass
        elif ready:
            self.running = ready[0]
            self.sems[ready[0]].release()
        elif any(s == "blocked" for s in self.state):
            self.abort = Deadlock("a thread ended while others wait for a lock it holds")
            for t in range(self.n):
                self.sems[t].release()
        self.done.release()

    # -------------------------------------------------------- run by the simulator

    def run(self):
        global CURRENT
        CURRENT = self
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        while len(self.ids) < self.n:
            threads[0].join(0.0005)
        self.running = 0
        self.sems[0].release()
        for _ in range(self.n):
            self.done.acquire()
        for t in threads:
            t.join()
        CURRENT = None
        if self.abort:
            self.ctx.fail("deadlock", str(self.abort))
        for x in self.errors:
            if x is not None:
                raise x


def gen_switches(rng, n_max=400):
    """Gaps from one line to thousands, so that both fine and coarse interleavings are met."""
    mode = rng.random()
    if mode < 0.25:
        # a handful of preemptions anywhere
        return sorted([int(10 ** rng.uniform(0, 3.6)), rng.randrange(3)] for _ in range(rng.randint(1, 5)))
    p = rng.choice([0.5, 0.2, 0.05, 0.01])
    # from the start, or a while later, when tables have been built
    out, step = [], int(10 ** rng.uniform(1, 3.3)) if rng.random() < 0.5 else 0
    while len(out) < min(n_max, int(4000 * p) + 1):
        step += 1 + int(rng.expovariate(p))
        out.append([step, rng.randrange(3)])
    return out


def gen_cuts(rng, n):
    """Schedules of one or two hand-overs, after which the others run until they end.

    [[where, fraction, choice], ...]: the place is given as a fraction of all steps, or - loops would take up nearly all
    of them - of the steps at which a thread comes to a line for the first time."""
    return [sorted([rng.choice(["new", "new", "any"]), rng.randrange(10000) / 10000, rng.randrange(3)] for _ in range(rng.choice([1, 1, 1, 2]))) for _ in range(n)]


def placed(cuts, s):
    """The switches that cuts mean, for threads that went through the schedule s"""
    return [[s.novel[int(f * len(s.novel))] if where == "new" else int(f * s.steps), c] for where, f, c in cuts if s.steps]
