"""
The scheduler: real Python threads of the code under test, of which exactly one runs at a time.

Which one is decided here, from the run's seed, at every yield point: each simulated I/O step, each simulated sleep or lock
wait, and (when the run asks for it) each source line or byte code executed inside ticdat.  A run is therefore an exact
function of its seed.  Time is virtual: when every task sleeps, the clock jumps to the first wake-up.
"""
import os
import random
import sys
import threading

from .world import W, SimCrash, SimStuck

RealLock, RealRLock = threading.Lock, threading.RLock
REAL_PATIENCE = 150      # real seconds without reaching a yield point before the harness gives up


class HarnessStuck(Exception):
    pass


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = threading.Semaphore(0)
        self.wake = None
        self.waiting = None
        self.done = False
        self.killed = False
        self.status = self.value = self.error = None
        self.start_at = self.end_at = None
        self.thread = None
        self.steps = 0
        self.counts = {}
        self.stalled = False


class Sched:
    """Sched(seed, p_io, p_line).run({name: fn}) -> {name: Task}"""

    def __init__(self, seed, p_io=.3, p_line=0.0, opcodes=False, is_repo_file=None, max_switches=200000,
                 start_delays=None, points=None):
        self.points = {(fn, line): occ for fn, line, occ in points or ()}   # stall whoever gets there first
        self.points_hit = 0
        self.rng = random.Random("sched:%s" % seed)
        self.p_io, self.p_line, self.opcodes = p_io, p_line, opcodes
        self.is_repo_file = is_repo_file or (lambda fn: False)
        self._repo_memo = {}
        self.control = threading.Semaphore(0)
        self.tasks = []
        self.current = None
        self.by_ident = {}
        self.switches = 0
        self.max_switches = max_switches
        self.seq = 0
        self.stuck = None
        self.killed = False
        self.start_delays = start_delays or {}
        self.on_switch = None
        self.trace_points = 0

    # -- called from task threads ---------------------------------------------------------------------------------
    def in_task(self):
        return threading.get_ident() in self.by_ident

    def me(self):
        return self.by_ident.get(threading.get_ident())

    def me_killed(self):
        t = self.by_ident.get(threading.get_ident())
        return t is not None and t.killed

    def current_name(self):
        t = self.by_ident.get(threading.get_ident())
        return t.name if t is not None else None

    def kill_current(self):
        """the calling task's process dies here; the others live on"""
        t = self.by_ident.get(threading.get_ident())
        t.killed = True
        from . import vfs
        vfs.DISK.kill_owner(t)

    def stamp(self):
        self.seq += 1
        return self.seq

    def _park(self, task):
        self.control.release()
        task.sem.acquire()
        if self.killed and not W.crashed:
            W.crashed = True

    def yield_point(self, step):
        task = self.by_ident.get(threading.get_ident())
        if task is None or task.done:
            return
        task.steps += 1
        if task.killed:
            return
        if self.killed:
            W.crashed = True
            return
        if self.rng.random() < self.p_io:
            self._park(task)

    def line_point(self, task):
        if self.killed or task.killed:
            raise SimCrash()
        if self.rng.random() < self.p_line:
            self.trace_points += 1
            self._park(task)
            if self.killed:
                raise SimCrash()

    def stall(self, task):
        """the task does not run again until every other one is done, or waits for something only it can provide"""
        if self.killed or task.killed:
            raise SimCrash()
        task.stalled = True
        self._park(task)
        task.stalled = False
        if self.killed:
            raise SimCrash()

    def sleep(self, seconds):
        task = self.by_ident[threading.get_ident()]
        task.wake = W.now + max(0.0, seconds)
        self._park(task)
        task.wake = None
        # (a killed process' sleep simply ends: the next step it takes is dead)

    def wait_until(self, predicate):
        """block the calling task until predicate() holds"""
        task = self.by_ident[threading.get_ident()]
        while not predicate():
            if self.killed:
                raise SimCrash()
            task.waiting = predicate
            self._park(task)
            task.waiting = None

    # -- tracing ------------------------------------------------------------------------------------------------------
    def _tracer(self, task):
        memo = self._repo_memo

        points, counts = self.points, task.counts
        if points:
            lines = {}
            for fn, line in points:
                lines.setdefault(os.path.basename(fn), set()).add(line)

            def local(frame, event, arg):
                if event == "line" and frame.f_lineno in lines.get(frame.f_code.co_filename.rsplit("/", 1)[-1], ()):
                    k = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    occ = points.get(k)
                    if occ is not None:
                        counts[k] = counts.get(k, 0) + 1
                        if counts[k] == occ:
                            del points[k]
                            self.points_hit += 1
                            W.record("stall", task.name, *k)
                            self.stall(task)
                if self.p_line and event == "line":
                    self.line_point(task)
                return local
        else:
            def local(frame, event, arg):
                if event == "line" and not self.opcodes or event == "opcode":
                    self.line_point(task)
                return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            ok = memo.get(fn)
            if ok is None:
                ok = memo[fn] = self.is_repo_file(fn)
            if not ok:
                return None
            if self.opcodes and not points:
                frame.f_trace_opcodes = True
            return local
        return glob

    def _body(self, task):
        self.by_ident[threading.get_ident()] = task
        task.sem.acquire()
        try:
            if self.killed:
                raise SimCrash()
            task.start_at = self.stamp()
            if self.p_line or self.points:
                sys.settrace(self._tracer(task))
            try:
                task.value = task.fn()
            finally:
                sys.settrace(None)
            task.status = "ok"
        except SimStuck as e:
            self.stuck = e
            task.status = "stuck"
        except SimCrash:
            task.status = "crashed"
        except BaseException as e:
            task.status, task.error = "error", e
        finally:
            sys.settrace(None)
            if W.crashed or task.killed:
                task.status = "crashed"
            task.end_at = self.stamp()
            task.done = True
            self.by_ident.pop(threading.get_ident(), None)
            self.control.release()

    # -- called from the main thread ----------------------------------------------------------------------------------
    def run(self, fns):
        """run all the functions to their end; W must be active. Returns {name: Task}"""
        W.sched = self
        for name, fn in fns.items():
            t = Task(name, fn)
            d = self.start_delays.get(name)
            if d:
                t.wake = W.now + d
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            self.tasks.append(t)
            t.thread.start()
        try:
            self._loop()
        finally:
            if not all(t.done for t in self.tasks):
                self.abandon()
            W.sched = None
        if self.stuck:
            raise SimStuck(str(self.stuck))
        for t in self.tasks:
            t.thread.join(10)
        self.tasks_all = list(self.tasks)
        return {t.name: t for t in self.tasks}

    def _loop(self):
        while True:
            live = [t for t in self.tasks if not t.done]
            if not live:
                return
            if W.crashed:
                self.killed = True
                ready = live
            else:
                ready = [t for t in live if t.wake is None or t.wake <= W.now]
                ready = [t for t in ready if t.waiting is None or t.waiting()]
                if any(not t.stalled for t in live if t.wake is not None or t in ready):
                    ready = [t for t in ready if not t.stalled]
            if not ready:
                wakes = [t.wake for t in live if t.wake is not None]
                if not wakes:
                    self.stuck = SimStuck("deadlock: every task waits for another (%s)" % ", ".join(t.name for t in live))
                    self.killed = True
                    W.crashed = True
                    continue
                W.now = max(W.now, min(wakes))
                if W.now > W.time_budget:
                    self.stuck = SimStuck("more than %s simulated seconds" % W.time_budget)
                    self.killed = True
                    W.crashed = True
                continue
            t = ready[self.rng.randrange(len(ready))] if len(ready) > 1 else ready[0]
            if t is not self.current:
                self.switches += 1
                W.record("switch", t.name)
                W.totals["switches"] += 1
            if self.switches > self.max_switches and not self.killed:
                self.stuck = SimStuck("more than %s task switches" % self.max_switches)
                self.killed = True
                W.crashed = True
            self.current = t
            t.sem.release()
            if not self.control.acquire(timeout=REAL_PATIENCE):
                self.killed = True
                raise HarnessStuck("task %s did not reach a yield point" % t.name)
            if self.on_switch is not None and not W.crashed:
                self.on_switch()

    def abandon(self):
        """the run is over: every task still alive is killed at its next yield point"""
        self.killed = True
        was, W.crashed = W.crashed, True
        for _ in range(10000):
            live = [t for t in self.tasks if not t.done and t.thread is not None]
            if not live:
                break
            live[0].sem.release()
            if not self.control.acquire(timeout=5):
                break
        W.crashed = was
        self.tasks = [t for t in self.tasks if not t.done]


class SharedState:
    """a cheap fingerprint of the state that threads using one factory share: the attributes of the factory and of the
    objects it owns, the globals and class attributes of the ticdat modules, mutable default arguments"""

    def __init__(self, factory):
        self.objs = [vars(factory)]
        mine = type(factory).__module__.split(".")[0]
        for v in list(vars(factory).values()):
            if type(v).__module__.split(".")[0] == mine and hasattr(v, "__dict__"):
                self.objs.append(vars(v))
        self.containers, self.names = [], []
        for name, m in sorted(sys.modules.items()):
            if name.split(".")[0] != mine or m is None or ".testing" in name:
                continue
            g = vars(m)
            keep = []
            for k, v in list(g.items()):
                if k.startswith("__") or isinstance(v, (type(sys),)):
                    continue
                fns = []
                if isinstance(v, type):
                    if v.__module__ == name:
                        self.names.append((v, [x for x in vars(v) if not x.startswith("__") and not callable(vars(v)[x])]))
                        fns = [f for f in vars(v).values() if callable(f)]
                elif callable(v):
                    fns = [v] if getattr(v, "__module__", None) == name else []
                else:
                    keep.append(k)
                for f in fns:
                    for d in getattr(f, "__defaults__", None) or ():
                        if isinstance(d, (dict, list, set)):
                            self.containers.append(d)
            self.objs.append(_Pick(g, keep))

    def __call__(self):
        rtn = []
        for o in self.objs:
            rtn.append(len(o))
            for v in list(o.values()):
                rtn.append(id(v))
                if isinstance(v, (dict, list, set)):
                    rtn.append(len(v))
                    if isinstance(v, dict) and len(v) < 30:
                        for x in list(v.values()):
                            rtn.append(len(x) if isinstance(x, (dict, list, set)) else id(x))
        for c in self.containers:
            rtn.append(len(c))
        for cls, names in self.names:
            rtn.append(len(vars(cls)))
            for n in names:
                v = vars(cls).get(n)
                rtn.append((id(v), len(v) if isinstance(v, (dict, list, set)) else 0))
        return rtn


class _Pick:
    def __init__(self, d, names):
        self.d, self.names = d, names

    def __len__(self):
        return len(self.d)

    def values(self):
        return [self.d.get(n) for n in self.names]


def profile_lines(fn, is_repo_file, state=None):
    """run fn in the calling thread; returns (its value, {(file, line): times executed} for the lines inside ticdat,
    [(file, line, occurrence)] of those reached just after the shared state changed)"""
    seen, memo, hot, last = {}, {}, [], [state() if state else None]

    def local(frame, event, arg):
        if event == "line":
            k = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            seen[k] = seen.get(k, 0) + 1
            if state is not None and seen[k] <= 4:
                now = state()
                if now != last[0]:
                    last[0] = now
                    hot.append(k + (seen[k],))
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        ok = memo.get(f)
        if ok is None:
            ok = memo[f] = is_repo_file(f)
        return local if ok else None
    sys.settrace(glob)
    try:
        v = fn()
    finally:
        sys.settrace(None)
    return v, seen, hot


# -- locks created inside ticdat ----------------------------------------------------------------------------------------
class SimLock:
    """a lock whose waiting goes through the scheduler (so that a parked holder cannot block the whole simulation)"""

    def __init__(self, reentrant):
        self._reentrant, self._owner, self._count = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = W.sched
        if self._owner == me and self._reentrant:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if s is not None and s.in_task():
                if timeout is not None and timeout >= 0:
                    end = W.now + timeout
                    while self._owner is not None and W.now < end:
                        s.sleep(min(.05, end - W.now))
                    if self._owner is not None:
                        return False
                else:
                    s.wait_until(lambda: self._owner is None)
            else:
                raise RuntimeError("deadlock on a lock outside the simulation")
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner is None or (self._reentrant and self._owner != threading.get_ident()):
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # (locks are copied along with factories by deepcopy in some refactorings: a fresh one will do)
    def __deepcopy__(self, memo):
        return SimLock(self._reentrant)


def install(is_repo_file):
    def made_in_repo():
        f = sys._getframe(2)
        for _ in range(3):
            if f is None:
                return False
            if is_repo_file(f.f_code.co_filename):
                return True
            f = f.f_back
        return False

    def Lock():
        return SimLock(False) if made_in_repo() else RealLock()

    def RLock():
        return SimLock(True) if made_in_repo() else RealRLock()
    threading.Lock = Lock
    threading.RLock = RLock
