"""Deterministic scheduling of real threads.

Each simulated caller is a real thread, but at any time exactly one of them runs: the others are parked on their own
semaphore inside a monitoring callback.  Control can move only at places where CPython itself may switch threads
(function entry, return from a C call, backward jump) inside tf2onnx code, so every schedule explored here is one a
real deployment can meet.  Which place moves control, and to whom, is the schedule: a list of preemptions
[thread, (kind, where, what), occurrence, next thread], drawn from the seed and replayable as data.
"""
import random
import sys
import threading
import _thread

from . import monitor

_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = None          # the running Scheduler


class HarnessError(Exception):
    pass


class SimLock:
    """Stand-in for locks created by tf2onnx itself: blocking moves control instead of hanging the simulation."""

    def __init__(self, recursive):
        self.real = _real_rlock() if recursive else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or not s.is_sim_thread() or not blocking:
            return self.real.acquire(blocking, timeout) if blocking else self.real.acquire(False)
        while not self.real.acquire(False):
            s.blocked(self)
        return True

    def release(self):
        self.real.release()
        s = _current
        if s is not None:
            s.released(self)

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.real._is_owned()


def _from_tf2onnx():
    try:
        f = sys._getframe(2)
    except ValueError:
        return False
    return str(f.f_globals.get("__name__", "")).split(".")[0] == "tf2onnx"


def install_locks():
    def Lock():
        return SimLock(False) if _from_tf2onnx() else _real_lock()

    def RLock():
        return SimLock(True) if _from_tf2onnx() else _real_rlock()
    threading.Lock = Lock
    threading.RLock = RLock


class Scheduler:
    def __init__(self, tasks, preemptions=(), order=None, step_limit=None, wall_limit=240.0, every=(),
                 max_every=400, hot=(), hot_seed=0, max_hot=0, hot_p=0.5):
        self.tasks = tasks
        self.n = len(tasks)
        self.pre = [dict() for _ in tasks]
        for t, key, occ, nxt in preemptions:
            self.pre[t].setdefault((tuple(key), occ), []).append(nxt)
        self.order = list(order or range(self.n))
        self.every = frozenset(every)        # functions at whose entry control always moves on (max_every times)
        self.left = max_every
        self.hot = frozenset(hot)            # functions inside which control moves on by a coin at every place
        self.hot_left = max_hot
        self.hot_p = list(hot_p) if isinstance(hot_p, (list, tuple)) else [hot_p] * self.n
        self.coin = random.Random(hot_seed)
        self.sem = [threading.Semaphore(0) for _ in tasks]
        self.state = ["ready"] * self.n        # ready, blocked, done
        self.waits = [None] * self.n
        self.results = [None] * self.n
        self.idents = {}
        self.counters = [dict() for _ in tasks]
        self.switches = []
        self.events = [0] * self.n
        self.cur = None
        self.all_done = threading.Event()
        self.failure = None
        self.wall_limit = wall_limit

    # -- called from monitoring callbacks, in the running thread ------------------------------------
    def is_sim_thread(self):
        return _thread.get_ident() in self.idents

    def on_event(self, key, n):
        t = self.idents.get(_thread.get_ident())
        if t is None:
            return
        self.events[t] += 1
        c = self.counters[t]
        occ = c.get(key, 0) + 1
        c[key] = occ
        if self.every and self.left > 0 and key[2] == "enter" and key[1] in self.every:
            self.left -= 1
            i = self.order.index(t)
            nxt = [x for x in self.order[i + 1:] + self.order[:i] if self.state[x] == "ready"]
            if nxt:
                self._switch(t, nxt[0], key)
            return
        if self.hot_left > 0 and key[1] in self.hot:
            if self.coin.random() < self.hot_p[t]:
                nxt = [x for x in range(self.n) if x != t and self.state[x] == "ready"]
                if nxt:
                    self.hot_left -= 1
                    self._switch(t, self.coin.choice(nxt), key)
            return
        p = self.pre[t]
        if p:
            nxt = p.get((key, occ))
            if nxt:
                self._switch(t, nxt.pop(0), key)

    def yield_(self, nxt, why):
        """Control moves to another thread, if one can run."""
        me = self.idents.get(_thread.get_ident())
        if me is not None:
            self._switch(me, nxt, why)

    def _switch(self, me, nxt, why):
        if nxt == me or self.state[nxt] != "ready":
            others = [i for i in self.order if self.state[i] == "ready" and i != me]
            if not others:
                return
            nxt = others[0]
        self.switches.append((me, nxt, why[1] if isinstance(why, tuple) else why))
        self.cur = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()

    def blocked(self, lock):
        me = self.idents[_thread.get_ident()]
        self.state[me] = "blocked"
        self.waits[me] = lock
        others = [i for i in self.order if self.state[i] == "ready"]
        if not others:
            self.failure = "deadlock: every caller waits for a lock"
            self.state[me] = "ready"
            self.all_done.set()
            raise Deadlock(self.failure)
        nxt = others[0]
        self.switches.append((me, nxt, "blocked on a lock"))
        self.cur = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()

    def released(self, lock):
        for i in range(self.n):
            if self.waits[i] is lock:
                self.waits[i] = None
                if self.state[i] == "blocked":
                    self.state[i] = "ready"

    # -- threads ---------------------------------------------------------------------------------------
    def _body(self, i):
        self.sem[i].acquire()
        try:
            try:
                self.results[i] = ("ok", self.tasks[i]())
            except BaseException as e:  # the result of the caller is whatever it saw
                self.results[i] = ("exc", e)
        finally:
            self.state[i] = "done"
            nxt = [j for j in self.order if self.state[j] == "ready"]
            if nxt:
                self.cur = nxt[0]
                self.sem[nxt[0]].release()
            elif all(s == "done" for s in self.state):
                self.all_done.set()
            else:
                self.failure = "deadlock: remaining callers wait for a lock nobody holds"
                self.all_done.set()

    def run(self, profile=None, code_filter=None):
        global _current
        ths = []
        ready = threading.Barrier(self.n + 1)

        def boot(i):
            self.idents[_thread.get_ident()] = i
            ready.wait()
            self._body(i)
        for i in range(self.n):
            th = threading.Thread(target=boot, args=(i,), daemon=True)
            th.start()
            ths.append(th)
        ready.wait()
        _current = self
        try:
            with monitor.Session(kinds=("point",), on_event=self.on_event, profile=profile, code_filter=code_filter):
                self.sem[self.order[0]].release()
                if not self.all_done.wait(self.wall_limit):
                    raise HarnessError("scheduler watchdog: no progress within %ss" % self.wall_limit)
        finally:
            _current = None
        if self.failure is None:
            for th in ths:
                th.join(30)
        return self.results


class Deadlock(BaseException):
    pass


def shared_state_functions():
    """Functions of tf2onnx that use something which all threads share: the places where races are likely.
    Found in the code as it is loaded: a global written, or a module or class level object that can be changed used.
    -> all of them, and for each such thing the functions that use it, the written ones first."""
    import dis
    import types
    fixed = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, str, bytes, int, float, complex,
             tuple, frozenset, type(None))
    uses, written, out = {}, set(), set()
    for code, m in monitor.code_objects().items():
        mod = sys.modules.get(m)
        if mod is None:
            continue
        g = vars(mod)
        w = "%s:%s" % (m, code.co_qualname)
        cls = None
        for ins in dis.get_instructions(code):
            if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                written.add((m, ins.argval))
                uses.setdefault((m, ins.argval), set()).add(w)
                out.add(w)
            elif ins.opname == "LOAD_GLOBAL":
                v = g.get(ins.argval)
                cls = v if isinstance(v, type) and v.__module__.split(".")[0] == "tf2onnx" else None
                if ins.argval in g and not isinstance(v, (types.ModuleType, types.FunctionType, type)):
                    uses.setdefault((m, ins.argval), set()).add(w)
                    if not isinstance(v, fixed + (type,)) and ins.argval != "logger":
                        out.add(w)
                continue
            elif ins.opname in ("LOAD_ATTR", "STORE_ATTR") and cls is not None:
                if not isinstance(getattr(cls, str(ins.argval), 0), fixed + (type, property)):
                    uses.setdefault((cls.__qualname__, ins.argval), set()).add(w)
                    out.add(w)
            cls = None
    groups = [sorted(uses[v]) for v in sorted(written)]
    groups += [sorted(uses[v]) for v in sorted(uses) if v not in written and uses[v] & out and v[1] != "logger"]
    return sorted(out), len(written), groups
