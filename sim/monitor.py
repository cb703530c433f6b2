"""The fault seam: every call, line and function start inside tf2onnx is an event the simulator sees first.

Built on sys.monitoring (PEP 669), local to tf2onnx's own code objects, so that nothing in the repository has to
change and nothing outside it (TensorFlow, numpy, onnx) is slowed down or interfered with.  A callback that raises
makes the exception appear at exactly that point of the code under test.

Event kinds (the index of an event is its position in the stream of events of the enabled kinds):
  call   tf2onnx is about to call something that is not tf2onnx code (TensorFlow, numpy, onnx, os, ...)
  line   tf2onnx is about to execute a source line
  point  a place where CPython 3.12 delivers asynchronous exceptions and may switch threads:
         function entry, return from a C call, backward jump
"""
import ast
import opcode
import sys
import types

mon = sys.monitoring
E = mon.events
TOOL = 3
_codes = None


def code_objects(prefix="tf2onnx"):
    """All code objects of the loaded tf2onnx modules, name-independent: walk modules, classes and nested code."""
    global _codes
    key = tuple(sorted(m for m in sys.modules if m == prefix or m.startswith(prefix + ".")))
    if _codes is not None and _codes[0] == key:
        return _codes[1]
    seen = {}

    def add(code, modname):
        if code in seen:
            return
        seen[code] = modname
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c, modname)

    files = {}
    for name in key:
        f = getattr(sys.modules[name], "__file__", None)
        if f:
            files[f] = name

    def visit(obj, depth=0):
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    visit(f, depth)
            return
        w = getattr(obj, "__wrapped__", None)
        if w is not None and isinstance(w, types.FunctionType):
            visit(w, depth)
        if isinstance(obj, types.MethodType):
            obj = obj.__func__
        if isinstance(obj, types.FunctionType):
            fn = obj.__code__.co_filename
            if fn in files:
                add(obj.__code__, files[fn])
            for c in obj.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if isinstance(v, types.FunctionType) and depth < 3:
                    visit(v, depth + 1)
        elif isinstance(obj, type):
            if getattr(obj, "__module__", "").split(".")[0] == prefix and obj not in seen_t:
                seen_t.add(obj)
                for v in list(vars(obj).values()):
                    visit(v, depth)

    seen_t = set()
    for name in key:
        for v in list(vars(sys.modules[name]).values()):
            visit(v)
    _codes = (key, seen)
    return seen


def where(code, codes=None):
    m = (codes or code_objects()).get(code, code.co_filename)
    return "%s:%s" % (m, code.co_qualname)


EX = opcode.opmap["CALL_FUNCTION_EX"]
_ex = {}
_exo = {}


def ex_offsets(code):
    r = _exo.get(code)
    if r is None:
        b = code.co_code
        r = _exo[code] = frozenset(i for i in range(0, len(b), 2) if b[i] == EX)
    return r


def ex_lines(code):
    """Lines of code with a call f(*a, **k).  CPython 3.12 corrupts memory when the callback of such a call raises, so
    these calls are made to fail at the start of their line instead."""
    r = _ex.get(code)
    if r is None:
        b = code.co_code
        r = set()
        for start, end, line in code.co_lines():
            if line is not None and any(b[i] == EX for i in range(start, end, 2)):
                r.add(line)
        r = _ex[code] = frozenset(r)
    return r


_fin = {}


def _finally_lines(filename):
    r = _fin.get(filename)
    if r is None:
        r = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                for st in getattr(n, "finalbody", None) or ():
                    r.update(range(st.lineno, st.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _fin[filename] = r
    return r


def cleaning_up():
    """Is the code under test inside a finally block (of any of its frames)?  A call made to clean up is not made to
    fail: nobody can clean up after that."""
    f = sys._getframe(1)
    while f is not None:
        n = f.f_globals.get("__name__", "")
        if isinstance(n, str) and n.split(".")[0] == "tf2onnx" and f.f_lineno in _finally_lines(f.f_code.co_filename):
            return True
        f = f.f_back
    return False


_try = {}


def _try_lines(filename):
    """Lines inside a try block that has handlers."""
    r = _try.get(filename)
    if r is None:
        r = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, ast.Try) and n.handlers:
                    for st in n.body:
                        r.update(range(st.lineno, st.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _try[filename] = r
    return r


def guarded(depth=3):
    """May the code under test catch an exception raised here?  Looks at the innermost frames only: further out everything
    runs under the try blocks of the drivers."""
    f = sys._getframe(1)
    while f is not None and depth:
        n = f.f_globals.get("__name__", "")
        if isinstance(n, str) and n.split(".")[0] == "tf2onnx":
            if f.f_lineno in _try_lines(f.f_code.co_filename):
                return True
            depth -= 1
        f = f.f_back
    return False


_TOP = {}


def top_module(callee):
    """First component of the module a callable belongs to (what is about to be called)."""
    f = callee
    while isinstance(f, types.MethodType):
        f = f.__func__
    m = getattr(f, "__module__", None)
    if not isinstance(m, str):
        m = getattr(type(getattr(f, "__self__", None)), "__module__", None) or type(f).__module__
        s = getattr(f, "__self__", None)
        if isinstance(s, types.ModuleType):
            m = s.__name__
    if not isinstance(m, str):
        return "?"
    return m.split(".")[0]


def callee_name(callee):
    n = getattr(callee, "__qualname__", None) or type(callee).__qualname__
    return "%s.%s" % (top_module(callee), n)


class Injected(Exception):
    """What an injected failure looks like to the code under test: an ordinary error, recognisable to us."""


def make_exc(kind, note=""):
    msg = "injected fault %s" % note
    cls = {
        "RuntimeError": type("InjectedRuntimeError", (RuntimeError, Injected), {}),
        "ValueError": type("InjectedValueError", (ValueError, Injected), {}),
        "KeyError": type("InjectedKeyError", (KeyError, Injected), {}),
        "TypeError": type("InjectedTypeError", (TypeError, Injected), {}),
        "AttributeError": type("InjectedAttributeError", (AttributeError, Injected), {}),
        "IndexError": type("InjectedIndexError", (IndexError, Injected), {}),
        "AssertionError": type("InjectedAssertionError", (AssertionError, Injected), {}),
        "NotImplementedError": type("InjectedNotImplementedError", (NotImplementedError, Injected), {}),
        "ZeroDivisionError": type("InjectedZeroDivisionError", (ZeroDivisionError, Injected), {}),
        "MemoryError": type("InjectedMemoryError", (MemoryError, Injected), {}),
        "OSError": type("InjectedOSError", (OSError, Injected), {}),
        "ENOSPC": None,
        "KeyboardInterrupt": KeyboardInterrupt,
        "SystemExit": SystemExit,
        "RecursionError": type("InjectedRecursionError", (RecursionError, Injected), {}),
    }[kind]
    if kind == "ENOSPC":
        import errno
        return type("InjectedOSError", (OSError, Injected), {})(errno.ENOSPC, "No space left on device")
    return cls(msg)


LASTING = 40     # faults end: progress is only owed once they have stopped


class Session:
    """One monitored execution.  Only one session at a time.

    An event is addressed by its *place* and occurrence: (kind, where, what, n) - the n-th time (from 1) that this
    place produced an event of this kind.  `where` is module:qualname, `what` says which line / callee / bytecode.
    Addressing by place keeps a plan meaningful although protobuf iterates its maps in an order nobody controls.
    plan: {(kind, where, what, n): exception kind}; n = (m, "on") means the m-th time and the 39 times after it.
    """

    def __init__(self, kinds=("call",), plan=None, code_filter=None, callee_filter=None, on_event=None,
                 profile=None, max_events=None, guards=None):
        self.kinds = frozenset(kinds)
        self.plan = {}
        self.lasting = {}
        for (k, w, t, n), exc in (plan or {}).items():
            if isinstance(n, tuple):
                self.lasting[(k, w, t)] = (n[0], exc)
            else:
                self.plan.setdefault((k, w, t), {})[n] = exc
        self.code_filter = code_filter
        self.callee_filter = callee_filter
        self.on_event = on_event
        self.profile = profile        # None, or a dict filled with {(kind, where, what): occurrences}
        self.guards = guards          # None, or a set filled with the places inside try blocks
        self.count = 0
        self.fired = []
        self.max_events = max_events
        self.enabled = True
        self.codes = {}
        self._n = {}

    def _hit(self, kind, code, what):
        if not self.enabled:
            return
        self.count += 1
        key = (kind, self.codes[code], what)
        n = self._n.get(key, 0) + 1
        self._n[key] = n
        if n == 1 and self.guards is not None and guarded():
            self.guards.add(key)
        if self.on_event is not None:
            self.on_event(key, n)
        p = self.plan.get(key)
        exc = p.get(n) if p is not None else None
        if exc is None and key in self.lasting and self.lasting[key][0] <= n < self.lasting[key][0] + LASTING:
            exc = self.lasting[key][1]
        if exc is not None and not (kind in ("call", "point") and cleaning_up()):
            self.fired.append({"kind": kind, "at": key[1], "what": what, "n": n, "exc": exc})
            raise make_exc(exc, "at %s (%s, occurrence %d)" % (key[1], what, n))
        if self.max_events is not None and self.count > self.max_events:
            self.enabled = False
            raise StepLimit("more than %d simulated steps" % self.max_events)

    def _call(self, code, off, callee, arg0):
        if code not in self.codes:
            return mon.DISABLE
        if "call" not in self.kinds:
            return None
        if off in ex_offsets(code):
            return None
        t = top_module(callee)
        if t == "tf2onnx":
            return None
        if t == "builtins" and getattr(callee, "__name__", None) not in ("open", "__import__", "print"):
            return None     # len(), list.append, ...: they do not fail
        if getattr(callee, "__name__", None) == "__exit__":
            return None     # leaving a with block: a failure "instead of" the clean-up is not something that happens
        if self.callee_filter is not None and not self.callee_filter(t, callee):
            return None
        self._hit("call", code, "%s@%d" % (callee_name(callee), off))

    def _line(self, code, line):
        if code not in self.codes:
            return mon.DISABLE
        if "line" in self.kinds:
            self._hit("line", code, "line+%d" % (line - code.co_firstlineno))
        elif line in ex_lines(code):
            self._hit("call", code, "*call@line+%d" % (line - code.co_firstlineno))

    def _start(self, code, off):
        if code not in self.codes:
            return mon.DISABLE
        self._hit("point", code, "enter")

    def _cret(self, code, off, callee, arg0):
        if code not in self.codes:
            return mon.DISABLE
        self._hit("point", code, "return@%d" % off)

    def _jump(self, code, off, dest):
        if code not in self.codes:
            return mon.DISABLE
        if dest < off:
            self._hit("point", code, "loop@%d" % off)

    def __enter__(self):
        all_codes = code_objects()
        self.codes = {}
        for c, m in all_codes.items():
            if self.code_filter is None or self.code_filter(m, c):
                self.codes[c] = "%s:%s" % (m, c.co_qualname)
        ev = 0
        mon.use_tool_id(TOOL, "verif-sim")
        if "call" in self.kinds:
            ev |= E.CALL
            mon.register_callback(TOOL, E.CALL, self._call)
            mon.register_callback(TOOL, E.LINE, self._line)
        if "line" in self.kinds:
            ev |= E.LINE
            mon.register_callback(TOOL, E.LINE, self._line)
        if "point" in self.kinds:
            ev |= E.PY_START | E.CALL | E.JUMP
            mon.register_callback(TOOL, E.PY_START, self._start)
            mon.register_callback(TOOL, E.C_RETURN, self._cret)
            mon.register_callback(TOOL, E.JUMP, self._jump)
        for c in self.codes:
            mon.set_local_events(TOOL, c, ev | E.LINE if "call" in self.kinds and ex_lines(c) else ev)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        self.enabled = False
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        for e in (E.CALL, E.LINE, E.PY_START, E.C_RETURN, E.JUMP):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        if self.profile is not None:
            for k, v in self._n.items():
                self.profile[k] = self.profile.get(k, 0) + v
        return False


class StepLimit(BaseException):
    """The run used more simulated steps than its bound: raised out of the code under test."""


def pick(rng, profile, kinds=None, where=None):
    """A seeded choice of an event address out of a profile: first a function, then a place in it, then an
    occurrence - so that hot loops do not swallow all faults."""
    by_fn = {}
    for (k, w, t), n in profile.items():
        if kinds is not None and k not in kinds:
            continue
        if where is not None and not where(w):
            continue
        by_fn.setdefault(w, []).append((k, w, t, n))
    if not by_fn:
        return None
    places = sorted(by_fn[rng.choice(sorted(by_fn))])
    k, w, t, n = rng.choice(places)
    occ = rng.choice([1, n, rng.randint(1, n), rng.randint(1, n)])
    return (k, w, t, occ)
