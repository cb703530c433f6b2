"""The optimizer's passes as a seam: every application of a pass is bracketed, so that a run can address "line L of
the pass applied 7th", and so that a pass can be replaced by one that changes nothing."""
import contextlib
from collections import OrderedDict

from sim import monitor


def registry():
    """The dictionary of passes optimize_graph uses by default."""
    import tf2onnx.optimizer as o
    from tf2onnx.optimizer.optimizer_base import GraphOptimizerBase
    for v in list(vars(o).values()):
        if isinstance(v, dict) and v and all(isinstance(c, type) and issubclass(c, GraphOptimizerBase)
                                             for c in v.values()):
            return v
    raise RuntimeError("no table of optimizer passes in tf2onnx.optimizer")


class Tracker:
    """Counts applications of passes; in application k (from 0) of the whole optimization, or in each application of
    the passes named in skip_names, the pass is a no-op."""

    def __init__(self, session=None, skip=(), skip_names=(), max_apps=600, down=None):
        self.session, self.skip, self.skip_names = session, frozenset(skip), frozenset(skip_names)
        self.apps = []            # [name, outcome]
        self.open_window = None
        self.max_apps = max_apps
        self.down = down or {}    # name of a pass -> exception each of its applications fails with, at once

    def factory(self, name, cls):
        tracker = self

        def make():
            opt = cls()
            real = opt.optimize

            def optimize(*a, **k):
                i = len(tracker.apps)
                if i > tracker.max_apps:
                    raise monitor.StepLimit("more than %d applications of passes" % tracker.max_apps)
                entry = [name, "running"]
                tracker.apps.append(entry)
                if i in tracker.skip or name in tracker.skip_names:
                    entry[1] = "no-op"
                    return a[0] if a else k["graph"]
                s = tracker.session
                if s is not None:
                    s.enter_window(i, name)
                try:
                    if name in tracker.down:
                        raise monitor.make_exc(tracker.down[name], "in every application of this pass")
                    r = real(*a, **k)
                    entry[1] = "ok"
                    return r
                except BaseException as e:
                    entry[1] = "failed: %s" % type(e).__name__
                    raise
                finally:
                    if s is not None:
                        s.leave_window()
            opt.optimize = optimize
            return opt
        return make

    def table(self, base=None):
        return OrderedDict((n, self.factory(n, c)) for n, c in (base or registry()).items())


@contextlib.contextmanager
def installed(tracker):
    """The tracker's passes as the default ones."""
    reg = registry()
    saved = OrderedDict(reg)
    t = tracker.table(saved)
    reg.clear()
    reg.update(t)
    try:
        yield tracker
    finally:
        reg.clear()
        reg.update(saved)


@contextlib.contextmanager
def none():
    """No passes at all: what comes out is the unoptimised model."""
    reg = registry()
    saved = OrderedDict(reg)
    reg.clear()
    try:
        yield
    finally:
        reg.clear()
        reg.update(saved)


class WindowSession(monitor.Session):
    """Events count per application of a pass; outside applications they belong to window "pre" (before the first) or
    "post" (after the last one seen so far)."""

    def __init__(self, plans=None, by_name=None, outside=None, **kw):
        super().__init__(**kw)
        self.plans = {k: _table(v) for k, v in (plans or {}).items()}      # application -> plan
        self.by_name = {k: _table(v) for k, v in (by_name or {}).items()}  # name of pass -> plan, each application
        self.outside = outside            # None: events outside applications do not count
        self.windows = {}
        self.plan = {}
        self.enabled = False
        self.window = None

    def enter_window(self, i, name):
        self.window = i
        self._n = self.windows.setdefault(i, {})
        self.plan = self.plans.get(i) or self.by_name.get(name) or {}
        self.enabled = True

    def leave_window(self):
        self._outside("post")

    def _outside(self, w):
        self.window = w
        if self.outside:
            self._n = self.windows.setdefault(w, {})
            self.plan = self.plans.get(w, {})
            self.enabled = True
        else:
            self.enabled = False

    def __enter__(self):
        super().__enter__()
        self._outside("pre")
        return self


def _table(plan):
    t = {}
    for (k, w, x, n), exc in plan.items():
        t.setdefault((k, w, x), {})[n] = exc
    return t
