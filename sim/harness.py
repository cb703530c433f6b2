"""What every scenario execution has in common (inside a simulation process)."""
import logging
import os
import random
import shutil
import tempfile


class Violation(Exception):
    """The property does not hold in this run.  cls: short class, stable under minimisation."""

    def __init__(self, cls, detail):
        super().__init__("%s: %s" % (cls, detail))
        self.cls, self.detail = cls, detail


class Skip(Exception):
    """The scenario could not be set up (counts as trivial)."""


class Context:
    def __init__(self, check):
        self.check = check
        self.cache = {}
        self.refs = {}
        self.scratch = None


class Result:
    def __init__(self):
        self.faults = {}
        self.steps = 0
        self.simtime = 0.0
        self.sig = None
        self.probes = {}
        self.note = None
        self.nontrivial = True

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n


class LogCapture(logging.Handler):
    """Records what tf2onnx reports at WARNING and above."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, r):
        try:
            msg = r.getMessage()
        except Exception:
            msg = str(r.msg)
        self.records.append((r.levelno, r.name, msg))

    def errors(self):
        return [m for lv, n, m in self.records if lv >= logging.ERROR]

    def warnings(self):
        return [m for lv, n, m in self.records if lv >= logging.WARNING]

    def __enter__(self):
        self.logger = logging.getLogger("tf2onnx")
        self.old = self.logger.level, self.logger.propagate
        if self.logger.getEffectiveLevel() > logging.WARNING:
            self.logger.setLevel(logging.WARNING)
        self.logger.addHandler(self)
        self.logger.propagate = False
        return self

    def __exit__(self, *a):
        self.logger.removeHandler(self)
        self.logger.setLevel(self.old[0])
        self.logger.propagate = self.old[1]
        return False


def make_scenario(check, ctx, seed):
    rng = random.Random("%s/%d" % (check.PROPERTY, seed))
    ctx.seed = seed
    sc = check.scenario(ctx, rng)
    sc["run_seed"] = seed
    return sc


def execute(check, ctx, sc):
    from . import determinism
    res = Result()
    ctx.scratch = tempfile.mkdtemp(prefix="verif-sim-")
    cwd = os.getcwd()
    out = {"violation": None}
    try:
        determinism.begin(sc.get("hash_seed"))
        check.execute(ctx, sc, res)
    except Violation as v:
        out["violation"] = {"class": v.cls, "detail": v.detail[:2000]}
    except Skip as s:
        res.nontrivial = False
        res.note = "skipped: %s" % s
    finally:
        os.chdir(cwd)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        if getattr(check, "COLLECT", True):
            determinism.end()
    out.update(faults=res.faults, steps=res.steps, simtime=res.simtime, sig=res.sig, probes=res.probes,
               note=res.note, nontrivial=res.nontrivial)
    return out
