"""C02: a reported success means complete files, a failure is never hidden, and a conversion that fails before it has
something to save leaves the files alone.

Simulated: the disk (sim/disk.py: errors, short and torn writes, a disk that fills up, failing close, the process killed
at an operation and started again) and failures of
calls of the conversion out of tf2onnx; histories of 1-4 saves on one disk, through the API, the command line and the
helpers of tf2onnx.utils.
Checked after every step: the files of the disk against a model of it (path -> content)."""
import hashlib
import logging
import os
import runpy
import sys
import tempfile
import zipfile

import numpy as np

from sim import canon, disk, monitor, zoo
from sim.harness import Violation
from . import common

PROPERTY = "C02"
EXC = ["RuntimeError", "ValueError", "KeyError", "OSError", "MemoryError", "TypeError", "KeyboardInterrupt", "SystemExit"]

API = ("mlp", "conv", "while", "cond", "nested", "shapes", "consts", "dup", "custom", "custom:dom", "while:hboom", "mlp:rwok",
       "mlp:toohigh", "dup:rwboom", "mlp:large", "big:large", "bigbody:large", "gd_mlp", "gd_cond", "gd_big:large", "gd_bigbody:large",
       "gd_conv:nchw", "tfl_mlp", "tfl_conv", "tfl_while", "k_func", "k_dupnames", "k_big:large", "k_table", "k_lstm", "mlp:hmul")
CLI = ("gdf_mlp", "gdf_conv", "gdf_nested", "gdf_big", "gdf_bigbody", "sm_big", "sm_mlp", "sm_dictout", "sm_while", "sm_table_a", "js_mlp", "js_conv", "js_cond", "js_nested", "ck_relu",
       "tfl_quant", "tfl_mlp", "tfl_shapes", "kf_cnn")
HOT = ("tf2onnx.convert", "tf2onnx.utils", "tf2onnx.tf_loader", "tf2onnx.tfonnx", "tf2onnx.graph", "tf2onnx.optimizer")
PATHS = ("out.onnx", "new.onnx", "sub/out.onnx", "sub/deep/er/out.onnx", "sub/../out.onnx", "link.onnx", "./new.onnx", "model")
DECOYS = {"notes.txt": b"keep me", "other.onnx": b"\x08\x07other", "sub/keep.bin": bytes(range(200)), "__MODEL_PROTO.onnx": b"mine",
          "linked.bin": b"x" * 50000}


def _reqs():
    r = common.requests()
    have = common.model
    res = {}
    for i in API:
        if i in r:
            res[i] = dict(r[i], how="api")
    for m in CLI:
        try:
            e = have(m)
        except KeyError:
            continue
        res["cli/" + m] = {"m": m, "kw": {}, "how": "cli"}
        if e.kind in ("saved_model", "graphdef_file"):
            res["cli/" + m + ":large"] = {"m": m, "kw": {"large_model": True}, "how": "cli"}
        if e.kind in ("saved_model", "graphdef_file", "checkpoint"):
            res["cli/" + m + ":frozen"] = {"m": m, "kw": {}, "how": "cli", "frozen": True}
        if e.kind in ("saved_model", "graphdef_file"):
            res["cli/" + m + ":large,frozen"] = {"m": m, "kw": {"large_model": True}, "how": "cli", "frozen": True}
    return res


def make_refs(ctx, i, n):
    reqs = _reqs()
    res = {}
    for k, rid in enumerate(sorted(reqs)):
        if k % n == i:
            res[rid] = common.fork_call(_ref, rid, reqs[rid])
    return res


def _ref(rid, req):
    """Outcome, places of calls, operations on the disk: without failures, in a process of its own."""
    d = tempfile.mkdtemp(prefix="verif-c02-")
    try:
        pr = {}
        live = None if req["how"] == "cli" else common.model(req["m"]).build()
        with disk.Disk(d) as dk:
            with monitor.Session(kinds=("call",), profile=pr):
                ok, value, _ = convert(req, live, os.path.join(d, "out.onnx"), os.path.join(d, "frozen.pb") if req.get("frozen") else None)
        res = {"ok": ok, "ops": dk.counts, "profile": common.compact(pr, rid, dense=HOT)}
        if not ok:
            res["err"] = type(value).__name__
            return res
        p, st, bad = load(os.path.join(d, "out.onnx"), req["kw"].get("large_model"))
        if bad:
            return dict(res, broken=bad)
        res["form"] = common.norm(canon.model_form(p, st))["hash"]
        if req.get("frozen"):
            res["frozen"], bad = load_frozen(os.path.join(d, "frozen.pb"))
            if bad:
                return dict(res, broken="frozen graph: " + bad)
            m = common.model(req["m"])
            res["frozen_bad"] = frozen_values(os.path.join(d, "frozen.pb"), m, p)
        return res
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def setup(ctx):
    common.load()
    ctx.reqs = _reqs()
    ctx.names = sorted(ctx.reqs)
    ctx.cli = [r for r in ctx.names if ctx.reqs[r]["how"] == "cli"]
    ctx.api = [r for r in ctx.names if ctx.reqs[r]["how"] == "api"]
    ctx.live = {}
    ctx.protos = {}


# ------------------------------------------------------------------------------------------------ what is on the disk
def load(path, zipped):
    """-> (proto, storage, None) | (None, None, what is wrong)"""
    import onnx
    try:
        if not zipped:
            with open(path, "rb") as f:
                b = f.read()
            p = onnx.ModelProto()
            p.ParseFromString(b)
            if not p.graph.node and not p.graph.output:
                return None, None, "empty model (%d bytes)" % len(b)
            if len(p.SerializeToString()) != len(b):
                return None, None, "%d bytes on disk, the model has %d" % (len(b), len(p.SerializeToString()))
            return p, None, None
        with zipfile.ZipFile(path) as z:
            bad = z.testzip()
            if bad:
                return None, None, "corrupt entry %s" % bad
            names = z.namelist()
            models = [n for n in names if n.endswith(".onnx")]
            if len(models) != 1 or len(set(names)) != len(names):
                return None, None, "entries %s" % names
            p = onnx.ModelProto()
            p.ParseFromString(z.read(models[0]))
            st = {n: z.read(n) for n in names if n not in models}
        want = set()
        for t in tensors(p.graph):
            loc = [e.value for e in t.external_data if e.key == "location"]
            if loc:
                want.add(loc[0])
        if want != set(st):
            return None, None, "tensors %s, the model refers to %s" % (sorted(st)[:5], sorted(want)[:5])
        return p, st, None
    except Exception as e:      # pylint: disable=broad-except
        return None, None, "%s: %s" % (type(e).__name__, e)


def tensors(g):
    for t in g.initializer:
        yield t
    for n in g.node:
        for a in n.attribute:
            if a.HasField("t"):
                yield a.t
            for s in ([a.g] if a.HasField("g") else []) + list(a.graphs):
                yield from tensors(s)


def load_frozen(path):
    from tensorflow.core.framework import graph_pb2
    try:
        with open(path, "rb") as f:
            b = f.read()
        g = graph_pb2.GraphDef()
        g.ParseFromString(b)
    except Exception as e:      # pylint: disable=broad-except
        return None, "%s: %s" % (type(e).__name__, e)
    if len(g.SerializeToString()) != len(b):
        return None, "%d bytes on disk, the graph has %d" % (len(b), len(g.SerializeToString()))
    if not g.node:
        return None, "empty graph"
    import re

    def row(n):     # functions are numbered through per process
        return [re.sub(r"_[0-9]+", "", n.name), n.op, len(n.input), sorted(n.attr),
                hashlib.sha1(n.attr["value"].tensor.SerializeToString(deterministic=True)).hexdigest() if n.op == "Const" else ""]
    rows = [sorted(row(n) for n in g.node), sorted(sorted(row(n) for n in f.node_def) for f in g.library.function)]
    return hashlib.sha1(repr(rows).encode()).hexdigest(), None


def frozen_values(path, m, proto):
    """Does the frozen graph compute what the source model computes?"""
    t = zoo.tf()
    from tensorflow.core.framework import graph_pb2
    gd = graph_pb2.GraphDef()
    with open(path, "rb") as f:
        gd.ParseFromString(f.read())
    feeds = m.feeds(1)
    want = m.reference({"obj": m.path}, feeds)
    try:
        g = t.Graph()
        with g.as_default():
            t.import_graph_def(gd, name="")
        ph = sorted(n.name for n in gd.node if n.op == "Placeholder" and "_table" not in n.name)
        ins = list(m.inputs) if m.inputs else None
        if ins is None:
            if len(ph) != len(feeds):
                return None     # tables and the like: not comparable
            ins = [p + ":0" for p in ph]
        outs = m.outputs
        with t.compat.v1.Session(graph=g) as s:
            if outs:
                got = s.run(list(outs), dict(zip(ins, feeds)))
                return zoo.same_values(got, want, m.rtol, m.atol)
            for n in gd.node:       # every constant must at least still be one
                if n.op == "Const":
                    s.run(n.name + ":0")
    except Exception as e:      # pylint: disable=broad-except
        return "%s: %s" % (type(e).__name__, str(e)[:200])
    return None


def same_proto(p, q):
    return p.SerializeToString(deterministic=True) == q.SerializeToString(deterministic=True)


# ------------------------------------------------------------------------------------------------ running a step
class Phase:
    """Notes when the conversion has a model."""

    def __enter__(self):
        from tf2onnx import graph
        self.done = False
        self.cls = graph.Graph
        self.orig = graph.Graph.make_model

        def make_model(g, *a, **k):
            r = self.orig(g, *a, **k)
            self.done = True
            return r
        graph.Graph.make_model = make_model
        return self

    def __exit__(self, *a):
        self.cls.make_model = self.orig
        return False


def convert(req, live, path, frozen=None, main=False):
    """-> (reported success, returned value or exception, phase)"""
    with Phase() as ph:
        try:
            if req["how"] == "api":
                kw = common.realise(req["kw"])
                return True, common.model(req["m"]).convert(live, output_path=path, **kw), ph
            m = common.model(req["m"])
            a = [str(x) for x in m.argv(m.path, path, **req["kw"])]
            if frozen:
                a += ["--output_frozen_graph", frozen]
            return run_cli(a, main) + (ph,)
        except BaseException as e:      # pylint: disable=broad-except
            return False, e, ph


def run_cli(args, main):
    root = logging.getLogger()
    handlers, level, argv = list(root.handlers), root.level, sys.argv
    sys.argv = ["tf2onnx.convert"] + args
    try:
        if main:
            zoo.cli(args)
        else:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_module("tf2onnx.convert", run_name="__main__", alter_sys=False)
        return True, None
    except SystemExit as e:
        return (e.code in (None, 0)), e
    finally:
        sys.argv = argv
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
        root.setLevel(level)
        from tf2onnx import utils
        utils.set_debug_mode(False)


class Unserialisable:
    """A message that is too big: protobuf refuses to serialise it."""

    def SerializeToString(self, **k):
        raise ValueError("exceeds maximum protobuf size of 2GB: injected")

    graph = property(lambda self: self)


# ------------------------------------------------------------------------------------------------ scenarios
def disk_faults(rng, ops):
    """A plan for one step, given the operations of the fault-free run."""
    if rng.random() < 0.3:
        return [], None
    if rng.random() < 0.25:
        return [], rng.choice([0, 1, 100, rng.randint(1, 2000), rng.randint(1, 20000)])
    plan = []
    kinds = [k for k in sorted(ops) if k in ("open", "write", "close", "mkdir", "rename", "replace", "fsync", "remove", "unlink", "truncate")]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.choice((kinds or ["write"]) + ["write", "close", "open", "mkdir"])
        n = rng.randint(1, max(1, ops.get(op, 1)))
        f = {"op": op, "n": n, "err": rng.choice(["ENOSPC", "EIO", "EDQUOT"]), "frac": round(rng.choice([0, 0.5, 0.9, rng.random()]), 3), "how": "error"}
        if op == "write":
            f["how"] = rng.choice(["error", "short", "torn", "torn"])
        elif op == "open":
            f["err"] = rng.choice(["EACCES", "EMFILE", "EROFS", "EIO", "ENOSPC"])
        elif op == "mkdir":
            f["err"] = rng.choice(["EACCES", "ENOSPC", "EROFS"])
        elif op in ("rename", "replace"):
            f["err"] = rng.choice(["EXDEV", "EACCES", "EIO"])
        if all((g["op"], g["n"]) != (op, n) for g in plan):
            plan.append(f)
    if rng.random() < 0.25:
        plan = plan[:1]
        plan[0]["how"] = "kill"
    return plan, None


def step(ctx, rng):
    kind = rng.choice(["api"] * 5 + ["cli"] * 4 + ["helper"] * 3)
    st = {"kind": kind, "path": rng.choice(PATHS), "cfault": None}
    # (directories of save_onnx_model have names of their own)
    if kind == "helper":
        st["fn"] = rng.choice(["save_protobuf", "save_protobuf", "save_text", "save_zip", "save_zip", "save_model", "save_model_zip", "save_model_text"])
        if st["fn"].startswith("save_model"):
            st["path"] = rng.choice(["dir", "sub/dir", "sub/new/dir"])
        st["src"] = rng.choice(["mlp", "conv", "big", "bigbody"])
        st["bad"] = rng.random() < 0.2 and st["fn"] in ("save_protobuf", "save_zip")
        st["plan"], st["room"] = disk_faults(rng, {"open": 2, "write": 6, "close": 2, "mkdir": 2})
        return st
    rid = rng.choice(ctx.api if kind == "api" else ctx.cli)
    ref = ctx.refs.get(rid) or {}
    st["req"] = rid
    st["main"] = rng.random() < 0.4
    st["plan"], st["room"] = disk_faults(rng, ref.get("ops", {}))
    if rng.random() < 0.35:
        pr = ref.get("profile", {})
        a = common.pick(rng, pr, where=common.focus(rng, HOT, pr) if rng.random() < 0.75 else None)
        if a:
            st["cfault"] = [list(a[:3]), a[3], rng.choice(EXC)]
            if rng.random() < 0.7:
                st["plan"], st["room"] = [], None
    return st


def scenario(ctx, rng):
    sc = {"steps": [step(ctx, rng) for _ in range(rng.choice([1, 2, 2, 3]))], "decoys": sorted(rng.sample(sorted(DECOYS), rng.randint(2, len(DECOYS)))),
          "cwd": rng.random() < 0.3}
    # often: the next save replaces the file of the one before
    for a, b in zip(sc["steps"], sc["steps"][1:]):
        if rng.random() < 0.5 and not any(str(x.get("fn")).startswith("save_model") for x in (a, b)):
            b["path"] = a["path"]
    for i in reversed(range(len(sc["steps"]))):
        if any(p["how"] == "kill" for p in sc["steps"][i]["plan"]) and rng.random() < 0.7:
            # started again after it was killed
            sc["steps"].insert(i + 1, dict(sc["steps"][i], plan=[], room=None, cfault=None))
    if rng.random() < 0.4:
        sc["old"] = rng.choice([10, 3000, 300000])
    return sc


def shrink(sc):
    yield from common.seq_shrink(sc, "steps", 1)
    for i, s in enumerate(sc["steps"]):
        for j in range(len(s["plan"])):
            t = dict(s, plan=s["plan"][:j] + s["plan"][j + 1:])
            yield dict(sc, steps=sc["steps"][:i] + [t] + sc["steps"][i + 1:])
        if s.get("room") is not None:
            yield dict(sc, steps=sc["steps"][:i] + [dict(s, room=None)] + sc["steps"][i + 1:])
        if s.get("cfault"):
            yield dict(sc, steps=sc["steps"][:i] + [dict(s, cfault=None)] + sc["steps"][i + 1:])
    if sc["decoys"]:
        yield dict(sc, decoys=[])
    if sc.get("old"):
        yield dict(sc, old=None)
    if sc["cwd"]:
        yield dict(sc, cwd=False)


def helper_sources(ctx, name):
    if name not in ctx.protos:
        p, _ = common.run_request({"m": name, "kw": {}})
        q, st = common.run_request({"m": name, "kw": {"large_model": True}})
        ctx.protos[name] = p, q, st
    return ctx.protos[name]


def execute(ctx, sc, res):
    root = os.path.join(ctx.scratch, "disk")
    os.makedirs(os.path.join(root, "sub"))
    for n in sc["decoys"]:
        with open(os.path.join(root, n), "wb") as f:
            f.write(DECOYS[n])
    if any(s["path"] == "link.onnx" for s in sc["steps"]) and "linked.bin" in sc["decoys"]:
        os.symlink("linked.bin", os.path.join(root, "link.onnx"))
    if sc.get("old"):
        for s in sc["steps"]:
            p = os.path.join(root, s["path"])
            if s["kind"] != "helper" and os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p):
                with open(p, "wb") as f:
                    f.write(b"\xff" * sc["old"])
    os.chdir(root if sc["cwd"] else ctx.scratch)
    for s in sc["steps"]:
        if s["kind"] != "helper" and s["req"] not in ctx.live and ctx.reqs[s["req"]]["how"] == "api":
            m = ctx.reqs[s["req"]]["m"]
            ctx.live[s["req"]] = next((ctx.live[r] for r in ctx.live if ctx.reqs[r]["m"] == m and not m.startswith("gd_")), None) or common.model(m).build()
        if s["kind"] == "helper":
            helper_sources(ctx, s["src"])
    sig = []
    touched = False
    for k, s in enumerate(sc["steps"]):
        fired, out, ops = one(ctx, sc, k, s, root, res)
        touched = touched or ops
        sig.append([s.get("req") or s["fn"] + s["src"], s["path"], fired, out])
    res.sig = sig
    res.nontrivial = touched
    res.steps = len(sc["steps"])


def one(ctx, sc, k, s, root, res):
    path = s["path"] if sc["cwd"] else os.path.join(root, s["path"])
    before = disk.snapshot(root)
    dk = disk.Disk(root, s["plan"], s.get("room"))
    who = "step %d: %s to %s" % (k, s.get("req") or "%s(%s%s)" % (s["fn"], s["src"], ", too big" if s.get("bad") else ""), s["path"])
    plan = {}
    if s.get("cfault"):
        a, n, exc = s["cfault"]
        plan = {tuple(a) + (n,): exc}
    frozen = None
    req = ctx.reqs.get(s.get("req"))
    with dk:
        with monitor.Session(kinds=("call",), plan=plan) as ms:
            if s["kind"] == "helper":
                ok, value, check, outs = helper(ctx, s, path)
                had = not s.get("bad")
            else:
                live = ctx.live.get(s["req"])
                if req["m"].startswith("gd_"):
                    live = common.model(req["m"]).build()
                if req.get("frozen"):
                    frozen = "frozen%d.pb" % k if sc["cwd"] else os.path.join(root, "frozen%d.pb" % k)
                ok, value, ph = convert(req, live, path, frozen, s.get("main"))
                had = ph.done
                outs = [path] + ([frozen] if frozen else [])
                check = None
    if dk.dead:
        ok, value = False, disk.Killed("killed")
    for what, _ in dk.fired:
        res.fault("disk " + what)
    for f in ms.fired:
        res.fault("call " + f["exc"])
    who += " with %s" % (", ".join(["%s of %s" % x for x in dk.fired] + ["%(exc)s at %(at)s %(what)s" % f for f in ms.fired]) or "no failure")
    after = disk.snapshot(root)
    outs = {os.path.relpath(os.path.realpath(p), root) for p in outs} | {os.path.normpath(os.path.relpath(os.path.join(os.getcwd(), p), root)) for p in outs}
    # 1. files nobody asked to write
    for n in sorted(set(before) | set(after)):
        if before.get(n) != after.get(n) and n not in outs and not (s["kind"] == "helper" and s["fn"].startswith("save_model") and n.startswith(s["path"] + "/") and not n.endswith("keep.bin")):
            if after.get(n) == ("dir",) and n not in before:
                continue
            if n not in before and not ok:
                continue    # a temporary file that could not be put in place or removed
            raise Violation("other file", "%s: %s was %s" % (who, n, "created" if n not in before else "removed" if n not in after else "changed"))
    # 2. nothing to save
    serial = any("SerializeToString" in f["what"] for f in ms.fired)
    if not ok and (not had or serial):
        skip = {os.path.relpath(os.path.join(os.getcwd(), frozen), root)} if frozen else set()
        for n in outs - skip:
            if before.get(n) != after.get(n):
                raise Violation("touched", "%s failed before there was something to save (%s), and left %s %s" % (
                    who, type(value).__name__, n, _state(before.get(n), after.get(n))))
    hard = [x for x in dk.fired if x[0] != "short"] + ms.fired
    # 3. success
    if ok:
        if s["kind"] == "helper":
            bad = check()
        else:
            bad = complete(ctx, s, req, path, frozen, value)
        if bad:
            raise Violation("incomplete", "%s reported success, but %s" % (who, bad))
        if s.get("bad"):
            raise Violation("hidden", "%s reported success" % who)
    elif not hard and not s.get("bad"):
        ref = ctx.refs.get(s.get("req"))
        if ref is None or ref["ok"]:
            raise Violation("failed", "%s: %s: %s" % (who, type(value).__name__, str(value)[:300]))
    res.probe("saved" if ok else "failed")
    return [list(x) for x in dk.fired] + [f["what"] for f in ms.fired], "ok" if ok else type(value).__name__, bool(dk.log)


def _state(b, a):
    if b is None:
        return "behind (%s bytes)" % (len(a) if a is not None else "?")
    if a is None:
        return "deleted"
    return "changed from %d to %d bytes" % (len(b), len(a))


def complete(ctx, s, req, path, frozen, value):
    p, st, bad = load(path, req["kw"].get("large_model"))
    if bad:
        return "the model file is not complete: " + bad
    if req["how"] == "api":
        proto, storage = value
        if not same_proto(p, proto):
            return "the file has another model than the one returned"
        if req["kw"].get("large_model") and {k: bytes(v) for k, v in storage.name_to_tensor_data.items()} != st:
            return "the file has other tensors than the ones returned"
    else:
        ref = ctx.refs.get(s["req"])
        if ref and ref["ok"] and not s.get("cfault") and common.norm(canon.model_form(p, st))["hash"] != ref.get("form"):
            return "the file has another model than a run without failures writes"
    if frozen:
        ref = ctx.refs.get(s["req"]) or {}
        h, bad = load_frozen(frozen)
        if bad:
            return "the frozen graph is not complete: " + bad
        if ref.get("frozen_bad"):
            return "the frozen graph is not complete: " + ref["frozen_bad"]
        if ref.get("frozen") and not s.get("cfault") and h != ref["frozen"]:
            return "the frozen graph differs from the one a run without failures writes"
    return None


def helper(ctx, s, path):
    """-> (reported success, value, check of the files, files that may change)"""
    from tf2onnx import utils
    p, q, storage = ctx.protos[s["src"]]
    fn = s["fn"]
    if s.get("bad"):
        p = q = Unserialisable()
    data = {k: bytes(v) for k, v in storage.name_to_tensor_data.items()}
    outs = [path]

    def one_file(where, want):
        got, _, bad = load(where, False)
        if bad:
            return "%s is not complete: %s" % (os.path.basename(where), bad)
        return None if same_proto(got, want) else "another model was saved"

    def text(where):
        import onnx
        from google.protobuf import text_format
        try:
            with open(where) as f:
                got = text_format.Parse(f.read(), onnx.ModelProto())
        except Exception as e:      # pylint: disable=broad-except
            return "the text is not complete: %s" % e
        return None if same_proto(got, p if fn != "save_model_zip" else q) else "another model was saved as text"

    def zipped(where):
        got, st, bad = load(where, True)
        if bad:
            return "the zip is not complete: " + bad
        if not same_proto(got, q) or st != data:
            return "another model was saved"
        return None

    feed = {"x:0": np.arange(6, dtype=np.float32).reshape(2, 3), "y": np.ones(3, np.int64)}

    def directory():
        big = fn == "save_model_zip"
        if big:
            bad = zipped(os.path.join(path, "m.zip"))
            if bad:
                return bad
            for n, v in data.items():
                with open(os.path.join(path, n), "rb") as f:
                    if f.read() != v:
                        return "tensor %s extracted incompletely" % n
            bad = one_file(os.path.join(path, "__MODEL_PROTO.onnx"), q)
        else:
            bad = one_file(os.path.join(path, "m.onnx"), p)
        if not bad and fn == "save_model_text":
            bad = text(os.path.join(path, "m.onnx.pbtxt"))
        import onnx
        for i, (n, v) in enumerate(feed.items()):
            t = onnx.TensorProto()
            with open(os.path.join(path, "test_data_set_0", "input_%d.pb" % i), "rb") as f:
                t.ParseFromString(f.read())
            if t.name != n or not np.array_equal(onnx.numpy_helper.to_array(t), v):
                return "test data %s is not complete" % n
        return bad

    try:
        if fn == "save_protobuf":
            utils.save_protobuf(path, p)
            return True, None, lambda: one_file(path, p), outs
        if fn == "save_text":
            utils.save_protobuf(path, p, as_text=True)
            return True, None, lambda: text(path), outs
        if fn == "save_zip":
            utils.save_onnx_zip(path, q, storage)
            return True, None, lambda: zipped(path), outs
        if fn == "save_model_zip":
            utils.save_onnx_model(path, "m", feed, q, include_test_data=True, external_tensor_storage=storage)
        else:
            utils.save_onnx_model(path, "m", feed, p, include_test_data=True, as_text=fn == "save_model_text")
        return True, None, directory, outs
    except BaseException as e:      # pylint: disable=broad-except
        return False, e, None, outs
