"""C06: a conversion does not modify what the caller gave it, whether it succeeds or fails.

Simulated: failures of calls out of tf2onnx and of the caller's own callbacks at seeded places, one or two per conversion.
Checked: a snapshot of the model (weights, configuration, names, traced graphs, what it computes; bytes of a GraphDef or
file) and of every option object before and after."""
import hashlib
import os
import shutil

import numpy as np

from sim import monitor, zoo
from sim.harness import Violation
from . import common

PROPERTY = "C06"
EXC = ["RuntimeError", "ValueError", "KeyError", "OSError", "MemoryError", "TypeError", "AttributeError", "KeyboardInterrupt",
       "NotImplementedError", "AssertionError"]
HOT = ("tf2onnx.tf_loader", "tf2onnx.convert", "tf2onnx.tf_loader", "tf2onnx.convert", "tf2onnx.tf_utils", "tf2onnx.shape_inference", "tf2onnx.tfonnx",
       "tf2onnx.tflite_utils", "tf2onnx.tfjs_utils", "tf2onnx.utils")


def _reqs():
    r = dict(common.requests())

    def add(m, tag, **kw):
        r[m + ":" + tag] = {"m": m, "kw": kw}
    d = [["verif.dom", 1], ["verif.custom", 1]]
    add("custom", "both", custom_ops={"Betainc": "verif.dom"}, handlers={"Tanh": "ok"}, extra_opset=d)
    add("while", "both", custom_ops={"Tanh": "verif.dom"}, handlers={"MatMul": "boom"}, extra_opset=d)
    add("mlp", "both", custom_ops={"Softmax": "verif.dom"}, handlers={"Relu": "mul"}, extra_opset=d)
    add("k_func", "both", custom_ops={"Sigmoid": "verif.dom"}, handlers={"Relu": "mul"}, extra_opset=d)
    add("tfl_mlp", "both", custom_ops={"TFL_SOFTMAX": "verif.dom"}, handlers={"TFL_FULLY_CONNECTED": "ok"}, extra_opset=d)
    add("gd_mlp", "all", custom_ops={"Softmax": "verif.dom"}, handlers={"Relu": "mul"}, extra_opset=d, rewriter=["ok"],
        tensors_to_rename={"x:0": "inp"}, shape_override={"x:0": [5, 6]}, target=["rs6"], opset=12)
    add("gd_conv", "all", inputs_as_nchw=["x"], shape_override={"x:0": [1, 9, 9, 2]}, rewriter=["ok", "boom"],
        tensors_to_rename={"x:0": "inp"})
    add("k_cnn", "all", custom_ops={"Softmax": "verif.dom"}, handlers={"Relu": "ok"}, extra_opset=d, rewriter=["ok"])
    add("gdd_conv", "all", inputs_as_nchw=["x:0"], outputs_as_nchw=["Identity:0"], shape_override={"x:0": [1, 9, 9, 2]},
        rewriter=["ok", "boom"], tensors_to_rename={"x:0": "inp", "Identity:0": "out"})
    add("conv", "all", inputs_as_nchw=["x:0"], outputs_as_nchw=["Identity:0"], shape_override={"x:0": [1, 9, 9, 2]})
    for m in ("mlp", "while", "cond", "shapes", "einsum"):
        r["gdd_" + m] = {"m": "gdd_" + m, "kw": {}}
    add("k_dupnames", "o13", opset=13)
    add("k_dupnames", "large", large_model=True)
    add("k_cnn", "large", large_model=True)
    add("k_table", "o13", opset=13)
    add("k_func", "optim", optimizers=["remove_identity", "const_fold_optimizer"])
    add("k_dupnames", "boom", rewriter=["boom"])
    for m in ("v1_while", "v1_cond", "v1_nested", "v1_lstm"):
        r[m] = {"m": m, "kw": {}}
    for m in ("sm_table_a", "sm_table_b", "sm_mlp", "sm_while"):
        for k in ("tr_", "trs_"):
            r[k + m] = {"m": k + m, "kw": {}}
            r[k + m + ":large"] = {"m": k + m, "kw": {"large_model": True}}
    for m in ("mlp", "conv", "while", "cond", "nested", "shapes", "v1_while", "v1_cond", "v1_lstm"):
        r["tg_" + m] = {"m": "tg_" + m, "kw": {}}
    return r


class Trackable:
    """A function of a loaded SavedModel handed to the loader, as evaluation scripts do."""
    kind, tags = "function", frozenset()

    def __init__(self, src, api):
        self.src, self.api = src, api
        self.file = common.model(src)

    def build(self):
        t = zoo.tf()
        imp = t.saved_model.load(self.file.path)
        return {"obj": imp.signatures["serving_default"], "imported": imp, "sig": None, "path": self.file.path}

    def convert(self, live, **kw):
        from tf2onnx import tf_loader
        cf = live["obj"]
        if self.api == "saved_model":
            r = tf_loader.from_saved_model(live["path"], None, None, return_concrete_func=True, **kw)
            live["obj"], live["imported"] = r[3], r[4]
            return None, None
        inner = {x.name for x in cf.graph.function_captures.by_val_internal.values()}
        ins = [x.name for x in cf.inputs if x.name not in inner]
        tf_loader.from_trackable(live["imported"], cf, ins, [x.name for x in cf.outputs], kw.get("large_model", False))
        return None, None

    def feeds(self, seed):
        return self.file.feeds(seed)

    def reference(self, live, feeds):
        t = zoo.tf()
        cf = live["obj"]
        names = sorted(cf.structured_input_signature[1])
        out = cf(**{n: t.constant(x) for n, x in zip(names, feeds)})
        return [np.asarray(out[k]) for k in sorted(out)]


class TFGraph:
    """A tf.Graph of the caller handed to process_tf_graph."""
    kind, tags = "tfgraph", frozenset()

    def __init__(self, src):
        self.src = common.model(src)

    def build(self):
        t = zoo.tf()
        gd, ins, outs = zoo.freeze(self.src.build()) if isinstance(self.src, zoo.Fn) else (None, None, None)
        if gd is None:
            live = self.src.build()
            gd, ins, outs = live["obj"], live["ins"], live["outs"]
        g = t.Graph()
        with g.as_default():
            t.import_graph_def(gd, name="")
        return {"obj": g, "ins": ins, "outs": outs}

    def convert(self, live, **kw):
        from tf2onnx import optimizer, tfonnx
        with live["obj"].as_default():
            g = tfonnx.process_tf_graph(live["obj"], input_names=live["ins"], output_names=live["outs"], **kw)
        return optimizer.optimize_graph(g).make_model("verif"), None


def entry(m):
    if m.startswith("tr_"):
        return Trackable(m[3:], "trackable")
    if m.startswith("trs_"):
        return Trackable(m[4:], "saved_model")
    if m.startswith("tg_"):
        return TFGraph(m[3:])
    return common.model(m)


def make_refs(ctx, i, n):
    return common.fresh_outcomes(_reqs(), i, n, kinds=("call",), dense=HOT, entry=entry)


def setup(ctx):
    common.load()
    ctx.reqs = _reqs()
    ctx.names = sorted(ctx.reqs)
    ctx.rich = [r for r in ctx.names if set(ctx.reqs[r]["kw"]) - {"opset"} or ctx.reqs[r]["m"].startswith(("k_", "tr", "tg"))]
    ctx.live = {}


def scenario(ctx, rng):
    rid = rng.choice(ctx.names) if rng.random() < 0.4 else rng.choice(ctx.rich)
    faults = []
    if rng.random() < 0.85:
        for _ in range(rng.choice([1, 1, 1, 2])):
            pr = ctx.refs["profile/" + rid]
            a = common.pick(rng, pr, where=common.focus(rng, HOT, pr) if rng.random() < 0.7 else None)
            if a:
                faults.append([list(a[:3]), a[3], rng.choice(EXC)])
    return {"req": rid, "faults": faults, "out": rng.random() < 0.2}


_ids = {}


def deep(x, depth=0):
    """Structure, contents and (for callables and other objects) identity."""
    if isinstance(x, dict):
        return ["dict"] + sorted(([repr(k), deep(v, depth + 1)] for k, v in x.items()), key=lambda p: p[0])
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [deep(v, depth + 1) for v in x]
    if x is None or isinstance(x, (str, int, float, bool, bytes)):
        return repr(x)
    return "%s#%d" % (getattr(x, "__qualname__", type(x).__name__), _ids.setdefault(id(x), len(_ids)))


def sha(b):
    return hashlib.sha1(b).hexdigest()[:16]


def graph_bytes(g):
    return sha(g.as_graph_def().SerializeToString(deterministic=True))


def model_state(e, live, probe=True):
    """{what: value}"""
    s = {}
    o = live["obj"]
    if e.kind == "keras":
        s["weights"] = [sha(np.ascontiguousarray(w).tobytes()) for w in o.get_weights()]
        s["configuration"] = _js(o)
        s["output names"] = list(o.output_names)
        s["input names"] = list(o.input_names)
        s["attributes"] = sorted(k for k in vars(o) if not k.startswith("_"))
        s["call method"] = "call" in vars(o)
        s["layers"] = [(id(la), la.name, la.trainable, "call" in vars(la)) for la in o.layers]
        s["compiled"] = o.optimizer is not None
    elif e.kind == "function":
        cf = o
        if live["sig"] is not None:
            cf = o.get_concrete_function(*live["sig"])
            s["signature"] = [str(x) for x in live["sig"]]
        s["variables"] = [sha(v.numpy().tobytes()) for v in cf.variables]
        if "path" not in live:      # the ones of a SavedModel get other names at each load
            s["traced graph"] = graph_bytes(cf.graph)
        s["captured tensors"] = [str(t.name) for t in cf.graph.internal_captures]
        s["inputs of the traced graph"] = [(t.name, str(t.shape)) for t in cf.inputs]
        s["outputs of the traced graph"] = [(t.name, str(t.shape)) for t in cf.outputs]
    elif e.kind == "tfgraph":
        s["graph"] = graph_bytes(o)
        s["finalized"] = o.finalized
        s["names"] = [list(live["ins"]), list(live["outs"])]
    elif e.kind in ("graphdef", "raw"):
        if e.kind == "raw":
            s["the tf.Graph it was given"] = live.pop("changed graph", None)
        s["graph"] = sha(o.SerializeToString(deterministic=True))
        s["names"] = [list(live["ins"]), list(live["outs"])]
    elif e.kind == "onnx":
        s["model"] = sha(o.SerializeToString(deterministic=True))
    else:
        s["files"] = sorted(files(o))
    if probe and e.kind in ("keras", "function"):
        s["results"] = [sha(np.ascontiguousarray(v).tobytes()) if v.dtype.kind != "O" else repr(v.tolist())
                        for v in e.reference(live, e.feeds(5))] if "random" not in e.tags else None
    return s


def _js(o):
    try:
        return o.to_json()
    except Exception as ex:   # e.g. a layer that cannot be serialised
        return type(ex).__name__


def files(path):
    if os.path.isdir(path):
        for r, ds, fs in os.walk(path):
            for f in fs:
                p = os.path.join(r, f)
                yield os.path.relpath(p, path), sha(open(p, "rb").read())
    else:
        yield os.path.basename(path), sha(open(path, "rb").read())


def execute(ctx, sc, res):
    rid = sc["req"]
    req = ctx.reqs[rid]
    e = entry(req["m"])
    if "file" in e.tags:
        p = os.path.join(ctx.scratch, os.path.basename(e.path))
        (shutil.copytree if os.path.isdir(e.path) else shutil.copyfile)(e.path, p)
        if e.kind == "checkpoint":
            d = os.path.dirname(e.path)
            p = os.path.join(ctx.scratch, "ck", os.path.basename(e.path))
            shutil.copytree(d, os.path.dirname(p))
        elif e.kind == "tfjs":
            d = os.path.dirname(e.path)
            p = os.path.join(ctx.scratch, "js", os.path.basename(e.path))
            shutil.copytree(d, os.path.dirname(p))
        live = {"obj": p}
    else:
        if rid not in ctx.live:
            ctx.live[rid] = e.build()
        live = ctx.live[rid]
    kw = common.realise(req["kw"])
    _ids.clear()
    before = model_state(e, live)
    opts = {k: deep(v) for k, v in kw.items()}
    if sc["out"]:
        kw["output_path"] = os.path.join(ctx.scratch, "o", "m.onnx")
    ws = {k[1] for k, n, exc in sc["faults"]}
    s = monitor.Session(kinds=("call",), plan={(*k, n): exc for k, n, exc in sc["faults"]},
                        code_filter=lambda mm, c: "%s:%s" % (mm, c.co_qualname) in ws)
    try:
        if ws:
            with s:
                e.convert(live, **kw)
        else:
            e.convert(live, **kw)
        o = "finished"
    except (Exception, KeyboardInterrupt, SystemExit) as ex:
        o = type(ex).__name__
    for f in s.fired:
        res.fault("call fails: %s" % f["exc"])
    res.steps += s.count
    res.probe("ended: " + ("finished" if o == "finished" else "failed"))
    res.sig = [rid, o, [[f["at"], f["what"], f["exc"]] for f in s.fired]]
    why = "converting %s (%s%s)" % (rid, o, "".join("; %s in %s" % (f["exc"], f["at"]) for f in s.fired))
    for k, v in opts.items():
        if deep(kw[k]) != v:
            ctx.live.pop(rid, None)
            raise Violation("option modified: " + k, "%s changed %s from %s to %s" % (why, k, str(v)[:300], str(deep(kw[k]))[:300]))
    try:
        after = model_state(e, live)
    except Exception as ex:
        ctx.live.pop(rid, None)
        raise Violation("model unusable", "after %s the caller's model fails with %s: %s" % (why, type(ex).__name__, str(ex)[:300]))
    for k, v in before.items():
        if after[k] != v:
            ctx.live.pop(rid, None)
            raise Violation("model modified: " + k, "%s changed %s of the model from %s to %s" % (
                why, k, str(v)[:300], str(after[k])[:300]))


def shrink(sc):
    if sc["faults"]:
        yield dict(sc, faults=[])
        for c in common.seq_shrink(sc, "faults", 1):
            yield c
    if sc["out"]:
        yield dict(sc, out=False)
    for i, f in enumerate(sc["faults"]):
        if f[2] != "RuntimeError":
            yield dict(sc, faults=sc["faults"][:i] + [[f[0], f[1], "RuntimeError"]] + sc["faults"][i + 1:])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
