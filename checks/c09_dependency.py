"""C09: a failure of something a conversion uses never leads to a wrong model.

Simulated: calls out of tf2onnx (TensorFlow, numpy, onnx, protobuf, the TFLite interpreter, files, imports) that fail at
seeded places: once, at several places, or every time from the n-th call on (a dependency that is down, memory that has run
out).
Checked: the conversion ends (with an exception or a model); a model it returns accepts the inputs of the source model and
computes what the source model computes."""
import contextlib

from sim import canon, determinism, monitor, zoo
from sim.harness import LogCapture, Violation
from . import common

PROPERTY = "C09"
EXC = ["RuntimeError", "ValueError", "KeyError", "OSError", "MemoryError", "TypeError", "AttributeError", "NotImplementedError",
       "IndexError", "RecursionError"]
# where a failed call could change what is converted rather than how it is optimised
HOT = ("tf2onnx.tf_loader", "tf2onnx.convert", "tf2onnx.tf_utils", "tf2onnx.shape_inference", "tf2onnx.tfonnx",
       "tf2onnx.tflite_utils", "tf2onnx.tfjs_utils", "tf2onnx.graph", "tf2onnx.utils", "tf2onnx.schemas",
       "tf2onnx.tf_loader", "tf2onnx.convert", "tf2onnx.tf_utils", "tf2onnx.optimizer.const_fold_optimizer")


def _reqs():
    r = {}
    for k, v in common.requests().items():
        if set(v["kw"]) <= {"opset", "large_model", "shape_override", "rewriter"} or k.endswith("nchw"):
            r[k] = v
    return r


def _fresh(rid, req):
    determinism.begin(None)
    e = common.model(req["m"])
    live = e.build()
    pr, gs = {}, set()
    want = None
    with monitor.Session(kinds=("call",), profile=pr, guards=gs):
        o, kept = common.outcome_kept(req, live)
    if o[0] == "ok" and "random" not in e.tags and "nchw" not in rid:
        feeds = e.feeds(1)
        try:
            d = mismatch(kept, e, feeds, e.reference(live, feeds), ios(kept[0]))
        except Exception as x:
            d = "not executable: %s" % str(x)[:200]
        want = d or True
    return {"outcome": [o[0], o[1]["hash"] if o[0] == "ok" else o[1]], "values": want,
            "io": ios(kept[0]) if o[0] == "ok" else None,
            "guarded": sorted([*k, pr[k]] for k in gs)}, common.compact(pr, rid, dense=HOT)


def ios(p):
    """What a user of the model must know: names and element types of inputs and outputs."""
    return [[[v.name, v.type.tensor_type.elem_type] for v in vs] for vs in (p.graph.input, p.graph.output)]


def mismatch(kept, e, feeds, want, io):
    p, st = kept
    if ios(p) != io:
        return "inputs and outputs are %s instead of %s" % (ios(p), io)
    if st is None:
        got = zoo.run_onnx(p, feeds)
    else:
        import tempfile
        with tempfile.TemporaryDirectory(prefix="verif-large-") as d:
            for k, v in st.name_to_tensor_data.items():
                with open(os.path.join(d, k), "wb") as f:
                    f.write(v)
            path = os.path.join(d, "m.onnx")
            with open(path, "wb") as f:
                f.write(p.SerializeToString())
            got = zoo.run_onnx(path, feeds)
    return zoo.same_values(got, want, max(e.rtol, 1e-3), max(e.atol, 1e-3))


def make_refs(ctx, i, n):
    reqs = _reqs()
    res = {}
    for k, rid in enumerate(sorted(reqs)):
        if k % n == i:
            res[rid], res["profile/" + rid] = common.fork_call(_fresh, rid, reqs[rid])
    return res


def setup(ctx):
    common.load()
    ctx.reqs = _reqs()
    ctx.names = sorted(ctx.reqs)
    ctx.guarded = {}


def scenario(ctx, rng):
    names = [r for r in ctx.names if ctx.refs[r]["values"] is True]
    rid, faults = rng.choice(names), []
    if rng.random() < 0.5:
        # the place first, so that each place where a failure is caught is met, however few conversions come by
        if not ctx.guarded:
            for r in names:
                for k, w, t, n in ctx.refs[r]["guarded"]:
                    core = not w.startswith(("tf2onnx.onnx_opset.", "tf2onnx.tflite_handlers.", "tf2onnx.rewriter."))
                    ctx.guarded.setdefault(core, {}).setdefault(w, {}).setdefault((k, w, t), []).append((r, n))
        fns = ctx.guarded[rng.random() < 0.8]
        at = fns[rng.choice(sorted(fns))]
        place = rng.choice(sorted(at))
        # a conversion that comes by often has more to lose
        rid, n = rng.choices(at[place], [x[1] for x in at[place]])[0] if rng.random() < 0.6 else rng.choice(at[place])
        faults.append([list(place), rng.choice([1, n, rng.randint(1, n), rng.randint(1, n)]), rng.choice(EXC), rng.random() < 0.4])
    pr = ctx.refs["profile/" + rid]
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if not faults else rng.choice([0, 0, 0, 1])):
        g = ctx.refs[rid]["guarded"]
        if g and rng.random() < 0.6:
            fn = rng.choice(sorted({x[1] for x in g}))
            k, w, t, n = rng.choice([x for x in g if x[1] == fn])
            faults.append([[k, w, t], rng.choice([1, n, rng.randint(1, n)]), rng.choice(EXC), rng.random() < 0.4])
            continue
        a = common.pick(rng, pr, where=common.focus(rng, HOT, pr) if rng.random() < 0.7 else None)
        if a:
            faults.append([list(a[:3]), a[3], rng.choice(EXC), rng.random() < 0.4])
    return {"req": rid, "faults": faults, "strict": rng.random() < 0.8}


def execute(ctx, sc, res):
    rid = sc["req"]
    req = ctx.reqs[rid]
    e = common.model(req["m"])
    live = e.build()
    ref = ctx.refs[rid]
    feeds = e.feeds(1)
    if ("want", req["m"]) not in ctx.cache:
        ctx.cache[("want", req["m"])] = e.reference(live, feeds)
    want = ctx.cache[("want", req["m"])]
    plan = {(*k, (n, "on") if on else n): exc for k, n, exc, on in sc["faults"]}
    ws = {f[0][1] for f in sc["faults"]}
    s = monitor.Session(kinds=("call",), plan=plan, code_filter=lambda mm, c: "%s:%s" % (mm, c.co_qualname) in ws)
    kept = None
    log = LogCapture()
    try:
        with strict() if sc["strict"] else contextlib.nullcontext(), log, s:
            kept = common.run_request(req, live)
        o = "finished"
    except Exception as x:
        o = type(x).__name__
    for f in s.fired:
        res.fault("call fails: %s" % f["exc"])
    places = sorted({"%s in %s" % (f["exc"], f["at"]) for f in s.fired})
    res.steps += s.count
    res.sig = [rid, o, sorted({(f["at"], f["what"], f["exc"]) for f in s.fired})]
    if not s.fired:
        res.nontrivial = False
        return
    res.probe("ended: " + ("finished" if kept else "failed"))
    if not kept:
        return
    if canon.model_form(*kept)["hash"] == ref["outcome"][1]:
        res.probe("same model in spite of the failure")
        return
    res.probe("another model after the failure, executed")
    try:
        d = mismatch(kept, e, feeds, want, ref["io"])
    except Exception as x:
        d = "ONNX Runtime rejects it: %s" % str(x)[:400]
        if "No Op registered for" in d and any(str(m).startswith("Unsupported ops") for m in log.errors()):
            # the documented way of reporting what could not be converted: an error in the log, the op left in the model
            res.probe("unsupported ops reported as an error")
            return
    if d and log.errors() and not sc["strict"]:
        res.probe("wrong model, and the failure was reported as an error")
        return
    if d:
        raise Violation("wrong model", "converting %s after %s returned a model that is wrong: %s (warnings: %s)" % (
            rid, ", ".join(places[:3]), d, "; ".join(log.warnings()) or "none"))


@contextlib.contextmanager
def strict():
    """The same conversion with continue_on_error off, as on the command line: from_function and its like switch it on,
    so that a failing op handler is reported in the log only (that is C08)."""
    from tf2onnx import convert
    orig = convert.process_tf_graph

    def process_tf_graph(*a, **k):
        if "continue_on_error" in k:
            k["continue_on_error"] = False
        return orig(*a, **k)
    convert.process_tf_graph = process_tf_graph
    try:
        yield
    finally:
        convert.process_tf_graph = orig


def shrink(sc):
    for c in common.seq_shrink(sc, "faults", 1):
        yield c
    for i, f in enumerate(sc["faults"]):
        for g in ([f[0], f[1], f[2], False] if f[3] else None,
                  [f[0], f[1], "RuntimeError", f[3]] if f[2] != "RuntimeError" else None):
            if g:
                yield dict(sc, faults=sc["faults"][:i] + [g] + sc["faults"][i + 1:])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
