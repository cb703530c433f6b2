"""C10: an interrupt ends the conversion.

Simulated: KeyboardInterrupt (or SystemExit, as a signal handler of the caller would raise) delivered at seeded places where
CPython delivers signals - function entry, return from C code, backward jump - inside the converter; any source kind, with and
without an output path; sometimes in one of a history of conversions.
Checked: the caller gets that exception (the command line: dies of it), nothing was saved, an existing output file is as it was,
and converting again afterwards, with the same objects, gives the model a fresh process gives."""
import os

from sim import canon, determinism, monitor
from sim.harness import Violation
from . import common

PROPERTY = "C10"
EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit"]
HOT = ("tf2onnx.tf_loader", "tf2onnx.convert", "tf2onnx.tf_utils", "tf2onnx.shape_inference", "tf2onnx.tfonnx", "tf2onnx.graph",
       "tf2onnx.tflite_utils", "tf2onnx.tfjs_utils", "tf2onnx.utils", "tf2onnx.optimizer", "tf2onnx.schemas")


def _fresh(rid, req):
    determinism.begin(None)
    e = common.model(req["m"])
    live = e.build()
    pr, gs = {}, set()
    with monitor.Session(kinds=("point",), profile=pr, guards=gs):
        o = common.outcome(req, live)
    g = sorted([*k, pr[k]] for k in gs)
    rng = common.derived("guarded", rid)
    if len(g) > 400:
        g = sorted(rng.sample(g, 400))
    return o, common.compact(pr, rid, 4), g


def make_refs(ctx, i, n):
    reqs = common.requests()
    res = {}
    for k, rid in enumerate(sorted(reqs)):
        if k % n == i:
            res[rid], res["profile/" + rid], res["guarded/" + rid] = common.fork_call(_fresh, rid, reqs[rid])
    return res


def setup(ctx):
    common.load()
    ctx.reqs = common.requests()
    ctx.names = sorted(ctx.reqs)


def scenario(ctx, rng):
    rid = rng.choice(ctx.names)
    pr = ctx.refs["profile/" + rid]
    g = ctx.refs["guarded/" + rid]
    if g and rng.random() < 0.5:
        fn = rng.choice(sorted({x[1] for x in g}))
        k, w, t, n = rng.choice([x for x in g if x[1] == fn])
        f = [[k, w, t], rng.choice([1, n, rng.randint(1, n)])]
    else:
        a = common.pick(rng, pr, where=common.focus(rng, HOT, pr) if rng.random() < 0.5 else None)
        f = [list(a[:3]), a[3]]
    return {"req": rid, "fault": f + [rng.choice(EXC)], "out": rng.choice([None, "new", "existing"]),
            "again": rng.random() < 0.25}


def execute(ctx, sc, res):
    rid = sc["req"]
    req = ctx.reqs[rid]
    live = common.model(req["m"]).build()
    key, n, exc = sc["fault"]
    out = os.path.join(ctx.scratch, "m.onnx") if sc["out"] else None
    before = b"what was there before"
    if sc["out"] == "existing":
        with open(out, "wb") as f:
            f.write(before)
    s = monitor.Session(kinds=("point",), plan={(*key, n): exc},
                        code_filter=lambda mm, c: "%s:%s" % (mm, c.co_qualname) == key[1])
    err = None
    try:
        with s:
            common.run_request(req, live, out)
    except BaseException as e:
        err = e
    res.steps += s.count
    if not s.fired:
        res.nontrivial = False
        if err is not None and not isinstance(err, Exception):
            raise err
        return
    res.fault("interrupt: " + exc)
    res.sig = [rid, key, n, exc, type(err).__name__]
    where = "%s at %s %s while converting %s" % (exc, key[1], key[2], rid)
    if type(err).__name__ != exc:
        raise Violation("interrupt lost", "%s: the conversion %s" % (where, "went on and returned a model" if err is None else
                        "ended with %s: %s" % (type(err).__name__, str(err)[:200])))
    if "injected" not in str(err):
        raise Violation("interrupt replaced", "%s: the conversion ended with another %s: %s" % (where, exc, str(err)[:200]))
    if out is not None and not saving(err):
        now = None
        if os.path.exists(out):
            with open(out, "rb") as f:
                now = f.read()
        if now != (before if sc["out"] == "existing" else None) and not complete(now, ctx.refs[rid]):
            raise Violation("saved after interrupt", "%s: the output file was written" % where)
        res.probe("output untouched")
    if sc["again"]:
        got = common.outcome(req, live)
        d = common.compare(got, ctx.refs[rid])
        if d:
            raise Violation("after an interrupt", "%s: converting again gives %s" % (where, d))
        res.probe("converted again after the interrupt")


def complete(content, ref):
    """The interrupt came after the model had been saved."""
    import io
    import zipfile
    import onnx
    p = onnx.ModelProto()
    st = None
    try:
        if content[:2] == b"PK":
            from tf2onnx.graph import ExternalTensorStorage
            st = ExternalTensorStorage()
            with zipfile.ZipFile(io.BytesIO(content)) as z:
                for n in z.namelist():
                    if n.endswith(".onnx"):
                        p.ParseFromString(z.read(n))
                    else:
                        st.name_to_tensor_data[n] = z.read(n)
        else:
            p.ParseFromString(content)
    except Exception:
        return False
    return ref[0] == "ok" and canon.model_form(p, st)["hash"] == ref[1]["hash"]


def saving(err):
    """Was the interrupt delivered while the file was being written?"""
    tb = err.__traceback__
    last = None
    while tb is not None:
        if tb.tb_frame.f_globals.get("__name__") == "tf2onnx.utils":
            last = tb.tb_frame.f_code.co_qualname
        tb = tb.tb_next
    return last is not None and last.startswith("save_")


def shrink(sc):
    if sc["again"]:
        yield dict(sc, again=False)
    if sc["out"]:
        yield dict(sc, out=None)
    f = sc["fault"]
    if f[1] > 1:
        yield dict(sc, fault=[f[0], 1, f[2]])
    if f[2] != "KeyboardInterrupt":
        yield dict(sc, fault=[f[0], f[1], "KeyboardInterrupt"])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
