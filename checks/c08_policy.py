"""C08: what happens when an op handler or a graph rewriter fails.

Simulated: failures of handlers and rewriters - an exception at a seeded source line of a built-in one, or at the k-th
call of one supplied by the caller - on any graph (main, function body, If/Loop body).
Checked: with continue_on_error off a failure that leaves the handler or rewriter fails the conversion; with it on, the
conversion goes on, what failed is reported at error level, and a caller's callback that fails before it does anything has
the same effect as one that does nothing.  A model that does come out without a reported failure computes what TensorFlow
computes."""
import sys

from sim import canon, determinism, monitor, zoo
from sim.harness import LogCapture, Violation
from . import common

PROPERTY = "C08"
EXC = ["RuntimeError", "ValueError", "KeyError", "TypeError", "AttributeError", "IndexError", "AssertionError",
       "NotImplementedError", "ZeroDivisionError", "MemoryError", "OSError", "RecursionError"]
FN = ["mlp", "conv", "conv_chain", "while", "nested", "cond", "tensor_array", "einsum", "shapes", "transposes", "consts",
      "reduce", "dup", "gemm", "ints", "fakequant", "gather_scatter", "resize", "batchmm", "cond_in_loop", "nhwc_add",
      "padconv", "pool3d", "random"] + list(common.OPS)
V1 = ["v1_while", "v1_cond", "v1_nested", "v1_lstm", "v1_gru", "v1_bilstm", "v1_multi", "v1_names"]
TFL = ["tfl_mlp", "tfl_conv", "tfl_while", "tfl_shapes", "tfl_nhwc_add"]
CALLBACK_OPS = {"while": ["Tanh", "Relu", "MatMul"], "nested": ["Relu", "MatMul"], "mlp": ["Relu", "Softmax", "Mean"],
                "cond": ["Relu", "ConcatV2"], "conv": ["Conv2D", "Relu"], "v1_while": ["Relu", "MatMul"],
                "v1_cond": ["Relu", "Maximum", "Transpose"], "v1_nested": ["Relu", "LeakyRelu", "MatMul"],
                "cond_in_loop": ["Relu", "MatMul"], "shapes": ["Reshape", "Transpose"], "ints": ["FloorMod", "FloorDiv"],
                "dup": ["Relu", "Tanh"], "v1_lstm": ["Sigmoid", "Tanh"]}


def variants():
    r = {}
    for m in FN + V1 + TFL:
        r[m] = {"m": m}
    for m, o in (("while", 11), ("while", 18), ("conv", 18), ("cond", 18), ("reduce", 18), ("shapes", 18), ("mlp", 9),
                 ("v1_while", 18), ("v1_cond", 11), ("v1_nested", 13), ("v1_lstm", 10), ("v1_gru", 13), ("resize", 11),
                 ("resize", 18), ("einsum", 18), ("tensor_array", 13), ("random", 18), ("gather_scatter", 11)):
        r["%s:o%d" % (m, o)] = {"m": m, "opset": o}
    r["conv:nchw"] = {"m": "conv", "nchw": True}
    for m, t in (("mlp", "rs6"), ("mlp", "rs5"), ("dup", "rs6"), ("shapes", "rs5"), ("conv", "rs6"), ("reduce", "rs5"),
                 ("conv", "nhwc"), ("conv_chain", "nhwc"), ("padconv", "nhwc"), ("nhwc_add", "nhwc"), ("tfl_conv", "nhwc"),
                 ("while", "nhwc"), ("v1_cond", "rs6"), ("cond", "rs5")):
        r["%s:%s" % (m, t)] = {"m": m, "target": [t], "opset": 10 if t != "nhwc" else 13}
    return r


def setup(ctx):
    common.load()
    ctx.reqs = variants()
    ctx.names = sorted(ctx.reqs)


def frozen(ctx, m):
    key = ("gd", m)
    if key not in ctx.cache:
        e = common.model(m)
        live = e.build()
        if isinstance(e, zoo.Fn):
            gd, ins, outs = zoo.freeze(live)
            ctx.cache[key] = (gd, ins, outs, live)
        elif isinstance(e, zoo.V1Graph):
            ctx.cache[key] = (live["obj"], live["ins"], live["outs"], live)
        else:
            ctx.cache[key] = (None, None, None, live)
    return ctx.cache[key]


def convert(ctx, rid, cont, **kw):
    """The whole conversion through process_tf_graph, the only entry point that lets the caller choose the policy."""
    import tf2onnx
    from tf2onnx import optimizer, tfonnx
    r = ctx.reqs[rid]
    t = zoo.tf()
    gd, ins, outs, live = frozen(ctx, r["m"])
    args = dict(continue_on_error=cont, opset=r.get("opset", 15), target=r.get("target"), **kw)
    if r.get("nchw"):
        args["inputs_as_nchw"] = list(ins)
    determinism.begin(None)
    with t.Graph().as_default() as g:
        if gd is None:
            g2 = tfonnx.process_tf_graph(g, tflite_path=common.model(r["m"]).path, **args)
        else:
            t.import_graph_def(gd, name="")
            g2 = tfonnx.process_tf_graph(g, input_names=list(ins), output_names=list(outs), **args)
        g3 = optimizer.optimize_graph(g2)
        return g3.make_model("verif")


HANDLERS = ("tf2onnx.onnx_opset", "tf2onnx.rewriter", "tf2onnx.custom_opsets", "tf2onnx.tflite_handlers",
            "tf2onnx.late_rewriters", "tf2onnx.tflite_rewriters", "tf2onnx.optimizer")


def _places(m, code):
    return m.startswith(HANDLERS[:-1]) or _own(m, code)


def _own(m, code):
    """The rewriters that are written beside the code that drives them."""
    return m == "tf2onnx.tfonnx" and code.co_qualname.startswith("rewrite_")


def make_refs(ctx, i, n):
    out = {}
    for k, rid in enumerate(ctx.names):
        if k % n == i:
            out[rid] = common.fork_call(_fresh, ctx, rid)
    return out


def _fresh(ctx, rid):
    pr = {}
    with monitor.Session(kinds=("line",), profile=pr, code_filter=_places):
        p = convert(ctx, rid, False)
    return {"hash": canon.form_hash(p), "profile": common.compact(pr, rid, 8)}


def _late(w):
    return w.startswith(("tf2onnx.late_rewriters", "tf2onnx.tfonnx"))


def scenario(ctx, rng):
    x = rng.random()
    cont = rng.random() < 0.5
    if x < 0.6:
        rid = rng.choice(ctx.names)
        late = None
        if rng.random() < 0.15:
            rid = rng.choice([r for r in ctx.names if ctx.reqs[r].get("target")])
        if ctx.reqs[rid].get("target") and rng.random() < 0.5:
            late = _late
        a = common.pick(rng, ctx.refs[rid]["profile"], where=late) or common.pick(rng, ctx.refs[rid]["profile"])
        return {"mode": "line", "req": rid, "cont": cont,
                "fault": [list(a[:3]), a[3], rng.choice(EXC)] if a else None}
    if x < 0.85:
        m = rng.choice(sorted(CALLBACK_OPS))
        rid = rng.choice([r for r in ctx.names if ctx.reqs[r]["m"] == m])
        return {"mode": "handler", "req": rid, "cont": cont, "op": rng.choice(CALLBACK_OPS[m]),
                "calls": sorted(rng.sample(range(1, 5), rng.choice([1, 1, 2, 4]))), "exc": rng.choice(EXC),
                "extra": rng.random() < 0.3}
    rid = rng.choice([r for r in ctx.names if ctx.reqs[r]["m"] in ("while", "nested", "cond", "cond_in_loop", "conv", "mlp",
                                                                  "shapes", "tfl_while", "tfl_mlp") + tuple(V1)])
    return {"mode": "rewriter", "req": rid, "cont": cont, "calls": sorted(rng.sample(range(1, 6), rng.choice([1, 1, 2, 5]))),
            "exc": rng.choice(EXC), "how_many": rng.choice([1, 2, 3])}


def execute(ctx, sc, res):
    getattr(_Modes, sc["mode"])(ctx, sc, res, sc["req"])


class Escape:
    """Did the injected exception leave the handler or rewriter, i.e. reach the code that drives them?"""

    def __init__(self):
        self.out = False

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(4, "verif-unwind")
        mon.register_callback(4, mon.events.PY_UNWIND, self._unwind)
        mon.set_events(4, mon.events.PY_UNWIND)
        return self

    def _unwind(self, code, off, exc):
        if isinstance(exc, monitor.Injected):
            f = sys._getframe(1)
            here = f.f_globals.get("__name__", "")
            up = f.f_back.f_globals.get("__name__", "") if f.f_back else ""
            if up == "tf2onnx.tfonnx" and not _own(up, f.f_back.f_code) and (here.startswith(HANDLERS) or
                                                                            _own(here, f.f_code)):
                self.out = True

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.PY_UNWIND, None)
        mon.free_tool_id(4)
        return False


def want_values(ctx, rid):
    key = ("want", rid)
    if key not in ctx.cache:
        m = ctx.reqs[rid]["m"]
        e = common.model(m)
        ctx.cache[key] = None
        if "random" not in e.tags:
            feeds = e.feeds(1)
            ctx.cache[key] = (feeds, e.reference(frozen(ctx, m)[3], feeds), e.rtol, e.atol)
    return ctx.cache[key]


def check_values(ctx, rid, proto, what):
    w = want_values(ctx, rid)
    if w is None or ctx.reqs[rid].get("nchw"):
        return
    feeds, want, rtol, atol = w
    try:
        got = zoo.run_onnx(proto, feeds)
    except Exception as e:
        raise Violation("failure hidden", "%s: %s; a model came out, no failure was reported, and ONNX Runtime rejects it: "
                        "%s" % (rid, what, str(e)[:300]))
    d = zoo.same_values(got, want, max(rtol, 1e-3), max(atol, 1e-3))
    if d:
        raise Violation("failure hidden", "%s: %s; a model came out, no failure was reported, and it computes something "
                        "else: %s" % (rid, what, d))


class _Modes:
    @staticmethod
    def line(ctx, sc, res, rid):
        if not sc["fault"]:
            res.nontrivial = False
            return
        key, n, exc = sc["fault"]
        s = monitor.Session(kinds=("line",), plan={(*key, n): exc},
                            code_filter=lambda m, c: "%s:%s" % (m, c.co_qualname) == key[1])
        what = "%s at %s %s, continue_on_error=%s" % (exc, key[1], key[2], sc["cont"])
        err = p = None
        with LogCapture() as log, Escape() as esc:
            try:
                with s:
                    p = convert(ctx, rid, sc["cont"])
            except Exception as e:
                err = e
        res.steps += s.count
        if not s.fired:
            res.nontrivial = False
            return
        res.fault("handler or rewriter fails: " + exc)
        res.sig = [rid, sc["cont"], key, n]
        res.probe("failure left the handler or rewriter" if esc.out else "failure handled inside")
        if esc.out and not sc["cont"]:
            if err is None:
                raise Violation("failure ignored", "%s: %s; the conversion returned a model" % (rid, what))
            if not _same_failure(err):
                raise Violation("failure replaced", "%s: %s; the conversion raised %s: %s" % (
                    rid, what, type(err).__name__, str(err)[:300]))
            return
        if esc.out and not log.errors():
            raise Violation("failure not reported", "%s: %s; nothing was logged at error level" % (rid, what))
        if err is None and not log.errors():
            if canon.form_hash(p) != ctx.refs[rid]["hash"]:
                res.probe("another model without a reported failure, executed")
                check_values(ctx, rid, p, what)
        if err is not None and sc["cont"]:
            res.probe("continue_on_error: conversion gave up later")

    @staticmethod
    def handler(ctx, sc, res, rid):
        """A caller's handler fails at the given calls; or (reference) does nothing at them."""
        def run(boom):
            calls = [0]
            seen = []

            def h(g, node, name, args):
                calls[0] += 1
                seen.append(node.name)
                if calls[0] in sc["calls"]:
                    if boom:
                        raise monitor.make_exc(sc["exc"], "in the handler of %s" % node.name)
                return node
            args = ["Verif" + sc["op"]] if sc["extra"] else []
            with LogCapture() as log:
                try:
                    return convert(ctx, rid, sc["cont"], custom_op_handlers={sc["op"]: (h, list(args))}), None, calls[0], log
                except Exception as e:
                    return None, e, calls[0], log
        p, err, n, log = run(True)
        _Modes._callback(ctx, sc, res, rid, p, err, n, log, run, "handler of " + sc["op"])

    @staticmethod
    def rewriter(ctx, sc, res, rid):
        def run(boom):
            calls = [0]

            def rw(g, ops):
                calls[0] += 1
                if calls[0] in sc["calls"] and boom:
                    raise monitor.make_exc(sc["exc"], "in the rewriter")
                return g.get_nodes()
            with LogCapture() as log:
                try:
                    return convert(ctx, rid, sc["cont"], custom_rewriter=[rw] * sc["how_many"]), None, calls[0], log
                except Exception as e:
                    return None, e, calls[0], log
        p, err, n, log = run(True)
        _Modes._callback(ctx, sc, res, rid, p, err, n, log, run, "rewriter")

    @staticmethod
    def _callback(ctx, sc, res, rid, p, err, n, log, run, who):
        fired = [c for c in sc["calls"] if c <= n]
        what = "%s of the caller raised %s at call %s, continue_on_error=%s" % (who, sc["exc"], fired, sc["cont"])
        res.sig = [rid, sc["cont"], who, fired, sc.get("extra"), sc.get("how_many")]
        if not fired:
            res.nontrivial = False
            return
        res.fault("callback of the caller fails: " + sc["exc"], len(fired))
        res.steps += n
        if not sc["cont"]:
            if err is None:
                raise Violation("failure ignored", "%s: %s; the conversion returned a model" % (rid, what))
            if not _same_failure(err):
                raise Violation("failure replaced", "%s: %s; the conversion raised %s: %s" % (
                    rid, what, type(err).__name__, str(err)[:300]))
            return
        q, err2, n2, log2 = run(False)
        res.probe("compared with a callback that does nothing")
        if n != n2:
            raise Violation("callbacks skipped", "%s: %s; it was called %d times, %d times when it does not fail" % (
                rid, what, n, n2))
        if (err is None) != (err2 is None):
            raise Violation("failure not contained", "%s: %s; the conversion %s, and with a callback that does nothing it "
                            "%s" % (rid, what, _d(err), _d(err2)))
        if len(log.errors()) < len(fired):
            raise Violation("failure not reported", "%s: %s; %d failures, %d messages at error level" % (
                rid, what, len(fired), len(log.errors())))
        if p is not None and canon.form_hash(p) != canon.form_hash(q):
            raise Violation("failure not contained", "%s: %s; the model is not the one made with a callback that does "
                            "nothing: %s" % (rid, what, canon.diff(canon.model_form(p), canon.model_form(q))))


def _d(e):
    return "succeeds" if e is None else "raises %s: %s" % (type(e).__name__, str(e)[:200])


def _same_failure(err):
    while err is not None:
        if isinstance(err, monitor.Injected):
            return True
        err = err.__cause__ or err.__context__
    return False


def shrink(sc):
    if sc["mode"] == "line":
        if sc["fault"] and sc["fault"][2] != "RuntimeError":
            yield dict(sc, fault=[sc["fault"][0], sc["fault"][1], "RuntimeError"])
        if sc["fault"] and sc["fault"][1] > 1:
            yield dict(sc, fault=[sc["fault"][0], 1, sc["fault"][2]])
    else:
        for c in common.seq_shrink(sc, "calls", 1):
            yield c
        if sc["exc"] != "RuntimeError":
            yield dict(sc, exc="RuntimeError")
        if sc.get("how_many", 1) > 1:
            yield dict(sc, how_many=1)
        if sc.get("extra"):
            yield dict(sc, extra=False)


def scenario_of(ctx, seed):
    from sim import harness
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
