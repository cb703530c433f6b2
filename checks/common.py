"""Shared by the checks: conversion requests, their reference outcomes in fresh processes, outcome comparison."""
import json
import logging
import os
import pickle
import random
import sys

from sim import canon, determinism, zoo

TF2ONNX_MODULES = (
    "tf2onnx", "tf2onnx.convert", "tf2onnx.tf_loader", "tf2onnx.tfonnx", "tf2onnx.graph", "tf2onnx.utils",
    "tf2onnx.optimizer", "tf2onnx.rewriter", "tf2onnx.onnx_opset", "tf2onnx.custom_opsets", "tf2onnx.handler",
    "tf2onnx.schemas", "tf2onnx.graph_matcher", "tf2onnx.graph_builder", "tf2onnx.tf_utils", "tf2onnx.tflite_utils",
    "tf2onnx.tfjs_utils", "tf2onnx.tflite_handlers", "tf2onnx.tflite_rewriters", "tf2onnx.shape_inference",
    "tf2onnx.late_rewriters", "tf2onnx.flexbuffers", "tf2onnx.constants", "tf2onnx.verbose_logging",
    "tf2onnx.tf_utils", "tf2onnx.optimizer.optimizer_base")


def load(locks=False):
    """TensorFlow, then (optionally with simulated locks) the tree under test."""
    import importlib
    zoo.tf()
    if locks:
        from sim import sched
        sched.install_locks()
    for m in TF2ONNX_MODULES:
        try:
            importlib.import_module(m)
        except ImportError:
            if m in ("tf2onnx", "tf2onnx.convert", "tf2onnx.graph"):
                raise
    logging.getLogger("tf2onnx").setLevel(logging.CRITICAL)
    determinism.install()


# ---------------------------------------------------------------------------------------------- requests
def _handler_ok(ctx, node, name, args):
    node.domain = "verif.custom"
    node.set_attr("touched", len(args))
    return node


def _handler_mul(ctx, node, name, args):
    """Replaces a standard op: the user asks for another implementation of Tanh / Softmax."""
    x = ctx.make_node("Mul", [node.input[0], node.input[0]], shapes=node.output_shapes, dtypes=node.output_dtypes)
    outs, shapes, dtypes = node.output, node.output_shapes, node.output_dtypes
    ctx.remove_node(node.name)
    ctx.make_node("Identity", [x.output[0]], outputs=outs, shapes=shapes, dtypes=dtypes, name=name)


def _handler_boom(ctx, node, name, args):
    raise ValueError("handler of the caller failed")


def _rewriter_ok(g, ops):
    return g.get_nodes()


def _rewriter_boom(g, ops):
    raise ValueError("rewriter of the caller failed")


def realise(kw):
    """Symbolic request options -> the objects passed to the API (fresh objects each time)."""
    kw = dict(kw or {})
    h = kw.pop("handlers", None)
    if h:
        fn = {"ok": _handler_ok, "mul": _handler_mul, "boom": _handler_boom}
        kw["custom_op_handlers"] = {op: (fn[w], ["extra"] if w == "ok" else []) for op, w in h.items()}
    r = kw.pop("rewriter", None)
    if r:
        kw["custom_rewriter"] = [{"ok": _rewriter_ok, "boom": _rewriter_boom}[x] for x in r]
    if "extra_opset" in kw:
        from tf2onnx import utils
        kw["extra_opset"] = [utils.make_opsetid(d, v) for d, v in kw["extra_opset"]]
    if "custom_ops" in kw:
        kw["custom_ops"] = dict(kw["custom_ops"])
    if "shape_override" in kw:
        kw["shape_override"] = {k: list(v) for k, v in kw["shape_override"].items()}
    if "optimizers" in kw:
        from tf2onnx import optimizer
        kw["optimizers"] = {k: v for k, v in optimizer._get_optimizers().items() if k in kw["optimizers"]}
    if "tensors_to_rename" in kw:
        kw["tensors_to_rename"] = dict(kw["tensors_to_rename"])
    if "inputs_as_nchw" in kw:
        kw["inputs_as_nchw"] = list(kw["inputs_as_nchw"])
    if "target" in kw:
        kw["target"] = list(kw["target"])
    return kw


TFD = "ai.onnx.converters.tensorflow"


OPS = ("ops_math", "ops_array", "ops_nn", "ops_image", "ops_fft", "ops_segment", "ops_types", "ops_dyn", "ops_loops",
       "ops_shared")


def requests():
    """Everything a history may consist of: id -> {"m": model, "kw": options}."""
    r = {}

    def add(m, tag="", **kw):
        r[m + (":" + tag if tag else "")] = {"m": m, "kw": kw}
    for m in ("mlp", "conv", "conv_chain", "while", "nested", "cond", "tensor_array", "einsum", "shapes", "transposes",
              "consts", "reduce", "dup", "gemm", "ints", "fakequant", "gather_scatter", "resize", "batchmm",
              "cond_in_loop", "nhwc_add", "dictout", "conv_transpose", "padconv", "pool3d", "random", "randdyn"):
        add(m)
    for m, o in (("mlp", 9), ("mlp", 13), ("mlp", 18), ("conv", 10), ("conv", 13), ("conv", 18), ("while", 11),
                 ("while", 13), ("while", 18), ("cond", 11), ("cond", 18), ("shapes", 11), ("shapes", 13),
                 ("shapes", 18), ("reduce", 11), ("reduce", 13), ("reduce", 18), ("dup", 9), ("dup", 18), ("consts", 11),
                 ("consts", 18), ("gemm", 11), ("gemm", 18), ("nested", 18), ("nested", 11), ("ints", 10), ("ints", 18),
                 ("resize", 11), ("resize", 18), ("batchmm", 12), ("einsum", 18), ("gather_scatter", 11),
                 ("gather_scatter", 18), ("tensor_array", 13), ("transposes", 18), ("conv_chain", 11), ("mlp", 8), ("padconv", 10), ("padconv", 11),
                 ("padconv", 18), ("pool3d", 10), ("pool3d", 18), ("random", 10), ("random", 18), ("transposes", 11),
                 ("randdyn", 8), ("randdyn", 11), ("randdyn", 18)):
        add(m, "o%d" % o, opset=o)
    for m in OPS:
        add(m)
        add(m, "o13", opset=13)
        add(m, "o18", opset=18)
    for m in ("ops_nn", "ops_dyn", "ops_loops", "ops_shared", "ops_fft"):
        add(m, "o11", opset=11)
    for m in ("ops_array", "ops_loops", "ops_shared"):
        add("gd_" + m)
    for m in ("par_conv", "par_chains", "par_bodies", "v1_twobirnn", "v1_conds"):
        add(m)
        if m != "par_bodies":
            add(m, "o11", opset=11)
        add(m, "o18", opset=18)
    for m in ("par_conv", "par_chains", "par_bodies"):
        add("gd_" + m)
    add("par_bodies", "large", large_model=True)
    add("randnoseed")
    add("randnoseed", "o18", opset=18)
    add("randconst")
    add("randconst", "o18", opset=18)
    for m in ("v1_while", "v1_cond", "v1_nested", "v1_lstm", "v1_gru", "v1_bilstm", "v1_multi", "v1_names"):
        add(m)
    for m in ("v1_while", "v1_multi", "v1_bilstm"):
        add(m, "o18", opset=18)
    add("v1_consts")
    add("v1_consts", "o18", opset=18)
    for m in ("v1_while", "v1_cond", "v1_nested", "v1_lstm", "v1_bilstm", "v1_multi", "v1_names", "v1_consts", "v1_conds",
              "v1_twobirnn", "gd_ops_array", "gd_par_chains", "gd_par_conv", "gd_shapes", "gd_conv_chain", "gd_consts",
              "gd_nested", "gd_cond", "gd_mlp"):
        add("raw_" + m)
    for m in ("v1_consts", "v1_nested", "gd_ops_array", "gd_par_chains"):
        add("raw_" + m, "o18", opset=18)
    for m in ("v1_consts", "v1_lstm", "gd_shapes"):
        add("raw_" + m, "o11", opset=11)
    add("raw_gd_conv", "nchw-io", inputs_as_nchw=["x:0"], outputs_as_nchw=["Identity:0"])
    add("raw_gd_mlp", "hboom", handlers={"Relu": "boom"})
    add("raw_v1_while", "rwboom", rewriter=["boom"])
    add("raw_gd_mlp", "rs6", target=["rs6"])
    add("mlp", "toohigh", opset=99)
    add("conv", "nchw", inputs_as_nchw=["x"])
    add("conv", "nchw-io", inputs_as_nchw=["x:0"], outputs_as_nchw=["Identity:0"])
    add("gd_conv", "nchw-io", inputs_as_nchw=["x:0"], outputs_as_nchw=["Identity:0"])
    add("k_cnn", "nchw", inputs_as_nchw=["c1_input:0"])
    add("gdd_conv")
    add("gdd_mlp", "o13", opset=13)
    add("gdd_nested")
    add("gdd_gemm", "large", large_model=True)
    add("conv", "large", large_model=True)
    add("mlp", "large", large_model=True)
    add("while", "large", large_model=True)
    add("big")
    add("big", "large", large_model=True)
    add("bigbody")
    add("bigbody", "large", large_model=True)
    add("gd_big", "large", large_model=True)
    add("gd_bigbody", "large", large_model=True)
    add("k_big", "large", large_model=True)
    add("sm_bigbody")
    add("gdf_big", "large", large_model=True)
    add("sm_big", "large", large_model=True)
    add("mlp", "rs6", target=["rs6"])
    add("conv", "caffe2", target=["caffe2"])
    add("conv", "rs5", target=["rs5"])
    add("custom")
    add("custom", "dom", custom_ops={"Betainc": "verif.dom"}, extra_opset=[["verif.dom", 1]])
    add("custom", "dom2", custom_ops={"Betainc": "verif.other"}, extra_opset=[["verif.other", 3]])
    add("custom", "h", handlers={"Betainc": "ok"}, extra_opset=[["verif.custom", 1]])
    add("custom", "hboom", handlers={"Betainc": "boom"})
    add("while", "tanhdom", custom_ops={"Tanh": "verif.dom"}, extra_opset=[["verif.dom", 1]])
    add("while", "hmul", handlers={"Tanh": "mul"})
    add("while", "hboom", handlers={"Tanh": "boom"})
    add("custom", "tfdom", custom_ops={"Betainc": TFD}, extra_opset=[[TFD, 1]])
    add("custom", "tfx", extra_opset=[[TFD, 1]])
    add("while", "tftanh", custom_ops={"Tanh": TFD}, extra_opset=[[TFD, 1]])
    add("while", "tfx", extra_opset=[[TFD, 1]])
    add("mlp", "tfsoftmax", custom_ops={"Softmax": TFD, "Relu": TFD}, extra_opset=[[TFD, 1]])
    add("mlp", "tfx", extra_opset=[[TFD, 1]])
    add("gemm", "msft", extra_opset=[["com.microsoft", 1]])
    for o in (None, 10, 13, 18):
        kw = {} if o is None else {"opset": o}
        add("msops", "o%s" % o, **kw)
        add("msops", "ms-o%s" % o, extra_opset=[["com.microsoft", 1]], **kw)
        add("strops", "o%s" % o, **kw)
        add("strops", "contrib-o%s" % o, extra_opset=[["ai.onnx.contrib", 1]], **kw)
    add("msops", "invdom", custom_ops={"MatrixInverse": "verif.dom"}, extra_opset=[["verif.dom", 1]])
    add("mlp", "softmaxdom", custom_ops={"Softmax": "verif.dom"}, extra_opset=[["verif.dom", 1]])
    add("mlp", "hmul", handlers={"Relu": "mul"})
    add("mlp", "matmuldom", custom_ops={"MatMul": "verif.dom", "Mean": "verif.dom"}, extra_opset=[["verif.dom", 2]])
    add("cond", "concatdom", custom_ops={"ConcatV2": "verif.dom"}, extra_opset=[["verif.dom", 1]])
    add("conv", "hconv", handlers={"Conv2D": "ok"}, extra_opset=[["verif.custom", 1]])
    add("mlp", "shape", shape_override={"x:0": [7, 6]})
    add("shapes", "shape", shape_override={"x:0": [3, 2, 4]})
    add("mlp", "rwok", rewriter=["ok"])
    add("dup", "rwboom", rewriter=["boom"])
    add("gd_mlp")
    add("gd_cond")
    add("gd_nested")
    add("gd_while", "o13", opset=13)
    add("gd_nested", "large", large_model=True)
    add("gd_conv", "nchw", inputs_as_nchw=["x"])
    add("gd_dup", "rename", tensors_to_rename={"x:0": "renamed"})
    add("gd_cond", "o18", opset=18)
    add("tfl_mlp")
    add("tfl_conv")
    add("tfl_while")
    add("tfl_shapes")
    add("tfl_nhwc_add", "o13", opset=13)
    add("tfl_conv", "o18", opset=18)
    add("tfl_mlp", "dom", custom_ops={"TFL_FULLY_CONNECTED": "verif.dom"}, extra_opset=[["verif.dom", 1]])
    for m in ("tfl_quant", "js_mlp", "js_conv", "js_while", "js_cond", "js_nested", "js_cond_in_loop",
              "js_gather_scatter", "gdf_mlp", "gdf_nested", "sm_mlp", "sm_dictout",
              "sm_while", "sm_table_a", "sm_table_b", "ck_relu"):
        add(m)
    add("js_cond", "o13", opset=13)
    add("gdf_gemm", "o18", opset=18)
    add("k_func")
    add("k_func", "o13", opset=13)
    add("k_dupnames")
    add("k_cnn")
    add("k_table")
    add("k_strtable")
    for m in ("par_chains", "par_conv", "nested", "ops_shared", "v1_twobirnn", "conv_chain", "consts", "ops_array", "v1_while",
              "v1_conds", "v1_bilstm", "cond", "tensor_array", "transposes"):
        add("onnx_" + m)
    for m in ("par_chains", "nested", "transposes"):
        add("onnx_" + m, "strict", catch_errors=False)
    add("k_bigru", "o15", opset=15)
    add("k_lstm")
    return r


def api_only(reqs):
    """Without the ones that go through the command line (they swap sys.argv)."""
    return {k: v for k, v in reqs.items() if not cli_only(v)}


def cli_only(req):
    return req["m"].split("_")[0] in ("js", "gdf", "sm", "ck", "kf") or req["m"] == "tfl_quant"


_models = None


def by_name():
    global _models
    if _models is None:
        _models = zoo.by_name()
    return _models


def model(name):
    return by_name()[name]


def run_request(req, live=None, output_path=None):
    """-> (proto, storage); raises what the conversion raises."""
    e = model(req["m"])
    if live is None:
        live = e.build()
    kw = realise(req.get("kw"))
    if output_path is not None:
        kw["output_path"] = output_path
    return e.convert(live, **kw)


def norm(form):
    return json.loads(json.dumps(form))


def outcome(req, live=None):
    """("ok", form) | ("err", exception class)"""
    return outcome_kept(req, live)[0]


def outcome_kept(req, live=None):
    """The outcome and what the conversion returned."""
    try:
        p, st = run_request(req, live)
    except Exception as e:
        return ["err", type(e).__name__, str(e)[:300]], None
    return ["ok", norm(canon.model_form(p, st))], (p, st)


def compare(got, want):
    """None or a description of the difference."""
    if got[0] != want[0]:
        return "%s instead of %s" % (_d(got), _d(want))
    if got[0] == "err":
        return None if got[1] == want[1] else "%s instead of %s" % (_d(got), _d(want))
    if got[1]["hash"] != want[1]["hash"]:
        return "another model: " + canon.diff(_t(got[1]), _t(want[1]))
    return None


def _t(x):
    if isinstance(x, list):
        return tuple(_t(i) for i in x)
    if isinstance(x, dict):
        return {k: _t(v) for k, v in x.items()}
    return x


def _d(o):
    return "a model" if o[0] == "ok" else "%s (%s)" % (o[1], o[2])


def _die_with_parent():
    try:
        import ctypes
        import signal
        ctypes.CDLL(None).prctl(1, int(signal.SIGKILL), 0, 0, 0)
    except Exception:
        pass


class Cold:
    """A process that was forked off when everything was imported and nothing converted yet; each call runs in a fork of it."""

    def __init__(self):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        if os.fork() == 0:
            try:
                _die_with_parent()
                os.close(aw)
                os.close(br)
                self._serve(os.fdopen(ar, "rb"), os.fdopen(bw, "wb"))
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        self.inp, self.out = os.fdopen(br, "rb"), os.fdopen(aw, "wb")

    @staticmethod
    def _serve(inp, out):
        while True:
            try:
                fn, args = pickle.load(inp)
            except EOFError:
                return
            try:
                r = ("ok", fork_call(fn, *args))
            except BaseException as e:
                r = ("exc", str(e))
            pickle.dump(r, out)
            out.flush()

    def call(self, fn, *args):
        pickle.dump((fn, args), self.out)
        self.out.flush()
        k, v = pickle.load(self.inp)
        if k == "exc":
            raise RuntimeError(v)
        return v


def fork_call(fn, *args):
    """fn(*args) in a forked child: a process that has imported everything and done nothing yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        _die_with_parent()
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException as e:
                import traceback
                data = pickle.dumps(("exc", "%s\n%s" % (e, traceback.format_exc())))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("reference process died")
    k, v = pickle.loads(data)
    if k == "exc":
        raise RuntimeError("reference run failed: " + v)
    return v


def fresh_outcomes(reqs, i, n, kinds=None, dense=(), entry=None, **session):
    """Reference outcomes of requests i, i+n, ... each in a process of its own.  The calling process must not have
    used TensorFlow's runtime yet (fork).  With kinds: also the compact profile of that conversion."""
    res = {}
    ids = sorted(reqs)
    for k, rid in enumerate(ids):
        if k % n == i:
            o, p = fork_call(_fresh, rid, reqs[rid], kinds, session, dense, entry)
            res[rid] = o
            if kinds:
                res["profile/" + rid] = p
    return res


def _fresh(rid, req, kinds, session, dense=(), entry=None):
    from sim import monitor
    determinism.begin(None)
    e = (entry or model)(req["m"])
    live = e.build()
    if not kinds:
        return outcome(req, live), None
    pr = {}
    with monitor.Session(kinds=kinds, profile=pr, **session):
        if entry is None:
            o = outcome(req, live)
        else:
            o = None
            try:
                e.convert(live, **realise(req.get("kw")))
            except Exception:
                pass
    return o, compact(pr, rid, dense=dense)


def compact(profile, salt, per_fn=6, dense=()):
    """A bounded sample of the places of a profile (of the modules in dense: all): {where: [[kind, what, n], ...]}"""
    by = {}
    for (k, w, t), n in profile.items():
        by.setdefault(w, []).append([k, t, n])
    rng = derived("profile", salt)
    out = {}
    for w in sorted(by):
        p = sorted(by[w])
        out[w] = sorted(rng.sample(p, per_fn)) if len(p) > per_fn and w.split(":")[0] not in dense else p
    return out


def pick(rng, prof, kinds=None, where=None):
    """Like monitor.pick, from a compact profile."""
    ws = [w for w in sorted(prof) if (where is None or where(w)) and
          (kinds is None or any(k in kinds for k, _, _ in prof[w]))]
    if not ws:
        return None
    w = rng.choice(ws)
    k, t, n = rng.choice([p for p in prof[w] if kinds is None or p[0] in kinds])
    return (k, w, t, rng.choice([1, n, rng.randint(1, n), rng.randint(1, n)]))


def focus(rng, prefixes, prof):
    """Places in one of the given modules, those listed more often being more likely."""
    have = {w.split(":")[0] for w in prof}
    ps = [p for p in prefixes if p in have]
    if not ps:
        return None
    p = rng.choice(ps)
    return lambda w: w.split(":")[0] == p


def derived(*parts):
    """A generator that is a function of its arguments only."""
    return random.Random("/".join(str(p) for p in parts))


def seq_shrink(sc, key, minimum=1):
    """Candidates with one element of sc[key] removed (longest cuts first)."""
    xs = sc[key]
    n = len(xs)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            ys = xs[:a] + xs[a + size:]
            if minimum <= len(ys) < n:
                yield dict(sc, **{key: ys})
        size //= 2


def log(msg):
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write("DBG %s\n" % msg)
