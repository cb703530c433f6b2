"""C01: an optimizer pass that fails changes nothing: the conversion goes on with the graph as it was before that pass.

Simulated: failures of passes - an exception at a seeded source line while the k-th application of a pass is running, or
in every application of one pass or of several, or while the graph is being copied for a pass, or around the passes.
Reference: the same optimization in which exactly those applications change nothing (differential), ONNX Runtime on the
unoptimised model (numeric), and the caller's model (unchanged)."""
import base64
import contextlib
import copy
import os

import onnx

from sim import canon, determinism, monitor, zoo
from sim.harness import LogCapture, Skip, Violation
from . import common, passes

PROPERTY = "C01"
EXC = ["RuntimeError", "ValueError", "KeyError", "TypeError", "AttributeError", "IndexError", "AssertionError",
       "NotImplementedError", "ZeroDivisionError", "MemoryError", "OSError", "RecursionError"]
MODELS = ["mlp", "conv", "conv_chain", "while", "nested", "cond", "tensor_array", "einsum", "shapes", "transposes",
          "consts", "reduce", "dup", "gemm", "ints", "fakequant", "gather_scatter", "resize", "batchmm", "cond_in_loop",
          "nhwc_add", "dictout", "conv_transpose", "padconv", "pool3d", "mlp:o9", "mlp:o18", "conv:o18", "while:o18",
          "cond:o18", "shapes:o11", "shapes:o18", "reduce:o18", "consts:o18", "nested:o18", "transposes:o18",
          "einsum:o18", "conv_chain:o11", "padconv:o18", "resize:o18", "custom:dom", "mlp:rs6", "conv:nchw", "gd_nested",
          "gd_conv:nchw", "tfl_conv", "tfl_while", "tfl_quant", "tfl_nhwc_add:o13", "k_cnn", "k_bigru:o15", "k_strtable",
          "v1_multi", "v1_names", "v1_bilstm", "v1_lstm", "ops_loops:o18", "ops_dyn:o18"] + list(common.OPS)
QUIET = ("tf2onnx.verbose_logging",)


def setup(ctx):
    common.load()
    reqs = common.requests()
    ctx.reqs = {m: reqs[m] for m in MODELS if m in reqs}
    ctx.names = sorted(ctx.reqs)
    ctx.api = [m for m in ctx.names if m.split(":")[0] not in ("tfl_quant", "k_bigru")]


def _filter(m, code):
    return m not in QUIET


def _only(faults):
    """Monitor only the functions in which something is going to fail."""
    ws = {f[1][1] for f in faults}
    return lambda m, code: "%s:%s" % (m, code.co_qualname) in ws


def make_refs(ctx, i, n):
    """Per model: the unoptimised ONNX model and the fault-free optimization (passes applied, a sample of the source
    lines executed in each application)."""
    out = {}
    for k, rid in enumerate(ctx.names):
        if k % n == i:
            out[rid] = common.fork_call(_fresh_profile, ctx, rid)
    return out


def _fresh_profile(ctx, rid):
    p = unoptimised(ctx, rid)
    s = passes.WindowSession(kinds=("line",), code_filter=_filter, outside=True)
    t = passes.Tracker(s)
    opt_proto(ctx, rid, t, s)
    return {"proto": base64.b64encode(p.SerializeToString(deterministic=True)).decode(),
            "apps": [a[0] for a in t.apps],
            "windows": {str(w): common.compact(v, "%s/%s" % (rid, w), 4) for w, v in s.windows.items()}}


def unoptimised(ctx, rid):
    key = ("unopt", rid)
    if key not in ctx.cache:
        if rid in ctx.refs:
            p = onnx.ModelProto()
            p.ParseFromString(base64.b64decode(ctx.refs[rid]["proto"]))
        else:
            determinism.begin(None)
            with passes.none():
                p, st = common.run_request(ctx.reqs[rid])
        ctx.cache[key] = p
    return ctx.cache[key]


def opt_proto(ctx, rid, tracker, session=None, catch=True, via="default", proto=None):
    from tf2onnx.graph import GraphUtil
    p = proto if proto is not None else unoptimised(ctx, rid)
    determinism.begin(None)
    with session if session is not None else contextlib.nullcontext():
        if via == "arg":
            return GraphUtil.optimize_model_proto(p, catch_errors=catch, optimizers=tracker.table())
        with passes.installed(tracker):
            return GraphUtil.optimize_model_proto(p, catch_errors=catch)


def live_model(ctx, rid):
    m = ctx.reqs[rid]["m"]
    if ("live", m) not in ctx.cache:
        ctx.cache[("live", m)] = common.model(m).build()
    return ctx.cache[("live", m)]


def opt_api(ctx, rid, tracker, session=None, env=None, extra=None):
    req = ctx.reqs[rid]
    if extra:
        req = {"m": req["m"], "kw": dict(req["kw"], **extra)}
    live = live_model(ctx, rid)
    determinism.begin(None)
    old = os.environ.pop("TF2ONNX_CATCH_ERRORS", None)
    if env is not None:
        os.environ["TF2ONNX_CATCH_ERRORS"] = env
    try:
        with passes.installed(tracker), (session if session is not None else contextlib.nullcontext()):
            return common.run_request(req, live)
    finally:
        os.environ.pop("TF2ONNX_CATCH_ERRORS", None)
        if old is not None:
            os.environ["TF2ONNX_CATCH_ERRORS"] = old


def scenario(ctx, rng):
    mode = rng.choice(["proto"] * 8 + ["name"] * 3 + ["api"] * 3 + ["outside"] * 2 + ["copy"] * 2 + ["raise"] * 3 +
                      ["apiraise"] * 2 + ["down"] * 2)
    rid = rng.choice(ctx.api if mode in ("api", "apiraise") else ctx.names)
    while not ctx.refs[rid]["apps"]:        # optimize_model_proto gives this model back as it is
        rid = rng.choice(ctx.names)
    apps, windows = ctx.refs[rid]["apps"], ctx.refs[rid]["windows"]
    sc = {"mode": mode, "req": rid, "via": rng.choice(["default", "arg"])}
    if mode == "outside":
        w = rng.choice(["pre", "post"])
        a = common.pick(rng, windows.get(w, {}), where=_inner)
        sc["faults"] = [[w, list(a[:3]), a[3], rng.choice(EXC)]] if a else []
        return sc
    if mode == "copy":
        sc["copies"] = sorted(rng.sample(range(len(apps)), min(len(apps), rng.choice([1, 1, 2]))))
        sc["exc"] = rng.choice(["MemoryError", "RecursionError", "RuntimeError"])
        return sc
    if mode == "down":
        names = sorted(set(apps))
        n = rng.choice([1, 2, len(names) // 2, len(names) - 1, len(names)])
        sc["down"] = [[x, rng.choice(EXC)] for x in sorted(rng.sample(names, n))]
        return sc
    if mode == "name":
        name = rng.choice(sorted(set(apps)))
        a = common.pick(rng, windows.get(str(rng.choice([i for i, n in enumerate(apps) if n == name])), {}))
        sc["name"] = name
        sc["faults"] = [[name, list(a[:3]), 1 if rng.random() < 0.7 else a[3], rng.choice(EXC)]] if a else []
        return sc
    faults = []
    # applications that really change something come first in the loop: prefer the first round
    n = len(apps)
    first = len(set(apps))
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if mode in ("proto", "api") else 1):
        i = rng.randrange(min(n, first)) if rng.random() < 0.6 else rng.randrange(n)
        a = common.pick(rng, windows.get(str(i), {}))
        if a:
            faults.append([i, list(a[:3]), a[3], rng.choice(EXC)])
    sc["faults"] = faults
    if mode == "apiraise":
        sc["how"] = rng.choice(["env FALSE", "large_model", "env TRUE large_model", "env TRUE"])
    return sc


def _inner(where):
    """The functions whose own statements are around the containment, not inside it."""
    return not where.endswith((":GraphUtil.optimize_model_proto", ":optimize_graph", ":GraphUtil.optimize_graph"))


def plans(faults):
    out = {}
    for w, key, n, exc in faults:
        out.setdefault(w, {})[(*key, n)] = exc
    return out


def reference(ctx, rid, skip=(), skip_names=()):
    """-> (canonical form or None, sequence of applications) of the optimization in which those applications are no-ops"""
    key = ("ref", rid, tuple(skip), tuple(skip_names))
    if key not in ctx.cache:
        t = passes.Tracker(skip=skip, skip_names=skip_names)
        with LogCapture() as log:
            p = opt_proto(ctx, rid, t)
        ctx.cache[key] = (canon.model_form(p), [a[0] for a in t.apps], len(log.records))
    return ctx.cache[key]


def reference_api(ctx, rid, skip=(), extra=None):
    key = ("refapi", rid, tuple(skip), tuple(sorted(extra or ())))
    if key not in ctx.cache:
        t = passes.Tracker(skip=skip)
        with LogCapture() as log:
            p, st = opt_api(ctx, rid, t, extra=extra)
        ctx.cache[key] = (canon.model_form(p, st), [a[0] for a in t.apps], len(log.records))
    return ctx.cache[key]


def values(ctx, rid, proto=None):
    """What ONNX Runtime computes: of the unoptimised model (cached) or of proto.  None: not runnable."""
    if proto is None:
        key = ("val", rid)
        if key not in ctx.cache:
            ctx.cache[key] = None
            if "random" not in common.model(ctx.reqs[rid]["m"]).tags:
                try:
                    feeds = common.model(ctx.reqs[rid]["m"]).feeds(1)
                    ctx.cache[key] = zoo.run_onnx(unoptimised(ctx, rid), feeds)
                except Exception:
                    pass
        return ctx.cache[key]
    feeds = common.model(ctx.reqs[rid]["m"]).feeds(1)
    return zoo.run_onnx(proto, feeds)


def check_values(ctx, rid, proto, what):
    want = values(ctx, rid)
    if want is None:
        return False
    try:
        got = values(ctx, rid, proto)
    except Exception as e:
        raise Violation("result not a valid model", "%s: %s: ONNX Runtime rejects the result: %s" % (rid, what, str(e)[:300]))
    d = zoo.same_values(got, want, 1e-3, 1e-3)
    if d:
        raise Violation("result computes something else", "%s: %s: unlike the unoptimised model: %s" % (rid, what, d))
    return True


def execute(ctx, sc, res):
    mode, rid = sc["mode"], sc["req"]
    unoptimised(ctx, rid)
    getattr(_Modes, mode)(ctx, sc, res, rid)


def _judge(ctx, sc, res, rid, tracker, session, form, ref, log, what):
    """form: of the result under faults; the applications that failed must have been no-ops."""
    res.steps += session.count
    for f in session.fired:
        res.fault("pass fails: " + f["exc"])
    if not session.fired:
        res.nontrivial = False
        return
    failed = [i for i, a in enumerate(tracker.apps) if a[1].startswith("failed")]
    res.sig = [rid, sc["mode"], [(f["at"], f["what"]) for f in session.fired],
               sorted({tracker.apps[i][0] for i in failed})]
    want, seq, quiet = ref(failed)
    if len(failed) == len(session.fired):
        res.probe("failures that left the pass", len(failed))
        if form["hash"] != want["hash"]:
            raise Violation("failed pass had an effect", "%s: %s failed with %s; the result is not what it is when "
                            "these applications change nothing: %s" % (
                                rid, _names(tracker, failed), _fired(session), canon.diff(want, form)))
        if [a[0] for a in tracker.apps] != seq:
            raise Violation("other passes affected", "%s: after %s failed the passes applied were %s, expected %s" % (
                rid, _names(tracker, failed), [a[0] for a in tracker.apps][:40], seq[:40]))
    else:
        res.probe("failures handled inside the pass", len(session.fired) - len(failed))
    if failed and len(log.records) <= quiet:
        raise Violation("failure not reported", "%s: %s failed and nothing was logged as a warning" % (
            rid, _names(tracker, failed)))


def _names(t, failed):
    return ", ".join("application %d (%s)" % (i, t.apps[i][0]) for i in failed)


def _fired(s):
    return ", ".join("%s at %s %s" % (f["exc"], f["at"], f["what"]) for f in s.fired)


class _Modes:
    @staticmethod
    def proto(ctx, sc, res, rid, by_name=False):
        p = copy.deepcopy(unoptimised(ctx, rid))
        before = p.SerializeToString(deterministic=True)
        s = passes.WindowSession(kinds=("line",), code_filter=_only(sc["faults"]),
                                 **{"by_name" if by_name else "plans": plans(sc["faults"])})
        t = passes.Tracker(s)
        with LogCapture() as log:
            try:
                out = opt_proto(ctx, rid, t, s, via=sc["via"], proto=p)
            except Exception as e:
                raise Violation("failure of a pass not contained", "%s: %s; optimize_model_proto raised %s: %s" % (
                    rid, _fired(s), type(e).__name__, str(e)[:300]))
            except monitor.StepLimit as e:
                raise Violation("optimization does not end", "%s: %s: %s" % (rid, _fired(s), e))
        if p.SerializeToString(deterministic=True) != before:
            raise Violation("caller's model changed", "%s: optimize_model_proto changed the model it was given" % rid)
        form = canon.model_form(out)
        if by_name:
            name = sc["name"]
            k = [a for a in t.apps if a[0] == name]
            every = k and all(a[1].startswith("failed") for a in k)

            def ref(failed):
                return reference(ctx, rid, skip_names=(name,)) if every else reference(ctx, rid, skip=failed)
        else:
            def ref(failed):
                return reference(ctx, rid, skip=failed)
        _judge(ctx, sc, res, rid, t, s, form, ref, log, "optimize_model_proto")
        if s.fired and check_values(ctx, rid, out, _fired(s)):
            res.probe("results executed")

    @staticmethod
    def name(ctx, sc, res, rid):
        _Modes.proto(ctx, sc, res, rid, by_name=True)

    @staticmethod
    def down(ctx, sc, res, rid):
        """Some passes fail each time: what is left gives what it gives without them."""
        t = passes.Tracker(down=dict(sc["down"]))
        names = tuple(sorted(t.down))
        what = "%s fail each time" % ", ".join(names)
        p = copy.deepcopy(unoptimised(ctx, rid))
        before = p.SerializeToString(deterministic=True)
        with LogCapture() as log:
            try:
                out = opt_proto(ctx, rid, t, via=sc["via"], proto=p)
            except Exception as e:
                raise Violation("failure of a pass not contained", "%s: %s; optimize_model_proto raised %s: %s" % (
                    rid, what, type(e).__name__, str(e)[:300]))
            except monitor.StepLimit as e:
                raise Violation("optimization does not end", "%s: %s: %s" % (rid, what, e))
        for x in names:
            res.fault("pass fails each time: " + t.down[x])
        res.sig = [rid, "down", names]
        if p.SerializeToString(deterministic=True) != before:
            raise Violation("caller's model changed", "%s: optimize_model_proto changed the model it was given" % rid)
        want, seq, quiet = reference(ctx, rid, skip_names=names)
        form = canon.model_form(out)
        if form["hash"] != want["hash"]:
            raise Violation("failed pass had an effect", "%s: %s; the result is not what it is when they change nothing: %s" % (
                rid, what, canon.diff(want, form)))
        if [a[0] for a in t.apps] != seq:
            raise Violation("other passes affected", "%s: %s; the passes applied were %s, expected %s" % (
                rid, what, [a[0] for a in t.apps][:40], seq[:40]))
        if len(log.records) <= quiet:
            raise Violation("failure not reported", "%s: %s and nothing was logged as a warning" % (rid, what))
        if check_values(ctx, rid, out, what):
            res.probe("results executed")

    @staticmethod
    def api(ctx, sc, res, rid):
        s = passes.WindowSession(kinds=("line",), code_filter=_only(sc["faults"]), plans=plans(sc["faults"]))
        t = passes.Tracker(s)
        large = ctx.reqs[rid]["kw"].get("large_model")
        with LogCapture() as log:
            try:
                p, st = opt_api(ctx, rid, t, s)
            except Exception as e:
                if large and isinstance(e, monitor.Injected):
                    return
                raise Violation("failure of a pass not contained", "%s: %s; the conversion raised %s: %s" % (
                    rid, _fired(s), type(e).__name__, str(e)[:300]))
            except monitor.StepLimit as e:
                raise Violation("optimization does not end", "%s: %s: %s" % (rid, _fired(s), e))
        _judge(ctx, sc, res, rid, t, s, canon.model_form(p, st), lambda f: reference_api(ctx, rid, skip=f), log, "api")
        if s.fired and check_values(ctx, rid, p, _fired(s)):
            res.probe("results executed")

    @staticmethod
    def copy(ctx, sc, res, rid):
        """The copy a pass works on cannot be made."""
        from tf2onnx.graph import Graph
        real = copy.deepcopy
        ks = set(sc["copies"])
        n = [0]
        t = passes.Tracker()
        depth = [0]

        def deepcopy(x, *a, **k):
            if isinstance(x, Graph) and depth[0] == 0 and not a and not k and not any(e[1] == "running" for e in t.apps):
                i = n[0]
                n[0] += 1
                if i in ks:
                    res.fault("copy of the graph fails: " + sc["exc"])
                    raise monitor.make_exc(sc["exc"], "while copying the graph")
            depth[0] += 1
            try:
                return real(x, *a, **k)
            finally:
                depth[0] -= 1
        with LogCapture() as log:
            copy.deepcopy = deepcopy
            try:
                out = opt_proto(ctx, rid, t, via=sc["via"])
            except Exception as e:
                raise Violation("failure of a pass not contained", "%s: copying the graph failed (%s); "
                                "optimize_model_proto raised %s: %s" % (rid, sc["exc"], type(e).__name__, str(e)[:300]))
            finally:
                copy.deepcopy = real
        fired = [k for k in ks if k < n[0]]
        if not fired:
            res.nontrivial = False
            return
        res.sig = [rid, "copy", sorted(fired)]
        want, seq, quiet = reference(ctx, rid, skip=sorted(fired))
        if canon.model_form(out)["hash"] != want["hash"]:
            raise Violation("failed pass had an effect", "%s: the copy for application %s failed: %s" % (
                rid, fired, canon.diff(want, canon.model_form(out))))
        if len(log.records) <= quiet:
            raise Violation("failure not reported", "%s: copying failed and nothing was logged as a warning" % rid)

    @staticmethod
    def outside(ctx, sc, res, rid):
        """Around the passes: optimize_model_proto returns the model it was given."""
        p = copy.deepcopy(unoptimised(ctx, rid))
        before = p.SerializeToString(deterministic=True)
        s = passes.WindowSession(kinds=("line",), code_filter=_only(sc["faults"]), plans=plans(sc["faults"]), outside=True)
        t = passes.Tracker(s)
        with LogCapture():
            try:
                out = opt_proto(ctx, rid, t, s, proto=p)
            except Exception as e:
                raise Violation("failure not contained", "%s: %s; optimize_model_proto raised %s: %s" % (
                    rid, _fired(s), type(e).__name__, str(e)[:300]))
        res.steps += s.count
        for f in s.fired:
            res.fault("failure around the passes: " + f["exc"])
        if not s.fired:
            res.nontrivial = False
            return
        res.sig = [rid, "outside", [(f["at"], f["what"]) for f in s.fired]]
        if p.SerializeToString(deterministic=True) != before:
            raise Violation("caller's model changed", "%s: optimize_model_proto changed the model it was given" % rid)
        ob = out.SerializeToString(deterministic=True)
        if ob == before:
            res.probe("returned the model as given")
            return
        if canon.form_hash(out) == reference(ctx, rid)[0]["hash"]:
            res.probe("same result as without the failure")
            return
        res.probe("another result")
        check_values(ctx, rid, out, _fired(s))

    @staticmethod
    def raise_(ctx, sc, res, rid):
        """catch_errors=False: the failure reaches the caller."""
        s = passes.WindowSession(kinds=("line",), code_filter=_only(sc["faults"]), plans=plans(sc["faults"]))
        t = passes.Tracker(s)
        with LogCapture():
            try:
                out = opt_proto(ctx, rid, t, s, catch=False, via=sc["via"])
                err = None
            except Exception as e:
                err = e
        res.steps += s.count
        if not s.fired:
            res.nontrivial = False
            return
        for f in s.fired:
            res.fault("pass fails: " + f["exc"])
        res.sig = [rid, "raise", [(f["at"], f["what"]) for f in s.fired]]
        failed = [i for i, a in enumerate(t.apps) if a[1].startswith("failed")]
        if failed and err is None:
            raise Violation("failure hidden", "%s: catch_errors=False, %s; no exception reached the caller" % (
                rid, _fired(s)))
        if failed and not isinstance(err, monitor.Injected):
            raise Violation("failure hidden", "%s: catch_errors=False, %s; the caller saw %s: %s" % (
                rid, _fired(s), type(err).__name__, err))
        if not failed and err is None:
            check_values(ctx, rid, out, _fired(s))

    @staticmethod
    def apiraise(ctx, sc, res, rid):
        """Who decides: TF2ONNX_CATCH_ERRORS if it is set, else errors are caught unless the model is large."""
        how = sc["how"]
        extra = {"large_model": True} if "large_model" in how else None
        if extra and (rid.startswith(("tfl", "k_")) or "nchw" in rid):
            raise Skip("no large_model variant")
        env = "FALSE" if "FALSE" in how else "TRUE" if "TRUE" in how else None
        contained = env == "TRUE"
        s = passes.WindowSession(kinds=("line",), code_filter=_only(sc["faults"]), plans=plans(sc["faults"]))
        t = passes.Tracker(s)
        with LogCapture() as log:
            try:
                p, st = opt_api(ctx, rid, t, s, env=env, extra=extra)
                err = None
            except Exception as e:
                err = e
        res.steps += s.count
        if not s.fired:
            if err is not None:
                raise Violation("conversion fails", "%s with %s: %s: %s" % (rid, how, type(err).__name__, err))
            res.nontrivial = False
            return
        for f in s.fired:
            res.fault("pass fails: " + f["exc"])
        res.sig = [rid, how, [(f["at"], f["what"]) for f in s.fired]]
        failed = [i for i, a in enumerate(t.apps) if a[1].startswith("failed")]
        if not failed:
            return
        if contained:
            if err is not None:
                raise Violation("failure of a pass not contained", "%s with %s: %s; the conversion raised %s: %s" % (
                    rid, how, _fired(s), type(err).__name__, str(err)[:300]))
            want, seq, quiet = reference_api(ctx, rid, skip=failed, extra=extra) if not extra else (None, None, 0)
            if want and canon.model_form(p, st)["hash"] != want["hash"]:
                raise Violation("failed pass had an effect", "%s with %s: %s failed with %s" % (
                    rid, how, _names(t, failed), _fired(s)))
        elif err is None:
            raise Violation("failure hidden", "%s with %s: %s; no exception reached the caller" % (rid, how, _fired(s)))
        elif not isinstance(err, monitor.Injected):
            raise Violation("failure hidden", "%s with %s: %s; the caller saw %s: %s" % (
                rid, how, _fired(s), type(err).__name__, err))


setattr(_Modes, "raise", _Modes.raise_)


def shrink(sc):
    fs = sc.get("faults") or []
    if len(fs) > 1:
        for i in range(len(fs)):
            yield dict(sc, faults=fs[:i] + fs[i + 1:])
    if sc.get("via") == "arg":
        yield dict(sc, via="default")
    for i, f in enumerate(fs):
        if f[3] != "RuntimeError":
            yield dict(sc, faults=fs[:i] + [[f[0], f[1], f[2], "RuntimeError"]] + fs[i + 1:])
        if f[2] > 1:
            yield dict(sc, faults=fs[:i] + [[f[0], f[1], 1, f[3]]] + fs[i + 1:])
    for c in common.seq_shrink(sc, "down", 1) if sc.get("down") else ():
        yield c
    if len(sc.get("copies", ())) > 1:
        for i in range(len(sc["copies"])):
            yield dict(sc, copies=sc["copies"][:i] + sc["copies"][i + 1:])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
