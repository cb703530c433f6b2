"""C13: a conversion started while another one is under way in the same thread.

Simulated: the schedule - handlers, rewriters and optimizer passes of the caller (the places where a conversion hands control
back) start other conversions at seeded calls, up to two deep; some of these are made to fail by a fault at a call out of
tf2onnx.
Checked: the inner conversion gives what it gives in a fresh process; the conversion around it gives what it gives when the
callback does nothing."""
import contextlib
import re

from sim import canon, determinism, monitor
from sim.harness import Violation
from . import common

PROPERTY = "C13"
EXC = ["RuntimeError", "ValueError", "KeyError", "OSError", "MemoryError", "TypeError", "KeyboardInterrupt"]
UUID = re.compile(rb"[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}")
OUTER_KW = {"opset", "large_model", "shape_override", "target", "extra_opset", "custom_ops", "inputs_as_nchw", "outputs_as_nchw"}


def _reqs():
    return common.api_only(common.requests())


def _outer(reqs):
    return {k: v for k, v in reqs.items() if set(v["kw"]) <= OUTER_KW}


def _ops(rid, req):
    """Types of the ops that are there when handlers are called, and how often rewriters are called."""
    determinism.begin(None)
    seen, calls = {}, [0]

    def rw(g, ops):
        calls[0] += 1
        for n in ops:
            t = n.type
            seen[t] = seen.get(t, 0) + 1
        return g.get_nodes()
    try:
        run(req, None, custom_rewriter=[rw])
    except Exception:
        pass
    return {"ops": seen, "rewriter calls": calls[0]}


def make_refs(ctx, i, n):
    reqs = _reqs()
    outer = _outer(reqs)
    res = common.fresh_outcomes(reqs, i, n, kinds=("call",))
    for k, rid in enumerate(sorted(reqs)):
        if k % n == i and rid in outer:
            res["ops/" + rid] = common.fork_call(_ops, rid, reqs[rid])
    return res


def setup(ctx):
    common.load()
    ctx.reqs = _reqs()
    ctx.names = sorted(ctx.reqs)
    ctx.outer = sorted(_outer(ctx.reqs))


def _inner(ctx, rng, depth):
    rid = rng.choice(ctx.names)
    st = {"req": rid, "at": rng.choice([1, 1, 1, 2, 3])}
    if rid.startswith(("gd_", "gdd_", "v1_", "tfl_")) and rng.random() < 0.6:
        st["in_graph"] = True
    if rng.random() < 0.25:
        a = common.pick(rng, ctx.refs["profile/" + rid])
        if a:
            st["fault"] = [list(a[:3]), a[3], rng.choice(EXC)]
    elif depth == 0 and rid in ctx.outer and rng.random() < 0.3:
        st["cb"] = callback(ctx, rng, rid)
        if st["cb"]:
            st["inner"] = [_inner(ctx, rng, 1)]
    return st


def callback(ctx, rng, rid):
    o = ctx.refs["ops/" + rid]
    kinds = ["rewriter"] if o["rewriter calls"] else []
    kinds += ["handler"] * 2 if o["ops"] else []
    if rid.startswith(("k_", "onnx_")):
        kinds += ["optimizer"] * 2
    if not kinds:
        return None
    k = rng.choice(kinds)
    return [k, rng.choice(sorted(o["ops"])) if k == "handler" else rng.choice(["first", "last"])]


def scenario(ctx, rng):
    rid = rng.choice(ctx.outer)
    return {"req": rid, "cb": callback(ctx, rng, rid),
            "inner": [_inner(ctx, rng, 0) for _ in range(rng.choice([1, 1, 2]))]}


def run(req, live, **more):
    e = common.model(req["m"])
    if live is None:
        live = e.build()
    kw = common.realise(req.get("kw"))
    kw.update(more)
    return e.convert(live, **kw)


def with_callback(cb, do, calls):
    """Options of a conversion whose callback does do(number of the call)."""
    def step():
        calls[0] += 1
        do(calls[0])
    if cb[0] == "handler":
        def h(g, node, name, args):
            step()
            return node
        return {"custom_op_handlers": {cb[1]: (h, [])}}
    if cb[0] == "rewriter":
        def rw(g, ops):
            step()
            return g.get_nodes()
        return {"custom_rewriter": [rw]}
    from tf2onnx import optimizer
    from tf2onnx.optimizer.optimizer_base import GraphOptimizerBase

    class Pass(GraphOptimizerBase):
        def _optimize(self, graph):
            step()
            return graph
    ps = list(optimizer._get_optimizers().items())
    ps.insert(0 if cb[1] == "first" else len(ps), ("verif", Pass))
    return {"optimizers": type(optimizer._get_optimizers())(ps)}


def outcome(ctx, rid, live, more):
    try:
        p, st = run(ctx.reqs[rid], live, **more)
    except Exception as e:
        return ["err", type(e).__name__, str(e)[:300]]
    without_uuids(p.graph)
    return ["ok", common.norm(canon.model_form(p, st))]


def without_uuids(g):
    """Keras gives its tables another uuid each time; a handler that leaves the op alone leaves the uuid in the model."""
    for n in g.node:
        for a in n.attribute:
            if a.name == "shared_name":
                a.s = UUID.sub(b"uuid", a.s)
            for sub in [a.g] * a.HasField("g") + list(a.graphs):
                without_uuids(sub)


def execute(ctx, sc, res):
    if not sc["cb"]:
        res.nontrivial = False
        return
    res.sig = []
    res.simtime = 0
    nested = [0]
    level(ctx, sc, res, nested, 0, [])
    res.nontrivial = nested[0] > 0


def level(ctx, sc, res, nested, depth, around):
    """Converts sc["req"] twice: with a callback that does nothing, and with one that converts."""
    rid = sc["req"]
    live = build(ctx, rid)
    n0, n1 = [0], [0]
    want = outcome(ctx, rid, live, with_callback(sc["cb"], lambda n: None, n0))
    done = []

    def do(n):
        for st in sc["inner"]:
            if st["at"] == n:
                nested[0] += 1
                with outside(st):
                    done.append(inner(ctx, st, res, nested, depth, around + [rid]))
    got = outcome(ctx, rid, live, with_callback(sc["cb"], do, n1))
    for d in done:
        if isinstance(d, Violation):
            raise d
    res.sig.append([rid, sc["cb"], [d for d in done]])
    if not done:
        return
    what = "converting %s%s, whose %s converts %s," % (rid, " inside " + " inside ".join(around) if around else "", " ".join(sc["cb"]),
                                                     [s["req"] for s in sc["inner"]])
    d = common.compare(got, want)
    if d:
        raise Violation("outer conversion", "%s gives %s" % (what, d))
    if n0 != n1:
        raise Violation("outer conversion", "%s calls it %d times, %d times when it does nothing" % (what, n1[0], n0[0]))
    res.probe("outer conversions compared")


def outside(st):
    """A callback runs in the graph of the conversion it belongs to; models of TensorFlow 2 are made and converted outside
    of graphs."""
    if st.get("in_graph"):
        return contextlib.nullcontext()
    from tensorflow.python.eager import context
    return context.eager_mode()


def build(ctx, rid):
    with outside({}):
        return common.model(ctx.reqs[rid]["m"]).build()


def inner(ctx, st, res, nested, depth, around):
    rid = st["req"]
    if st.get("inner"):
        try:
            level(ctx, st, res, nested, depth + 1, around)
        except Violation as v:
            return v
        return [rid, "nested"]
    if st.get("fault"):
        key, n, exc = st["fault"]
        s = monitor.Session(kinds=("call",), plan={(*key, n): exc},
                            code_filter=lambda mm, c, w=key[1]: "%s:%s" % (mm, c.co_qualname) == w)
        live = build(ctx, rid)
        try:
            with s:
                common.run_request(ctx.reqs[rid], live)
        except (Exception, KeyboardInterrupt, SystemExit):
            pass
        for f in s.fired:
            res.fault("call fails: %s" % f["exc"])
        return [rid, [f["at"] for f in s.fired]]
    o, _ = common.outcome_kept(ctx.reqs[rid], build(ctx, rid))
    d = common.compare(o, ctx.refs[rid])
    if d:
        return Violation("inner conversion", "converting %s from a callback of converting %s gives %s" % (rid, around, d))
    res.probe("inner conversions compared")
    return [rid, o[0]]


def shrink(sc):
    for c in common.seq_shrink(sc, "inner", 1):
        yield c
    for i, s in enumerate(sc["inner"]):
        for k in ("fault", "inner"):
            if s.get(k):
                t = dict(s)
                del t[k]
                yield dict(sc, inner=[t if j == i else x for j, x in enumerate(sc["inner"])])
        if s["at"] > 1:
            yield dict(sc, inner=[dict(s, at=1) if j == i else x for j, x in enumerate(sc["inner"])])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
