"""C04: conversions running at the same time in one process do not influence each other.

Simulated: the interleaving.  Two or three callers run the real public API in real threads; the seeded scheduler
decides at every place where CPython may switch threads inside tf2onnx who continues.
Reference: the same conversion alone in a fresh process."""
import os

from sim import determinism, sched, state
from sim.harness import Violation
from . import common

PROPERTY = "C04"
FAMILIES = [
    ["conv", "conv:o10", "conv:o18", "conv:nchw", "conv:large", "conv:hconv", "padconv", "padconv:o10", "padconv:o11",
     "padconv:o18", "pool3d", "pool3d:o10", "conv_chain", "tfl_conv"],
    ["while", "while:o11", "while:o18", "while:tfx", "while:tftanh", "while:tanhdom", "while:hmul", "while:hboom",
     "nested", "nested:o11", "nested:o18", "cond", "cond:o11", "cond:o18", "cond:concatdom", "gd_cond", "gd_nested",
     "gd_nested:large", "gd_while:o13", "cond_in_loop", "tensor_array", "tfl_while"],
    ["custom", "custom:dom", "custom:dom2", "custom:h", "custom:tfdom", "custom:tfx", "while:tfx", "mlp:tfx"],
    ["random", "random:o10", "random:o18", "randdyn", "randdyn:o8", "randdyn:o11", "randdyn:o18"],
    ["mlp", "mlp:o9", "mlp:o18", "mlp:large", "mlp:softmaxdom", "mlp:tfsoftmax", "mlp:hmul", "mlp:shape", "mlp:rwok",
     "mlp:toohigh", "mlp:rs6", "gd_mlp", "tfl_mlp", "tfl_mlp:dom", "mlp:tfx", "mlp:matmuldom"],
    ["dup", "dup:o9", "dup:rwboom", "consts", "shapes", "shapes:o11", "shapes:o18", "transposes", "gemm", "batchmm",
     "ints:o10", "gemm:msft"],
    ["einsum", "einsum:o18", "batchmm", "batchmm:o12"],
    ["tfl_mlp", "tfl_conv", "tfl_while", "tfl_shapes", "tfl_nhwc_add:o13", "tfl_mlp:dom"],
    ["msops:o13", "msops:ms-o13", "strops:o13", "strops:contrib-o13", "msops:ms-o18", "msops:o18"],
    ["k_lstm", "k_bigru:o15", "k_func", "k_cnn"],
    ["onnx_par_chains", "onnx_conv_chain", "onnx_nested", "onnx_transposes:strict", "onnx_v1_conds", "onnx_ops_shared", "conv_chain",
     "nested", "par_conv", "ops_shared"],
    ["raw_v1_lstm", "raw_v1_cond", "raw_v1_consts", "raw_gd_shapes", "v1_while", "v1_nested"],
    ["big:large", "bigbody:large", "conv:large", "k_big:large", "gd_big:large"],
]
NAMES = sorted({x for f in FAMILIES for x in f})
# where a conversion as a whole is put together: half of the preemptions go there
TOP = ("convert", "tf_loader", "tfonnx", "handler", "tf_utils", "tflite_utils", "shape_inference", "utils", "constants")


# of the thread that looks, not of the process
MAY_CHANGE = ()


def _reqs():
    r = common.requests()
    return {k: r[k] for k in NAMES}


def make_refs(ctx, i, n):
    return common.fresh_outcomes(_reqs(), i, n, kinds=("point",))


def setup(ctx):
    common.load(locks=True)
    ctx.reqs = _reqs()
    ctx.shared, ctx.written, ctx.groups = sched.shared_state_functions()
    if os.environ.get("VERIF_REFONLY"):
        return
    ctx.cold = common.Cold()
    # first use of everything: lazily loaded parts of TensorFlow
    for r in ("mlp:large", "gd_while:o13", "tfl_mlp", "while"):
        common.outcome(ctx.reqs[r])


def _top(w):
    return w.split(":")[0].split(".")[1] in TOP


def scenario(ctx, rng):
    n = rng.choice([2, 2, 2, 3])
    ids = [rng.choice(NAMES) for _ in range(n)]
    if rng.random() < 0.55:
        # callers that convert similar things meet in the same code
        fam = rng.choice(FAMILIES)
        ids = [rng.choice(fam) for _ in range(n)]
    pre, every = [], []
    refs = [ctx.refs["profile/" + i] for i in ids]
    if rng.random() < 0.3:
        # callers take turns at every entry of some functions
        ws = sorted({w for p in refs for w in p if any(x[1] == "enter" for x in p[w])})
        top = [w for w in ws if _top(w)]
        every = sorted({rng.choice(top if rng.random() < 0.6 else ws) for _ in range(rng.choice([1, 2, 4, 8]))})
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 9])):
        t = rng.randrange(n)
        a = common.pick(rng, refs[t], where=_top if rng.random() < 0.5 else None)
        if a is None:
            continue
        nxt = rng.choice([x for x in range(n) if x != t])
        pre.append([t, list(a[:3]), a[3], nxt])
    order = list(range(n))
    rng.shuffle(order)
    sc = {"callers": ids, "preemptions": pre, "every": every, "order": order}
    if rng.random() < 0.4:
        # callers take turns, by a coin, at every place inside functions that use something all threads share
        ws = {w for p in refs for w in p}
        hot = [w for w in ctx.shared if w in ws]
        if hot:
            if rng.random() < 0.5:
                # everything that uses one of these things
                i = rng.randrange(ctx.written) if ctx.written and rng.random() < 0.5 else rng.randrange(len(ctx.groups))
                hot = [w for w in ctx.groups[i] if w in ws] or hot
                sc["hot"] = sorted(rng.sample(hot, min(8, len(hot))))
            else:
                sc["hot"] = sorted({rng.choice(hot) for _ in range(rng.choice([1, 1, 2, 4]))})
            sc["hot_seed"] = rng.randrange(1 << 30)
            sc["max_hot"] = rng.choice([20, 200, 600])
            sc["hot_p"] = [0.5] * n if rng.random() < 0.6 else [rng.choice([0.9, 0.5, 0.1, 0.02]) for _ in range(n)]
            if rng.random() < 0.5:
                sc["callers"] = [ids[0]] * n
                sc["preemptions"], sc["every"] = [], []
    if rng.random() < 0.3:
        # the callers are the first to convert anything in their process
        sc["cold"] = True
    return sc


def _run(sc, reqs):
    """-> what became of the callers."""
    ids = sc["callers"]
    lives = [common.model(reqs[i]["m"]).build() for i in ids]
    tasks = [(lambda i=i, live=live: common.outcome(reqs[i], live)) for i, live in zip(ids, lives)]
    s = sched.Scheduler(tasks, [(t, tuple(k), n, x) for t, k, n, x in sc["preemptions"]], sc["order"],
                        every=sc["every"], hot=sc.get("hot", ()), hot_seed=sc.get("hot_seed", 0), max_hot=sc.get("max_hot", 0),
                        hot_p=sc.get("hot_p", 0.5))
    places = {k[1] for _, k, _, _ in sc["preemptions"]} | set(sc["every"]) | set(sc.get("hot", ()))
    before = state.take()
    out = s.run(code_filter=lambda m, c: "%s:%s" % (m, c.co_qualname) in places)
    for i in range(2):
        changed = state.diff(before, state.take(collect=i > 0), MAY_CHANGE)
        if not changed:
            break
    return {"events": sum(s.events), "switches": [list(x) for x in s.switches], "failure": s.failure, "changed": changed,
            "out": [(k, v if k == "ok" else repr(v)) for k, v in out]}


def _run_cold(sc, reqs):
    determinism.begin(sc.get("hash_seed"))
    return _run(sc, reqs)


def execute(ctx, sc, res):
    ids = sc["callers"]
    if sc.get("cold"):
        r = ctx.cold.call(_run_cold, sc, {i: ctx.reqs[i] for i in ids})
        # TensorFlow sets itself up at its first use
        r["changed"] = None
        res.probe("first conversions of the process")
    else:
        r = _run(sc, ctx.reqs)
    res.steps = r["events"]
    for _, _, why in r["switches"]:
        res.fault("preemption" if why != "blocked on a lock" else "blocked on lock")
    res.sig = [ids, sc["order"], r["switches"]]
    res.nontrivial = len(r["switches"]) > 0
    res.probe("switches", len(r["switches"]))
    res.probe("callers", len(ids))
    if r["failure"]:
        raise Violation("deadlock", "%s; callers %s" % (r["failure"], ids))
    for me, (i, (k, v)) in enumerate(zip(ids, r["out"])):
        if k != "ok":
            raise Violation("interference", "caller converting %s died with %s" % (i, v))
        d = common.compare(v, ctx.refs[i])
        if d:
            raise Violation("interference", "converting %s together with %s gives %s" % (
                i, [x for j, x in enumerate(ids) if j != me], d))
    if r["changed"]:
        raise Violation("process state", "converting %s at the same time changed %s" % (ids, "; ".join(r["changed"])))


def shrink(sc):
    if sc.get("cold"):
        yield {k: v for k, v in sc.items() if k != "cold"}
    if sc.get("hot"):
        yield {k: v for k, v in sc.items() if k not in ("hot", "hot_seed", "max_hot", "hot_p")}
        for c in common.seq_shrink(sc, "hot", 1):
            yield c
        for m in (sc["max_hot"] // 2, sc["max_hot"] * 9 // 10, sc["max_hot"] - 1):
            if 0 < m < sc["max_hot"]:
                yield dict(sc, max_hot=m)
    for c in common.seq_shrink(sc, "every", 0):
        yield c
    for c in common.seq_shrink(sc, "preemptions", 0):
        yield c
    if len(sc["callers"]) == 3:
        for drop in range(3):
            keep = [i for i in range(3) if i != drop]
            m = {o: n for n, o in enumerate(keep)}
            more = {"hot_p": [sc["hot_p"][i] for i in keep]} if "hot_p" in sc else {}
            yield dict(sc, **more, callers=[sc["callers"][i] for i in keep], order=[m[o] for o in sc["order"] if o in m],
                       preemptions=[[m[t], k, n, m.get(x, 1 - m[t])] for t, k, n, x in sc["preemptions"] if t in m])
    for i, rid in enumerate(sc["callers"]):
        if rid != "mlp":
            yield dict(sc, callers=[("mlp" if j == i else x) for j, x in enumerate(sc["callers"])])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
