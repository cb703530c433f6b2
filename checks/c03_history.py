"""C03: the result of a conversion does not depend on what the process converted before.

Simulated: the history - a seeded sequence of conversions of all source kinds and option sets, some of which are made to
fail by a fault injected at a call out of tf2onnx, some of which share a live model object.
Reference: the same request in a fresh process."""
from sim import canon, monitor
from sim.harness import Violation
from . import common

PROPERTY = "C03"
EXC = ["RuntimeError", "ValueError", "KeyError", "OSError", "MemoryError", "TypeError", "KeyboardInterrupt"]


def _reqs():
    return common.requests()


def make_refs(ctx, i, n):
    return common.fresh_outcomes(_reqs(), i, n, kinds=("call",))


def setup(ctx):
    common.load()
    ctx.reqs = _reqs()
    ctx.names = sorted(ctx.reqs)
    ctx.by_model = {}
    ctx.by_base = {}
    for r in ctx.names:
        ctx.by_model.setdefault(ctx.reqs[r]["m"], []).append(r)
        ctx.by_base.setdefault(base(ctx.reqs[r]["m"]), []).append(r)
    # requests that differ in more than the opset: the ones that may leave something behind
    ctx.loud = [r for r in ctx.names if set(ctx.reqs[r]["kw"]) - {"opset"}]


def base(m):
    for p in ("gd_", "gdf_", "tfl_", "js_", "sm_", "kf_", "k_"):
        if m.startswith(p):
            return m[len(p):]
    return m


def scenario(ctx, rng):
    n = rng.choice([2, 3, 3, 4, 4, 5, 6])
    steps = []
    focus = rng.choice(sorted(ctx.by_base)) if rng.random() < 0.4 else None
    for i in range(n):
        x = rng.random()
        if focus and x < 0.7:
            rid = rng.choice(ctx.by_base[focus])
        elif x < 0.85:
            rid = rng.choice(ctx.loud)
        else:
            rid = rng.choice(ctx.names)
        st = {"req": rid}
        prev = [s["req"] for s in steps if ctx.reqs[s["req"]]["m"] == ctx.reqs[rid]["m"]]
        if prev and rng.random() < 0.5:
            st["reuse"] = True
        if i < n - 1 and rng.random() < 0.35:
            a = common.pick(rng, ctx.refs["profile/" + rid])
            if a:
                st["fault"] = [list(a[:3]), a[3], rng.choice(EXC)]
        steps.append(st)
    return {"steps": steps}


def execute(ctx, sc, res):
    live = {}
    sig = []
    results = []
    res.nontrivial = len(sc["steps"]) > 1
    for i, st in enumerate(sc["steps"]):
        rid = st["req"]
        req = ctx.reqs[rid]
        m = req["m"]
        if not (st.get("reuse") and m in live):
            live[m] = common.model(m).build()
        if st.get("fault"):
            key, n, exc = st["fault"]
            s = monitor.Session(kinds=("call",), plan={(*key, n): exc},
                                code_filter=lambda mm, c, w=key[1]: "%s:%s" % (mm, c.co_qualname) == w)
            try:
                with s:
                    common.run_request(req, live[m])
                o = "finished"
            except BaseException as e:
                if not isinstance(e, (Exception, KeyboardInterrupt, SystemExit)):
                    raise
                o = type(e).__name__
            for f in s.fired:
                res.fault("call fails: %s" % f["exc"])
            sig.append([rid, bool(s.fired), o])
            res.steps += s.count
            if s.fired:
                continue
            continue
        got, kept = common.outcome_kept(req, live[m])
        sig.append([rid, got[0]])
        d = common.compare(got, ctx.refs[rid])
        if d:
            raise Violation("history", "converting %s after %s gives %s" % (rid, [s["req"] + (" (made to fail)" if s.get(
                "fault") else "") for s in sc["steps"][:i]], d))
        res.probe("conversions compared")
        if kept:
            results.append((i, rid, kept))
    for i, rid, (p, s) in results[:-1]:
        # a result the caller holds does not change because of later conversions
        d = common.compare(["ok", common.norm(canon.model_form(p, s))], ctx.refs[rid])
        if d:
            raise Violation("held result", "the result of converting %s was changed by the conversions after it: %s" % (rid, d))
        res.probe("earlier results compared again")
    res.sig = sig


def shrink(sc):
    for c in common.seq_shrink(sc, "steps", 1):
        yield c
    for i, s in enumerate(sc["steps"]):
        for k in ("fault", "reuse"):
            if s.get(k):
                t = dict(s)
                del t[k]
                yield dict(sc, steps=[t if j == i else x for j, x in enumerate(sc["steps"])])
        if s["req"] != "mlp" and i < len(sc["steps"]) - 1:
            yield dict(sc, steps=[{"req": "mlp"} if j == i else x for j, x in enumerate(sc["steps"])])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
