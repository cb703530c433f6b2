"""C07: a conversion leaves the process of its caller as it found it, whether it succeeds or fails.

Simulated: failures of calls out of tf2onnx (TensorFlow, numpy, onnx, protobuf, files) at seeded places, one or two per
conversion, including an interrupt; seeded settings of the caller (device, graph, session, optimizer options, log levels,
environment, random seeds) around the call.
Checked: a snapshot of everything process-wide before and after the call."""
import contextlib
import logging
import os
import random

import numpy as np

from sim import monitor, state, zoo
from sim.harness import Violation
from . import common

PROPERTY = "C07"
EXC = ["RuntimeError", "ValueError", "KeyError", "OSError", "MemoryError", "TypeError", "AttributeError", "KeyboardInterrupt",
       "SystemExit", "NotImplementedError"]


def _reqs():
    return common.requests()


def make_refs(ctx, i, n):
    return common.fresh_outcomes(_reqs(), i, n, kinds=("call",), dense=HOT)


def setup(ctx):
    common.load()
    ctx.reqs = _reqs()
    ctx.names = sorted(ctx.reqs)
    if os.environ.get("VERIF_REFONLY"):
        return
    # first use of everything: lazily loaded parts of TensorFlow
    for r in ("mlp:large", "gd_while:o13", "k_func", "tfl_mlp", "while"):
        common.outcome(ctx.reqs[r])


# where a conversion touches what belongs to the process
HOT = ("tf2onnx.tf_loader", "tf2onnx.convert", "tf2onnx.tf_loader", "tf2onnx.convert", "tf2onnx.tf_utils", "tf2onnx.shape_inference", "tf2onnx.tfonnx",
       "tf2onnx.tflite_utils", "tf2onnx.tfjs_utils", "tf2onnx.utils", "tf2onnx.handler")
# the command line owns its process: it sets up logging and starts with a clean default graph
CLI_OWNS = ("default graph", "environment", "default session")
SURROUND = ["device", "graph", "session", "optopts", "levels", "env", "seeds", "errstate", "scope", "cwd", "runeager"]


def scenario(ctx, rng):
    rid = rng.choice(ctx.names) if rng.random() < 0.75 else rng.choice([r for r in ctx.names if ctx.reqs[r]["kw"].get("large_model")])
    faults = []
    if rng.random() < 0.85:
        for _ in range(rng.choice([1, 1, 1, 2])):
            pr = ctx.refs["profile/" + rid]
            a = common.pick(rng, pr, where=common.focus(rng, HOT, pr) if rng.random() < 0.6 else None)
            if a:
                faults.append([list(a[:3]), a[3], rng.choice(EXC)])
    kind = common.model(ctx.reqs[rid]["m"]).kind
    sur = sorted(rng.sample(SURROUND, rng.choice([0, 0, 1, 2, 3])))
    if common.cli_only(ctx.reqs[rid]):
        sur = []
    # a Keras model or tf.function made outside of a graph cannot be used inside of it
    if kind in ("keras", "function"):
        sur = [s for s in sur if s not in ("graph", "session", "runeager", "scope")]
    return {"req": rid, "faults": faults, "around": sur, "out": rng.random() < 0.3}


@contextlib.contextmanager
def surroundings(ctx, names):
    tf = zoo.tf()
    with contextlib.ExitStack() as st:
        for n in names:
            if n == "device":
                st.enter_context(tf.device("/cpu:0"))
            elif n == "graph":
                g = tf.Graph()
                st.enter_context(g.as_default())
                tf.constant(1.0, name="of_the_caller")
            elif n == "session":
                st.enter_context(tf.compat.v1.Session(graph=tf.Graph()).as_default())
            elif n == "scope":
                st.enter_context(tf.name_scope("caller"))
            elif n == "optopts":
                old = tf.config.optimizer.get_experimental_options()
                tf.config.optimizer.set_experimental_options({"constant_folding": False, "layout_optimizer": False})
                st.callback(tf.config.optimizer.set_experimental_options,
                            dict({"constant_folding": True, "layout_optimizer": True}, **old))
            elif n == "levels":
                for k, lv in (("tf2onnx", logging.ERROR), ("tensorflow", logging.FATAL), ("", logging.ERROR)):
                    lg = logging.getLogger(k)
                    st.callback(lg.setLevel, lg.level)
                    lg.setLevel(lv)
            elif n == "env":
                old = {k: os.environ.get(k) for k in ("TF_CPP_MIN_LOG_LEVEL", "TF2ONNX_TEMP_DIRECTORY")}

                def back(old=old):
                    for k, v in old.items():
                        if v is None:
                            os.environ.pop(k, None)
                        else:
                            os.environ[k] = v
                st.callback(back)
                os.environ.update(TF_CPP_MIN_LOG_LEVEL="1", TF2ONNX_TEMP_DIRECTORY=ctx.scratch)
            elif n == "seeds":
                random.seed(77)
                np.random.seed(78)
                tf.random.set_seed(79)
            elif n == "errstate":
                st.enter_context(np.errstate(all="raise", under="ignore"))
            elif n == "cwd":
                st.callback(os.chdir, os.getcwd())
                os.chdir(ctx.scratch)
            elif n == "runeager":
                tf.config.run_functions_eagerly(True)
                st.callback(tf.config.run_functions_eagerly, False)
        yield


def execute(ctx, sc, res):
    req = ctx.reqs[sc["req"]]
    plan = {(*k, n): exc for k, n, exc in sc["faults"]}
    ws = {k[1] for k, n, exc in sc["faults"]}
    lv = logging.getLogger("tf2onnx").level
    with state.Tmp(ctx.scratch) as tmp:
        live = common.model(req["m"]).build()
        with surroundings(ctx, sc["around"]):
            out = os.path.join(ctx.scratch, "out", "m.onnx") if sc["out"] else None
            a = state.take(tmp)
            s = monitor.Session(kinds=("call",), plan=plan,
                                code_filter=lambda mm, c: "%s:%s" % (mm, c.co_qualname) in ws)
            try:
                if plan:
                    with s:
                        common.run_request(req, live, out)
                else:
                    common.run_request(req, live, out)
                o = "finished"
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                o = type(e).__name__
            ignore = []
            if common.cli_only(req):
                ignore = [k for k in a if k in CLI_OWNS or k.startswith("logger")]
            d = []
            for i in range(2):
                b = state.take(tmp, collect=i > 0)
                d = state.diff(a, b, ignore)
                if not d:
                    break
    logging.getLogger("tf2onnx").setLevel(lv)
    for f in s.fired:
        res.fault("call fails: %s" % f["exc"])
    for n in sc["around"]:
        res.probe("caller: " + n)
    res.steps += s.count
    res.sig = [sc["req"], o, [[f["at"], f["what"], f["exc"]] for f in s.fired], sc["around"]]
    res.probe("ended: " + ("finished" if o == "finished" else "failed"))
    if d:
        fired = ["%s in %s" % (f["exc"], f["at"]) for f in s.fired]
        raise Violation("process state: " + d[0].split(":")[0], "converting %s (%s%s) changed %s" % (
            sc["req"], o, " after " + ", ".join(fired) if fired else "", "; ".join(d)))


def shrink(sc):
    if sc["faults"]:
        yield dict(sc, faults=[])
        for c in common.seq_shrink(sc, "faults", 1):
            yield c
    for c in common.seq_shrink(sc, "around", 0):
        yield c
    if sc["out"]:
        yield dict(sc, out=False)
    for i, f in enumerate(sc["faults"]):
        if f[2] != "RuntimeError":
            yield dict(sc, faults=sc["faults"][:i] + [[f[0], f[1], "RuntimeError"]] + sc["faults"][i + 1:])


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
