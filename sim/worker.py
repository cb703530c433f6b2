"""A simulation process: loads TensorFlow and the tree under test once, then executes scenarios sent by the parent.

Protocol: JSON lines on stdin / fd 3.  Messages in: {"op": "run", "seed": n} (make a scenario from a seed and run it),
{"op": "exec", "scenario": {...}} (run a given scenario), {"op": "shrink", ...}, {"op": "quit"}.
"""
import importlib
import json
import os
import sys
import time
import traceback


def run(name, fd):
    out = os.fdopen(fd, "w")
    from . import env
    env.setup()
    # nothing the code under test prints may end up in the protocol
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 1)
        os.dup2(dn, 2)

    def send(m):
        out.write(json.dumps(m) + "\n")
        out.flush()

    try:
        t0 = time.time()
        check = importlib.import_module("checks." + name)
        from . import harness
        ctx = harness.Context(check)
        refs = os.environ.get("VERIF_REFS")
        if refs:
            with open(refs) as f:
                ctx.refs = json.load(f)
        check.setup(ctx)
        send({"ready": True, "t": time.time() - t0})
    except BaseException:
        send({"error": "setup", "trace": traceback.format_exc()})
        return
    for line in sys.stdin:
        m = json.loads(line)
        if m["op"] == "quit":
            break
        t0 = time.time()
        try:
            if m["op"] == "run":
                sc = harness.make_scenario(check, ctx, m["seed"])
                r = harness.execute(check, ctx, sc)
                send({"id": m["id"], "scenario": sc, "result": r, "t": time.time() - t0})
            elif m["op"] == "exec":
                r = harness.execute(check, ctx, m["scenario"])
                send({"id": m["id"], "scenario": m["scenario"], "result": r, "t": time.time() - t0})
            elif m["op"] == "shrink":
                send({"id": m["id"], "candidates": list(check.shrink(m["scenario"]))})
            elif m["op"] == "call":
                send({"id": m["id"], "value": getattr(check, m["fn"])(ctx, *m["args"])})
        except BaseException:
            send({"id": m["id"], "error": "harness", "trace": traceback.format_exc(), "t": time.time() - t0})
