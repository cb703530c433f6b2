"""C05: converting the same model with the same options always gives the same ONNX model.

Simulated: everything the interpreter decides differently from process to process and that may reach an iteration order:
identity hashes of graph nodes (drawn from the seed), string hashing (each simulation process has another
PYTHONHASHSEED), the state of the generator of internal names, uuids and the clock.
Reference: the same conversion in a fresh process with hash seed 0 and creation-order hashes."""
import random
import uuid

import numpy as np

from sim import canon, determinism
from sim.harness import Violation
from . import common

PROPERTY = "C05"


def _reqs():
    return common.requests()


def make_refs(ctx, i, n):
    out = {}
    reqs = _reqs()
    for k, rid in enumerate(sorted(reqs)):
        if k % n == i:
            out[rid], out["exact/" + rid] = common.fork_call(_fresh, reqs[rid])
    return out


FIRST = 1   # number of the first generated name where names count


def _fresh(req):
    determinism.begin(None)
    set_counter(FIRST)
    return outcome(req, common.model(req["m"]).build())


def outcome(req, live):
    o, kept = common.outcome_kept(req, live)
    return o, (canon.exact_hash(kept[0]) if kept else None)


def setup(ctx):
    common.load()
    ctx.reqs = _reqs()
    ctx.names = sorted(ctx.reqs)


def set_counter(n):
    """State of the generator of internal names: what it is depends on what the process did before."""
    from tf2onnx import utils
    if isinstance(getattr(utils, "INTERNAL_NAME", None), int):
        utils.INTERNAL_NAME = n
        return True
    return False


def scenario(ctx, rng):
    rid = ctx.names[ctx.seed % len(ctx.names)]   # all in turn, each under several hash seeds
    mode = rng.random()
    sc = {"req": rid, "hash_seed": rng.choice([None, rng.randrange(1 << 30), rng.randrange(1 << 30)]),
          "reuse": mode < 0.2, "uuid_seed": rng.randrange(1 << 30)}
    if mode < 0.08 or 0.2 < mode < 0.45:
        # just below a power of ten the spelling order of generated names changes inside the conversion
        sc["names_from"] = 10 ** rng.choice([2, 2, 3, 3, 3, 4, 5]) - rng.randrange(0, 60)
    return sc


def execute(ctx, sc, res):
    """Each run in a process of its own, as the reference: what TensorFlow names its functions depends on their number."""
    got, exact, counter = common.fork_call(_run, sc, ctx.reqs[sc["req"]])
    if counter and "names_from" in sc:
        res.fault("generated names start at another number")
    res.fault("identity hashes drawn from seed", 1 if sc["hash_seed"] is not None else 0)
    res.sig = [sc["req"], sc["hash_seed"], sc.get("names_from"), sc["reuse"]]
    d = common.compare(got, ctx.refs[sc["req"]])
    if d:
        raise Violation("not reproducible", "converting %s again gives %s" % (sc["req"], d))
    if exact and "names_from" not in sc and not sc["reuse"]:
        res.probe("compared byte for byte")
        if exact != ctx.refs["exact/" + sc["req"]]:
            raise Violation("not the same bytes", "converting %s again gives the same model written down in another way (order "
                            "of nodes or entries, names)" % sc["req"])


def _run(sc, req):
    live = common.model(req["m"]).build()
    if sc["reuse"]:
        determinism.begin(None)
        common.outcome(req, live)
    counter = set_counter(sc.get("names_from", FIRST))
    r = random.Random(sc["uuid_seed"])
    uuid.uuid4 = lambda: uuid.UUID(int=r.getrandbits(128), version=4)
    random.seed(sc["uuid_seed"])
    np.random.seed(sc["uuid_seed"] % (1 << 31))
    determinism.begin(sc["hash_seed"])
    return outcome(req, live) + (counter,)


def shrink(sc):
    if sc.get("names_from"):
        yield {k: v for k, v in sc.items() if k != "names_from"}
    if sc["hash_seed"] is not None:
        yield dict(sc, hash_seed=None)
        for h in range(4):
            if sc["hash_seed"] != h:
                yield dict(sc, hash_seed=h)
    if sc["reuse"]:
        yield dict(sc, reuse=False)


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
