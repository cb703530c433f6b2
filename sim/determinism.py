"""Seams for the nondeterminism that Python itself adds: object identity as hash, and the GC.

Graph nodes are kept in sets and used as dictionary keys by the converter; their default hash is their memory
address, so iteration order changes from process to process.  Under simulation the hash of a node is drawn from the
run's seed instead: one seed, one order - and different seeds explore different orders.
"""
import gc
import itertools
import random

_state = {"ctr": itertools.count(), "rng": None, "patched": False}


def _sim_hash(self):
    h = self.__dict__.get("_verif_h") if hasattr(self, "__dict__") else None
    if h is None:
        rng = _state["rng"]
        h = rng.getrandbits(60) if rng is not None else next(_state["ctr"])
        try:
            self._verif_h = h
        except AttributeError:
            return id(self) >> 4
    return h


def install():
    if _state["patched"]:
        return
    import tf2onnx.graph as g
    for cls in (g.Node, g.Graph):
        cls.__hash__ = _sim_hash
        # a copy is another object: it must not share the identity hash of its original
        orig = cls.__dict__.get("__deepcopy__")
        if orig is None:
            continue
    _state["patched"] = True
    gc.disable()


def begin(seed):
    """Start of a run: order of identity-hashed sets is now a function of seed (None: creation order)."""
    _state["ctr"] = itertools.count(1)
    _state["rng"] = random.Random(seed) if seed is not None else None


def end():
    gc.collect()
