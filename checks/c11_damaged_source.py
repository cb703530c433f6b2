"""C11: a damaged model file is never converted into another model.

Simulated: the disk that holds the source model after a crash, a full disk or an interrupted copy: one file torn at a seeded
offset (or at a block boundary), empty, missing, with a block written twice (where the format has lengths), or served short by read(); all file formats the
converter reads (TFLite, TF.js model and weight shards, frozen graphs, SavedModels, checkpoints, Keras files) and the zip files
it writes itself.
Checked: the conversion fails, or returns a model that computes what the undamaged one computes; a failed one writes nothing."""
import base64
import os
import shutil
import zlib

from sim import canon, determinism
from sim.harness import Violation
from . import common
from .c09_dependency import ios, mismatch

PROPERTY = "C11"
REQS = ["tfl_mlp", "tfl_conv", "tfl_while", "tfl_shapes", "tfl_nhwc_add", "tfl_quant", "tfl_big", "js_mlp", "js_conv", "js_while",
        "js_cond", "js_nested", "js_cond_in_loop", "js_gather_scatter", "js_shapes", "js_big", "gdf_mlp", "gdf_conv", "gdf_gemm", "gdf_nested", "gdf_big", "gdf_bigbody", "sm_mlp",
        "sm_dictout", "sm_while", "sm_table_a", "sm_big", "ck_relu", "kf_k_cnn"]
ZIPS = {"zip:big": "big", "zip:gd_bigbody": "gd_bigbody", "zip:k_big": "k_big"}


def names():
    return [r for r in REQS if r in common.by_name()] + sorted(ZIPS)


def _fresh(rid):
    import tempfile
    determinism.begin(None)
    if rid in ZIPS:
        with tempfile.TemporaryDirectory(prefix="verif-zip-") as d:
            p = os.path.join(d, "m.zip")
            common.run_request({"m": ZIPS[rid], "kw": {"large_model": True}}, None, p)
            with open(p, "rb") as f:
                data = f.read()
            return {"files": {"m.zip": len(data)}, "data": base64.b64encode(zlib.compress(data)).decode(), "hash": load_zip(p)}
    e = common.model(rid)
    kept = e.convert(e.build())
    feeds = e.feeds(1)
    d = mismatch(kept, e, feeds, e.reference(None, feeds), ios(kept[0]))
    return {"files": files_of(e.path), "hash": canon.model_form(*kept)["hash"], "io": ios(kept[0]), "ok": d}


def load_zip(path):
    from tf2onnx import utils
    from tf2onnx.graph import ExternalTensorStorage
    st = ExternalTensorStorage()
    p = utils.model_proto_from_zip(path, st)
    return canon.model_form(p, st)["hash"]


def files_of(path):
    d = root_of(path)
    if os.path.isfile(d):
        return {os.path.basename(d): os.path.getsize(d)}
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            x = os.path.join(b, f)
            r[os.path.relpath(x, d)] = os.path.getsize(x)
    return r


def root_of(path):
    """What has to be copied to have a model of one's own: the file or its directory."""
    if os.path.isdir(path):
        return path
    d = os.path.dirname(path)
    return path if os.path.basename(d) in ("tflite", "graphdef", "keras") else d


def make_refs(ctx, i, n):
    res = {}
    for k, rid in enumerate(names()):
        if k % n == i:
            res[rid] = common.fork_call(_fresh, rid)
    return res


def setup(ctx):
    common.load()
    ctx.names = names()


def scenario(ctx, rng):
    rid = rng.choice(ctx.names)
    fs = ctx.refs[rid]["files"]
    f = rng.choice(sorted(fs))
    n = fs[f]
    kind = rng.choice(["torn"] * 6 + ["torn block", "empty", "missing", "twice", "twice", "short read"])
    if kind == "twice" and not f.endswith((".bin", ".zip", ".h5")) and ".data-" not in f:
        kind = "torn"       # a text or a message that says something twice may well be another valid one
    at = rng.choice([rng.randrange(max(1, n)), rng.randrange(max(1, n)), max(0, n - 1 - rng.randrange(64)),
                     rng.randrange(min(64, max(1, n)))])
    if kind == "torn block":
        at = rng.randrange(0, n + 1, 512)
    return {"req": rid, "file": f, "kind": kind, "at": at, "len": rng.choice([1, 16, 512, 4096]), "out": rng.random() < 0.5}


def damage(path, sc):
    with open(path, "rb") as f:
        b = f.read()
    at = sc["at"]
    if sc["kind"] in ("torn", "torn block"):
        b = b[:at]
    elif sc["kind"] == "empty":
        b = b""
    elif sc["kind"] == "missing":
        os.unlink(path)
        return
    elif sc["kind"] == "twice":
        b = b[:at] + b[at:at + sc["len"]] + b[at:]
    with open(path, "wb") as f:
        f.write(b)


def execute(ctx, sc, res):
    rid = sc["req"]
    res.fault("file " + sc["kind"])
    res.sig = [rid, sc["file"], sc["kind"], sc["at"]]
    try:
        r = common.fork_call(_run, sc, ctx.refs[rid], ctx.scratch)
    except RuntimeError as e:
        if "process died" not in str(e):
            raise
        r = ["failed", "process died"]      # in C++ code of TensorFlow
    res.probe("ended: " + r[0])
    if r[0] in ("wrong", "left"):
        raise Violation("wrong model" if r[0] == "wrong" else "output of a failed conversion",
                        "converting %s with %s %s at %d: %s" % (rid, sc["file"], sc["kind"], sc["at"], r[1]))


def _run(sc, ref, scratch):
    determinism.begin(None)
    rid = sc["req"]
    short = os.path.join(scratch, "src", sc["file"]) if sc["kind"] == "short read" else None
    if rid in ZIPS:
        os.makedirs(os.path.join(scratch, "src"))
        p = os.path.join(scratch, "src", "m.zip")
        with open(p, "wb") as f:
            f.write(zlib.decompress(base64.b64decode(ref["data"])))
        damage(p, sc)
        try:
            with short_reads(short, sc["at"]):
                h = load_zip(p)
        except Exception as x:
            return ["failed", type(x).__name__]
        return ["same", ""] if h == ref["hash"] else ["wrong", "model_proto_from_zip returned another model"]
    e = common.model(rid)
    src = root_of(e.path)
    dst = os.path.join(scratch, "src")
    if os.path.isdir(src):
        shutil.copytree(src, dst)
        path = os.path.join(dst, os.path.relpath(e.path, src)) if src != e.path else dst
    else:
        os.makedirs(dst)
        path = os.path.join(dst, os.path.basename(src))
        shutil.copy(src, path)
    damage(os.path.join(dst, sc["file"]), sc)
    out = os.path.join(scratch, "m.onnx") if sc["out"] else None
    kw = {"output_path": out} if out else {}
    try:
        with short_reads(short, sc["at"]):
            kept = e.convert({"obj": path}, **kw)
    except Exception as x:
        if out and os.path.exists(out):
            return ["left", "the conversion failed with %s and left a file at the output path" % type(x).__name__]
        return ["failed", type(x).__name__]
    if canon.model_form(*kept)["hash"] == ref["hash"]:
        return ["same", ""]
    feeds = e.feeds(1)
    try:
        d = mismatch(kept, e, feeds, e.reference(None, feeds), ref["io"])
    except Exception as x:
        d = "ONNX Runtime rejects the model: %s" % str(x)[:300]
    return ["wrong", d] if d else ["equivalent", ""]


class short_reads:
    """Files opened by Python code: one of them ends early although its size says otherwise."""

    def __init__(self, path, at):
        self.path, self.at = path, at

    def __enter__(self):
        import builtins
        import io
        self.orig = builtins.open, io.open
        if self.path is None:
            return self
        real = builtins.open

        def fake(file, mode="r", *a, **k):
            if "b" in mode and "r" in mode and isinstance(file, (str, os.PathLike)) and \
                    os.path.abspath(os.fspath(file)) == os.path.abspath(self.path):
                with real(file, "rb") as f:
                    return Short(f.read()[:self.at])
            return real(file, mode, *a, **k)

        class Short(io.BytesIO):
            pass
        builtins.open = io.open = fake
        return self

    def __exit__(self, *a):
        import builtins
        import io
        builtins.open, io.open = self.orig
        return False


def shrink(sc):
    if sc["out"]:
        yield dict(sc, out=False)
    if sc["kind"] == "short read":
        yield dict(sc, kind="torn")
    if sc["kind"] == "twice" and sc["len"] > 1:
        yield dict(sc, len=1)


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
