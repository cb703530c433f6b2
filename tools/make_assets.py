"""Builds the committed model files under /verif/assets (run once; needs TensorFlow only, not the tree under test).

  tflite/*.tflite      via TFLiteConverter
  tfjs/<name>/         model.json + weight shards, in the layout the tensorflowjs converter writes
  graphdef/*.pb        frozen GraphDefs
  saved/<name>/        SavedModels
  keras/*.h5           Keras model
  checkpoint/<name>/   TF1 checkpoint with meta graph
Each with reference inputs and outputs computed by TensorFlow, in ref/<name>.npz.
"""
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import env  # noqa: E402
env.setup()
import numpy as np  # noqa: E402
from sim import zoo  # noqa: E402

A = env.ASSETS
t = zoo.tf()
index = []


def ref(name, feeds, outs):
    d = {"in%d" % i: np.asarray(x) for i, x in enumerate(feeds)}
    d.update({"out%d" % i: np.asarray(x) for i, x in enumerate(outs)})
    p = os.path.join("ref", name + ".npz")
    np.savez_compressed(os.path.join(A, p), **d)
    return p


def add(name, kind, path, feeds, outs, tags=(), **more):
    index.append(dict(name=name, kind=kind, path=path, ref=ref(name, feeds, outs), n_in=len(feeds), n_out=len(outs),
                      tags=sorted(tags), **more))


def tflite_interp(path, feeds):
    it = t.lite.Interpreter(path, experimental_op_resolver_type=t.lite.experimental.OpResolverType.BUILTIN_REF)
    ins = it.get_input_details()
    for d, x in zip(ins, feeds):
        it.resize_tensor_input(d["index"], x.shape)
    it.allocate_tensors()
    for d, x in zip(ins, feeds):
        it.set_tensor(d["index"], x)
    it.invoke()
    return [it.get_tensor(d["index"]) for d in it.get_output_details()]


def make_tflite(name, e, quant=False):
    live = e.build()
    cf = live["obj"].get_concrete_function()
    c = t.lite.TFLiteConverter.from_concrete_functions([cf], live["obj"])
    if quant:
        c.optimizations = [t.lite.Optimize.DEFAULT]

        def rep():
            for s in range(8):
                yield e.feeds(s)
        c.representative_dataset = rep
    p = os.path.join("tflite", name + ".tflite")
    with open(os.path.join(A, p), "wb") as f:
        f.write(c.convert())
    feeds = e.feeds(3)
    outs = tflite_interp(os.path.join(A, p), feeds)
    add(name, "tflite", p, feeds, outs, e.tags | {"tflite"}, **({"kw": {"dequantize": True}, "atol": 0.1} if quant else {}))


def make_tfjs(name, e, shards=2, reverse=False):
    from google.protobuf.json_format import MessageToDict
    live = e.build()
    gd, ins, outs = zoo.freeze(live)
    d = os.path.join(A, "tfjs", name)
    os.makedirs(d, exist_ok=True)
    weights, blobs = [], []

    def strip(nodes):
        for n in nodes:
            if n.op == "Const":
                a = t.make_ndarray(n.attr["value"].tensor)
                w = {"name": n.name, "shape": list(a.shape), "dtype": str(a.dtype)}
                if a.dtype == object:
                    w["dtype"] = "string"
                    b = b"".join(len(x).to_bytes(4, "little") + x for x in a.ravel())
                else:
                    if a.dtype == np.bool_:
                        w["dtype"] = "bool"
                    if a.dtype == np.int64:
                        a = a.astype(np.int32)
                        w["dtype"] = "int32"
                    b = a.tobytes()
                weights.append(w)
                blobs.append(b)
                del n.attr["value"]
    strip(gd.node)
    for f in gd.library.function:
        strip(f.node_def)
    topo = MessageToDict(gd)
    if reverse:   # functions before the ones they call
        topo["library"]["function"].reverse()
    data = b"".join(blobs)
    size = -(-len(data) // shards)
    paths = []
    for i in range(shards):
        p = "group1-shard%dof%d.bin" % (i + 1, shards)
        with open(os.path.join(d, p), "wb") as f:
            f.write(data[i * size:(i + 1) * size])
        paths.append(p)
    model = {"format": "graph-model", "modelTopology": topo, "weightsManifest": [{"paths": paths, "weights": weights}],
             "signature": {"inputs": {"in_%d" % i: {"name": n} for i, n in enumerate(ins)},
                           "outputs": {"out_%d" % i: {"name": n} for i, n in enumerate(outs)}}}
    with open(os.path.join(d, "model.json"), "w") as f:
        json.dump(model, f)
    feeds = e.feeds(3)
    add(name, "tfjs", os.path.join("tfjs", name, "model.json"), feeds, e.reference(live, feeds), e.tags | {"tfjs"})


def make_graphdef(name, e):
    live = e.build()
    gd, ins, outs = zoo.freeze(live)
    p = os.path.join("graphdef", name + ".pb")
    with open(os.path.join(A, p), "wb") as f:
        f.write(gd.SerializeToString(deterministic=True))
    feeds = e.feeds(3)
    add(name, "graphdef_file", p, feeds, e.reference(live, feeds), e.tags, inputs=ins, outputs=outs)


def make_saved(name, e):
    live = e.build()
    d = os.path.join(A, "saved", name)

    class M(t.Module):
        pass
    m = M()
    m.keep = list(live["keep"])
    m.f = live["obj"]
    t.saved_model.save(m, d, signatures={"serving_default": live["obj"].get_concrete_function()}
                       if not isinstance(live["obj"].get_concrete_function().structured_outputs, (tuple, list)) and
                       isinstance(live["obj"].get_concrete_function().structured_outputs, dict) else None)
    feeds = e.feeds(3)
    add(name, "saved_model", os.path.join("saved", name), feeds, e.reference(live, feeds), e.tags)


def make_saved_table(name, keys, vals):
    class M(t.Module):
        def __init__(self):
            super().__init__()
            self.table = t.lookup.StaticHashTable(t.lookup.KeyValueTensorInitializer(
                t.constant(keys), t.constant(vals, t.int64)), -1)
            self.w = t.Variable([[1.0, 2.0, 3.0]])

        @t.function(input_signature=[t.TensorSpec([3], t.string, name="s")])
        def f(self, s):
            i = self.table.lookup(s)
            return {"ids": i, "scaled": t.cast(i, t.float32) * self.w}
    m = M()
    d = os.path.join(A, "saved", name)
    t.saved_model.save(m, d, signatures=m.f)
    x = np.array([keys[0], keys[1], "nope"], dtype=str)
    o = m.f(t.constant(x))
    add(name, "saved_model", os.path.join("saved", name), [x], [o["ids"], o["scaled"]], ["table", "string", "resource"])


def make_keras(name, e):
    live = e.build()
    p = os.path.join("keras", name + ".h5")
    live["obj"].save(os.path.join(A, p))
    feeds = e.feeds(3)
    add(name, "keras_file", p, feeds, e.reference(live, feeds), e.tags)


def make_checkpoint(name):
    v1 = t.compat.v1
    d = os.path.join(A, "checkpoint", name)
    os.makedirs(d, exist_ok=True)
    with t.Graph().as_default():
        x = v1.placeholder(t.float32, [2, 3], name="x")
        w = v1.get_variable("w", initializer=zoo.rnd(3, (3, 4)), use_resource=False)
        b = v1.get_variable("b", initializer=zoo.rnd(4, (4,)), use_resource=False)
        y = t.identity(t.nn.relu(t.matmul(x, w) + b), name="y")
        s = v1.train.Saver()
        with v1.Session() as sess:
            sess.run(v1.global_variables_initializer())
            s.save(sess, os.path.join(d, "m"))
            xv = zoo.rnd(7, (2, 3))
            yv = sess.run(y, {x: xv})
    add(name, "checkpoint", os.path.join("checkpoint", name, "m.meta"), [xv], [yv], ["vars"], inputs=["x:0"], outputs=["y:0"])


def more():
    """Adds the models that are not there yet (the others stay as they are)."""
    with open(os.path.join(A, "index.json")) as f:
        index.extend(json.load(f))
    have = {e["name"] for e in index}
    d = zoo.by_name()
    for n in ("big", "bigbody"):
        for pre, make in (("gdf_", make_graphdef), ("sm_", make_saved), ("js_", make_tfjs), ("tfl_", make_tflite)):
            if pre + n not in have and not (pre in ("tfl_", "js_") and n == "bigbody"):
                make(pre + n, d[n])
    for n in ("nested", "cond_in_loop", "gather_scatter"):
        if "js_" + n not in have:
            make_tfjs("js_" + n, d[n], reverse=n != "gather_scatter")
    with open(os.path.join(A, "index.json"), "w") as f:
        json.dump(index, f, indent=1, sort_keys=True)


def make_onnx(names):
    """Needs the tree under test (run once): ONNX models that were not optimised."""
    import collections
    import tf2onnx
    from tf2onnx import utils
    d = zoo.by_name()
    with open(os.path.join(A, "index.json")) as f:
        index.extend(x for x in json.load(f) if x["kind"] != "onnx")
    os.makedirs(os.path.join(A, "onnx"), exist_ok=True)
    for i, n in enumerate(names):
        e = d[n]
        live = e.build()
        gd, ins, outs = (live["obj"], live["ins"], live["outs"]) if "ins" in live else zoo.freeze(live)
        utils.INTERNAL_NAME = (90, 990, 9950, 20)[i % 4]
        m, _ = tf2onnx.convert._convert_common(gd, name=n, optimizers=collections.OrderedDict(), opset=15, input_names=ins, output_names=outs)
        p = os.path.join("onnx", n + ".onnx")
        with open(os.path.join(A, p), "wb") as f:
            f.write(m.SerializeToString(deterministic=True))
        feeds = e.feeds(3)
        try:
            got = zoo.run_onnx(m, feeds)
        except Exception as ex:     # some models need a pass to become valid
            print(n, "not runnable", str(ex)[:100])
            os.remove(os.path.join(A, p))
            continue
        want = e.reference(live, feeds)
        for a, b in zip(got, want):
            np.testing.assert_allclose(a, b, e.rtol, e.atol)
        add("onnx_" + n, "onnx", p, feeds, want, e.tags, rtol=e.rtol, atol=e.atol)
        print(n, len(m.graph.node))
    with open(os.path.join(A, "index.json"), "w") as f:
        json.dump(index, f, indent=1, sort_keys=True)


def main():
    if "--more" in sys.argv:
        return more()
    if "--onnx" in sys.argv:
        return make_onnx(["par_chains", "par_conv", "nested", "ops_shared", "v1_twobirnn", "par_bodies", "conv_chain", "consts", "ops_array",
                          "v1_while", "v1_conds", "v1_bilstm", "cond", "tensor_array", "transposes"])
    for s in ("tflite", "tfjs", "graphdef", "saved", "keras", "checkpoint", "ref"):
        shutil.rmtree(os.path.join(A, s), ignore_errors=True)
        os.makedirs(os.path.join(A, s))
    d = zoo.by_name()
    from sim.zoo import Fn, F, _S
    mlp1 = Fn("mlp1", lambda tt: (lambda r: (r[0], [_S(tt, [1, 6])]) + r[2:])(zoo._mlp(tt)), F(((1, 6),)), {"linear"})
    for n, e in [("mlp", mlp1), ("conv", d["conv"]), ("while", d["while"]), ("shapes", Fn(
            "shapes1", lambda tt: (zoo._shapes(tt)[0], [_S(tt, [3, 2, 4])]), F(((3, 2, 4),)), {"shape"})),
            ("nhwc_add", d["nhwc_add"])]:
        make_tflite("tfl_" + n, e)
    make_tflite("tfl_quant", Fn("q", lambda tt: (zoo._conv(tt)[0], [_S(tt, [1, 9, 9, 2])]), F(((1, 9, 9, 2),)), {"quant"}), True)
    for n in ("mlp", "conv", "while", "cond", "shapes"):
        make_tfjs("js_" + n, d[n])
    for n in ("mlp", "conv", "nested", "gemm"):
        make_graphdef("gdf_" + n, d[n])
    for n in ("mlp", "dictout", "while"):
        make_saved("sm_" + n, d[n])
    make_saved_table("sm_table_a", ["k", "l", "m"], [10, 50, 90])
    make_saved_table("sm_table_b", ["aa", "bb", "cc", "dd"], [7, 6, 5, 4])
    for n in ("k_cnn", "k_bigru"):
        make_keras("kf_" + n, d[n])
    make_checkpoint("ck_relu")
    with open(os.path.join(A, "index.json"), "w") as f:
        json.dump(index, f, indent=1, sort_keys=True)


main()
