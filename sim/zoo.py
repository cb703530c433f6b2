"""The workloads: user-level models of every source kind tf2onnx accepts.

An entry knows how to build a *fresh* live object (so that a run can check that object afterwards),
how to convert it through the public API, and what TensorFlow itself computes for given feeds.
Feeds are positional: the i-th ONNX graph input gets the i-th array.
"""
import json
import os

import numpy as np

from . import env

_tf = None


def tf():
    global _tf
    if _tf is None:
        import tensorflow
        _tf = tensorflow
        tensorflow.get_logger().setLevel("CRITICAL")
        try:
            tensorflow.config.threading.set_intra_op_parallelism_threads(1)
            tensorflow.config.threading.set_inter_op_parallelism_threads(1)
        except RuntimeError:
            pass
    return _tf


def rnd(seed, shape, lo=-1.0, hi=1.0, dtype=np.float32):
    rs = np.random.RandomState(seed)
    return (rs.uniform(lo, hi, size=shape)).astype(dtype)


class Fn:
    """A tf.function entry. build() -> (callable, input_signature, keepalive)"""
    kind = "function"

    def __init__(self, name, build, feed, tags=(), kw=None, rtol=1e-4, atol=1e-4, min_opset=None):
        self.name, self._build, self._feed, self.tags = name, build, feed, frozenset(tags)
        self.kw = dict(kw or {})
        self.rtol, self.atol = rtol, atol
        self.min_opset = min_opset

    def build(self):
        t = tf()
        r = self._build(t)
        fn, sig = r[0], r[1]
        keep = r[2:] if len(r) > 2 else ()
        f = t.function(fn, input_signature=sig)
        return {"obj": f, "sig": sig, "keep": keep}

    def convert(self, live, **kw):
        import tf2onnx
        k = dict(self.kw)
        k.update(kw)
        return tf2onnx.convert.from_function(live["obj"], input_signature=live["sig"], **k)

    def feeds(self, seed):
        return self._feed(seed)

    def reference(self, live, feeds):
        t = tf()
        out = live["obj"](*[t.constant(x) for x in feeds])
        return [np.asarray(o) for o in t.nest.flatten(out)]


class Keras:
    kind = "keras"

    def __init__(self, name, build, feed, tags=(), kw=None, rtol=1e-4, atol=1e-4):
        self.name, self._build, self._feed, self.tags = name, build, feed, frozenset(tags)
        self.kw = dict(kw or {})
        self.rtol, self.atol = rtol, atol
        self.min_opset = None

    def build(self):
        t = tf()
        m = self._build(t)
        m.set_weights([np.abs(rnd(50 + i, w.shape, -0.7, 0.7)) if "variance" in v.name or "gamma" in v.name
                       else rnd(50 + i, w.shape, -0.7, 0.7).astype(w.dtype)
                       for i, (w, v) in enumerate(zip(m.get_weights(), m.weights))])
        return {"obj": m}

    def convert(self, live, **kw):
        import tf2onnx
        k = dict(self.kw)
        k.update(kw)
        return tf2onnx.convert.from_keras(live["obj"], **k)

    def feeds(self, seed):
        return self._feed(seed)

    def reference(self, live, feeds):
        t = tf()
        x = feeds[0] if len(feeds) == 1 else list(feeds)
        out = live["obj"](x, training=False)
        return [np.asarray(o) for o in t.nest.flatten(out)]


class GraphDef:
    """A frozen GraphDef converted with from_graph_def."""
    kind = "graphdef"

    def __init__(self, fn_entry):
        self.src = fn_entry
        self.name = "gd_" + fn_entry.name
        self.tags = fn_entry.tags | {"graphdef"}
        self.kw = fn_entry.kw
        self.rtol, self.atol = fn_entry.rtol, fn_entry.atol
        self.min_opset = fn_entry.min_opset

    def build(self):
        live = self.src.build()
        gd, ins, outs = freeze(live)
        return {"obj": gd, "ins": ins, "outs": outs, "live": live}

    def convert(self, live, **kw):
        import tf2onnx
        k = dict(self.kw)
        k.update(kw)
        return tf2onnx.convert.from_graph_def(live["obj"], input_names=live["ins"], output_names=live["outs"], **k)

    def feeds(self, seed):
        return self.src.feeds(seed)

    def reference(self, live, feeds):
        return self.src.reference(live["live"], feeds)


class DecoratedGraphDef(GraphDef):
    """A GraphDef with what an optimized or trained graph has besides the model: devices, control inputs, nodes that are not
    needed, attributes for other tools."""

    def __init__(self, fn_entry):
        super().__init__(fn_entry)
        self.name = "gdd_" + fn_entry.name

    def build(self):
        live = super().build()
        gd = tf().compat.v1.GraphDef()
        gd.CopyFrom(live["obj"])
        nodes = list(gd.node)
        for i, n in enumerate(nodes):
            n.device = ("/device:CPU:0", "", "/job:localhost/replica:0/task:0/device:CPU:0")[i % 3]
            if i % 4 == 1:
                n.attr["_verif"].s = b"tool"
            n.experimental_debug_info.original_node_names.append("was_" + n.name)
        no = gd.node.add()
        no.name, no.op = "verif_noop", "NoOp"
        for n in nodes:
            if n.op in ("Relu", "BiasAdd", "MatMul", "Mul", "AddV2"):
                n.input.append("^verif_noop")
        d = gd.node.add()
        d.name, d.op = "verif_unused", "Const"
        d.attr["dtype"].type = 1
        d.attr["value"].tensor.CopyFrom(tf().make_tensor_proto(np.ones(3, np.float32)))
        gd.versions.min_consumer = 1
        live["obj"] = gd
        return live


class V1Graph:
    """A TensorFlow 1 style GraphDef (Switch/Merge control flow, dynamic_rnn), converted with from_graph_def."""
    kind = "graphdef"

    def __init__(self, name, build, feed, tags=(), kw=None, rtol=1e-4, atol=1e-4):
        self.name, self._build, self._feed, self.tags = name, build, feed, frozenset(tags) | {"graphdef", "v1"}
        self.kw = dict(kw or {})
        self.rtol, self.atol = rtol, atol
        self.min_opset = None
        self._cache = None

    def build(self):
        t = tf()
        v1 = t.compat.v1
        if self._cache is None:
            from tensorflow.python.ops import control_flow_util
            old = control_flow_util.ENABLE_CONTROL_FLOW_V2
            control_flow_util.ENABLE_CONTROL_FLOW_V2 = False
            try:
                with t.Graph().as_default() as g:
                    v1.set_random_seed(3)
                    ins, outs = self._build(t, v1)
                    with v1.Session(graph=g) as s:
                        s.run(v1.global_variables_initializer())
                        gd = v1.graph_util.convert_variables_to_constants(s, g.as_graph_def(add_shapes=False),
                                                                          [o.op.name for o in outs])
                    self._cache = (gd.SerializeToString(deterministic=True), [i.name for i in ins], [o.name for o in outs])
            finally:
                control_flow_util.ENABLE_CONTROL_FLOW_V2 = old
        b, ins, outs = self._cache
        gd = v1.GraphDef()
        gd.ParseFromString(b)
        return {"obj": gd, "ins": ins, "outs": outs}

    convert = GraphDef.convert

    def feeds(self, seed):
        return self._feed(seed)

    def reference(self, live, feeds):
        t = tf()
        with t.Graph().as_default() as g:
            t.import_graph_def(live["obj"], name="")
            with t.compat.v1.Session(graph=g) as s:
                return s.run(live["outs"], dict(zip(live["ins"], feeds)))


class RawGraph:
    """A graph as it is, without what the loaders do to it first, through tfonnx.process_tf_graph and optimizer.optimize_graph."""
    kind = "raw"

    def __init__(self, entry):
        self.src = entry
        self.name = "raw_" + entry.name
        self.tags = entry.tags | {"raw"}
        self.kw = dict(entry.kw)
        self.rtol, self.atol = entry.rtol, entry.atol
        self.min_opset = entry.min_opset

    def build(self):
        return self.src.build()

    def convert(self, live, **kw):
        from tf2onnx import optimizer, tfonnx, utils
        t = tf()
        k = dict(self.kw)
        k.update(kw)
        path = k.pop("output_path", None)
        with t.Graph().as_default() as g:
            t.import_graph_def(live["obj"], name="")
            before = g.as_graph_def().SerializeToString(deterministic=True)
            try:
                onnx_graph = tfonnx.process_tf_graph(g, input_names=live["ins"], output_names=live["outs"], **k)
            finally:
                if g.as_graph_def().SerializeToString(deterministic=True) != before:
                    live["changed graph"] = "changed"
            m = optimizer.optimize_graph(onnx_graph).make_model("raw")
            if path:
                utils.save_protobuf(path, m)
            return m, None

    def feeds(self, seed):
        return self.src.feeds(seed)

    def reference(self, live, feeds):
        return self.src.reference(live, feeds)


def _v1_while(t, v1):
    x = v1.placeholder(t.float32, [2, 3], name="x")
    c = t.constant(rnd(81, (3, 3)) * 0.5)
    i, r = v1.while_loop(lambda i, a: i < 4, lambda i, a: (i + 1, t.nn.relu(t.matmul(a, c)) + 0.5 * a),
                         [t.constant(0), x])
    return [x], [t.identity(r, name="out"), t.identity(i, name="n")]


def _v1_cond(t, v1):
    x = v1.placeholder(t.float32, [2, 3], name="x")
    y = v1.placeholder(t.float32, [2, 3], name="y")
    r = v1.cond(t.reduce_sum(x) > t.reduce_sum(y), lambda: t.nn.relu(x) + t.transpose(t.transpose(y)),
                lambda: t.maximum(x * y, 0.25))
    return [x, y], [t.identity(r, name="out")]


def _v1_nested(t, v1):
    x = v1.placeholder(t.float32, [2, 2], name="x")

    def body(i, a):
        b = v1.cond(t.reduce_sum(a) > 0., lambda: t.nn.leaky_relu(a, 0.3), lambda: t.nn.relu(a * 2.) - 0.25)
        return i + 1, t.matmul(b, b) * 0.5 + a
    i, r = v1.while_loop(lambda i, a: i < 3, body, [t.constant(0), x])
    return [x], [t.identity(r, name="out")]


def _v1_rnn(cell):
    def f(t, v1):
        from tf_keras.src.layers.rnn import legacy_cells as lc
        x = v1.placeholder(t.float32, [2, 5, 3], name="x")
        init = t.constant_initializer(0.3)
        if cell == "lstm":
            c = lc.LSTMCell(4, initializer=v1.random_uniform_initializer(-1., 1., seed=5))
        elif cell == "gru":
            c = lc.GRUCell(4, kernel_initializer=v1.random_uniform_initializer(-1., 1., seed=5))
        else:
            c = lc.BasicRNNCell(4)
        if cell == "bilstm":
            pass
        out, st = v1.nn.dynamic_rnn(c, x, dtype=t.float32, sequence_length=[4, 3])
        del init
        return [x], [t.identity(out, name="out"), t.identity(st[0] if cell == "lstm" else st, name="state")]
    return f


def _v1_bilstm(t, v1):
    from tf_keras.src.layers.rnn import legacy_cells as lc
    x = v1.placeholder(t.float32, [2, 5, 3], name="x")
    a, b = (lc.LSTMCell(4, initializer=v1.random_uniform_initializer(-1., 1., seed=k)) for k in (5, 6))
    out, st = v1.nn.bidirectional_dynamic_rnn(a, b, x, dtype=t.float32)
    return [x], [t.identity(t.concat(out, 2), name="out")]


def cli(args):
    """Run the command line entry point in this process.  Raises what it raises; SystemExit is passed on."""
    import sys
    import logging
    from tf2onnx import convert
    argv = sys.argv
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    sys.argv = ["tf2onnx.convert"] + [str(a) for a in args]
    try:
        convert.main()
    finally:
        sys.argv = argv
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
        root.setLevel(level)
        from tf2onnx import utils
        utils.set_debug_mode(False)


class OnnxFile:
    """An ONNX model that somebody converted before (without optimising it), through GraphUtil.optimize_model_proto."""
    kind = "onnx"

    def __init__(self, name, path, feed, ref, tags, rtol, atol):
        self.name, self.path, self._feed, self._ref = name, path, feed, ref
        self.tags = frozenset(tags) | {"onnx"}
        self.rtol, self.atol = rtol, atol
        self.min_opset = None
        self.kw = {}

    def build(self):
        from onnx import ModelProto
        m = ModelProto()
        with open(self.path, "rb") as f:
            m.ParseFromString(f.read())
        return {"obj": m}

    def convert(self, live, output_path=None, **kw):
        from tf2onnx import utils
        from tf2onnx.graph import GraphUtil
        m = GraphUtil.optimize_model_proto(live["obj"], **kw)
        if output_path:
            utils.save_protobuf(output_path, m)
        return m, None

    def feeds(self, seed):
        return self._feed(seed)

    def reference(self, live, feeds):
        return self._ref(feeds)


class FileModel:
    """A model file from the committed assets: tflite through the API, everything else through the command line."""
    FLAG = {"tflite": "--tflite", "tfjs": "--tfjs", "graphdef_file": "--graphdef", "saved_model": "--saved-model",
            "keras_file": "--keras", "checkpoint": "--checkpoint"}

    def __init__(self, name, kind, path, feed, ref, tags=(), kw=None, rtol=1e-4, atol=1e-4, inputs=None, outputs=None):
        self.name, self.kind, self.path, self._feed, self._ref = name, kind, path, feed, ref
        self.tags = frozenset(tags) | {kind, "file"}
        self.kw = dict(kw or {})
        self.rtol, self.atol = rtol, atol
        self.min_opset = None
        self.inputs, self.outputs = inputs, outputs

    def build(self):
        return {"obj": self.path}

    def argv(self, path, output, **kw):
        a = [self.FLAG[self.kind], path]
        if self.inputs:
            a += ["--inputs", ",".join(self.inputs), "--outputs", ",".join(self.outputs)]
        for k, v in sorted(dict(self.kw, **kw).items()):
            if k == "opset" and v is not None:
                a += ["--opset", v]
            elif k in ("dequantize", "large_model") and v:
                a += ["--dequantize" if k == "dequantize" else "--large_model"]
            elif k == "target" and v:
                a += ["--target", ",".join(v)]
            elif v is not None and k not in ("opset", "dequantize", "large_model", "target"):
                raise ValueError("option %s not available for %s" % (k, self.kind))
        if output:
            a += ["--output", output]
        return a

    def convert(self, live, **kw):
        import tf2onnx
        if self.kind == "tflite" and not self.kw.get("dequantize"):
            k = dict(self.kw)
            k.update(kw)
            return tf2onnx.convert.from_tflite(live["obj"], **k)
        import shutil
        import tempfile
        import onnx
        d = None
        out = kw.pop("output_path", None)
        if out is None:
            d = tempfile.mkdtemp(prefix="verif-cli-")
            out = os.path.join(d, "m.onnx")
        try:
            cli(self.argv(live["obj"], out, **kw))
            return onnx.load(out), None
        finally:
            if d:
                shutil.rmtree(d, ignore_errors=True)

    def feeds(self, seed):
        return self._feed(seed)

    def reference(self, live, feeds):
        return self._ref(feeds)


def freeze(live):
    """Frozen GraphDef of a live Fn with TensorFlow's own tools only."""
    t = tf()
    from tensorflow.python.framework.convert_to_constants import convert_variables_to_constants_v2
    cf = live["obj"].get_concrete_function()
    frozen = convert_variables_to_constants_v2(cf, lower_control_flow=False)
    gd = frozen.graph.as_graph_def()
    ins = [x.name for x in frozen.inputs if x.dtype != t.resource]
    outs = [x.name for x in frozen.outputs]
    return gd, ins, outs


# ----------------------------------------------------------------------------------------------------
# function models

def _S(t, shape, dtype=None):
    return t.TensorSpec(shape, dtype or t.float32)


def _mlp(t):
    w1 = t.Variable(rnd(1, (6, 8)))
    b1 = t.Variable(rnd(2, (8,)))
    w2 = t.Variable(rnd(3, (8, 4)))

    def f(x):
        h = t.nn.relu(t.matmul(x, w1) + b1)
        return t.nn.softmax(t.matmul(h, w2)), t.reduce_mean(h, axis=-1)
    return f, [_S(t, [None, 6])], w1, b1, w2


def _conv(t):
    k = rnd(4, (3, 3, 2, 4))
    b = rnd(5, (4,))

    def f(x):
        y = t.nn.conv2d(x, k, 2, "SAME")
        y = t.nn.bias_add(y, b)
        y = t.nn.relu6(y)
        y = t.nn.max_pool2d(y, 2, 1, "VALID")
        return t.nn.avg_pool2d(y, 2, 2, "SAME")
    return f, [_S(t, [1, 9, 9, 2])]


def _conv_chain(t):
    k1 = rnd(6, (3, 3, 3, 4))
    k2 = rnd(7, (1, 1, 4, 4))
    dw = rnd(8, (3, 3, 4, 1))

    def f(x):
        x = t.pad(x, [[0, 0], [1, 1], [2, 0], [0, 0]])
        a = t.nn.conv2d(x, k1, 1, "VALID")
        b = t.nn.leaky_relu(a, alpha=0.1)
        c = t.nn.depthwise_conv2d(b, dw, [1, 1, 1, 1], "SAME")
        d = t.nn.conv2d(c, k2, 1, "SAME")
        e = t.concat([d, b], axis=-1)
        m, v = t.constant(rnd(9, (8,))), t.constant(np.abs(rnd(10, (8,))) + 0.5)
        n, _, _ = t.compat.v1.nn.fused_batch_norm(e, t.ones([8]), t.zeros([8]), mean=m, variance=v, is_training=False)
        return t.nn.relu(n), t.reduce_max(n, axis=[1, 2])
    return f, [_S(t, [1, 6, 6, 3])]


def _conv_transpose(t):
    k = rnd(11, (3, 3, 4, 2))

    def f(x):
        y = t.nn.conv2d_transpose(x, k, [1, 10, 10, 4], 2, "SAME")
        return t.image.resize(y, [7, 7], method="nearest"), t.nn.depth_to_space(y, 2)
    return f, [_S(t, [1, 5, 5, 2])]


def _while(t):
    w = rnd(12, (3, 3))

    def f(x):
        def cond(i, acc):
            return t.logical_and(i < 5, t.reduce_sum(acc) < 100.0)

        def body(i, acc):
            return i + 1, t.nn.tanh(t.matmul(acc, w)) + x
        i, r = t.while_loop(cond, body, [t.constant(0), x])
        return r, i
    return f, [_S(t, [3, 3])]


def _nested(t):
    def f(x, n):
        def outer(i, a):
            def inner(j, b):
                b = t.cond(t.equal(t.math.floormod(j, 2), 0), lambda: b * 0.5, lambda: b + t.cast(i, t.float32))
                return j + 1, b
            _, b = t.while_loop(lambda j, b: j < 3, inner, [0, a])
            return i + 1, b - 0.25
        _, r = t.while_loop(lambda i, a: i < n, outer, [0, x])
        return r
    return f, [_S(t, [2, 2]), _S(t, [], t.int32)]


def _cond(t):
    def f(x, y):
        def big():
            return t.concat([x * 2.0, y], axis=0), t.reduce_sum(x)

        def small():
            return t.concat([y, x + 1.0], axis=0), t.reduce_prod(y)
        return t.cond(t.reduce_mean(x) > t.reduce_mean(y), big, small)
    return f, [_S(t, [2, 3]), _S(t, [2, 3])]


def _tensor_array(t):
    def f(x):
        ta = t.TensorArray(t.float32, size=4, element_shape=[3])

        def body(i, ta):
            return i + 1, ta.write(i, x[i] * t.cast(i + 1, t.float32))
        _, ta = t.while_loop(lambda i, ta: i < 4, body, [0, ta])
        return ta.stack()
    return f, [_S(t, [4, 3])]


def _einsum(t):
    w = rnd(13, (4, 2, 3))

    def f(x):
        y = t.einsum("bsd,dhk->bshk", x, w)
        z = t.einsum("bshk,bthk->bhst", y, y)
        return t.nn.softmax(z)
    return f, [_S(t, [2, 3, 4])]


def _shapes(t):
    def f(x):
        s = t.shape(x)
        y = t.reshape(x, [s[0], -1])
        z = t.tile(t.expand_dims(y, 1), [1, 2, 1])
        a, b = t.split(z, 2, axis=2)
        q = t.squeeze(a[:, 0:1, ::2], axis=1)
        g = t.gather(y, [0, 2, 1], axis=1)
        st = t.stack([a, b], axis=0)
        return q, t.transpose(st, [1, 0, 3, 2]), g, t.strided_slice(y, [0, 1], [1, 5], [1, 2])
    return f, [_S(t, [None, 2, 4])]


def _transposes(t):
    def f(x):
        a = t.transpose(x, [0, 3, 1, 2])
        b = t.nn.relu(a)
        c = t.transpose(b, [0, 2, 3, 1])
        d = t.transpose(c, [0, 3, 1, 2]) + 1.0
        e = t.transpose(d, [0, 2, 3, 1])
        m = t.reduce_mean(e, axis=[1, 2], keepdims=True)
        return e * m, t.transpose(t.reduce_sum(e, axis=3), [0, 2, 1])
    return f, [_S(t, [2, 3, 4, 5])]


def _consts(t):
    c1 = rnd(14, (4, 3))

    def f(x):
        a = t.transpose(t.constant(c1)) + 1.0
        b = t.reshape(t.concat([a, a], axis=0), [6, 4])
        c = t.cast(t.range(0, 6), t.float32)
        y = t.matmul(x, b, transpose_b=True) * c
        y2 = t.identity(t.matmul(x, b, transpose_b=True) * c)
        return y + y2, t.squeeze(t.expand_dims(y, 0), 0) - y2
    return f, [_S(t, [2, 4])]


def _reduce(t):
    def f(x):
        v, i = t.math.top_k(x, 3)
        return (v, i, t.argmax(x, axis=1), t.cumsum(x, axis=1), t.where(x > 0, x, -x * 0.1),
                t.math.reduce_logsumexp(x, axis=1), t.one_hot(t.cast(i, t.int32), 6))
    return f, [_S(t, [2, 6])]


def _dup(t):
    """Many equal sub-expressions and constants: feeds merge_duplication / back_to_back / identity."""
    def f(x):
        outs = []
        for k in range(3):
            a = t.nn.sigmoid(t.reshape(x, [4, 3]) + 2.0)
            b = t.cast(t.cast(a, t.int32), t.float32)
            outs.append(t.reshape(t.reshape(a + b, [12]), [3, 4]) * float(k // 2 + 1))
        return t.add_n(outs), t.identity(t.identity(outs[0]))
    return f, [_S(t, [3, 4])]


def _gemm(t):
    w = rnd(15, (3, 5))
    b = rnd(16, (5,))

    def f(x, y):
        g = t.matmul(x, w) + b
        n = t.reduce_mean(g, axis=-1, keepdims=True)
        v = t.reduce_mean(t.math.squared_difference(g, n), axis=-1, keepdims=True)
        ln = (g - n) * t.math.rsqrt(v + 1e-5)
        return t.matmul(ln, y, transpose_b=True), t.clip_by_value(g, -0.5, 0.5)
    return f, [_S(t, [4, 3]), _S(t, [2, 5])]


def _ints(t):
    def f(x, y):
        return (t.math.floormod(x, y), x // y, t.bitwise.bitwise_and(x, y) if False else t.maximum(x, y),
                t.cast(t.equal(x, y), t.int32), t.logical_or(x > y, x < 0), t.math.minimum(x, 3))
    return f, [_S(t, [5], t.int32), _S(t, [5], t.int32)]


def _strings(t):
    def f(x):
        return t.strings.as_string(t.cast(x, t.int32)), x + 1.0
    return f, [_S(t, [3])]


def _fakequant(t):
    def f(x):
        y = t.quantization.fake_quant_with_min_max_args(x, -2, 2)
        return t.quantization.fake_quant_with_min_max_vars(y * 1.5, -3.0, 3.0)
    return f, [_S(t, [4, 4])]


def _gather_scatter(t):
    def f(x, i):
        u = t.tensor_scatter_nd_update(x, t.expand_dims(i, 1), t.gather(x, i) + 1.0)
        return u, t.gather_nd(x, t.expand_dims(i, 1)), t.reverse(u, [0]), t.roll(u, 1, 0)
    return f, [_S(t, [5, 2]), _S(t, [2], t.int32)]


def _resize(t):
    def f(x):
        return (t.image.resize(x, [8, 8]), t.compat.v1.image.resize_nearest_neighbor(x, [6, 9]),
                t.nn.space_to_depth(x, 2))
    return f, [_S(t, [1, 4, 4, 2])]


def _batchmm(t):
    def f(q, k):
        a = t.matmul(q, k, transpose_b=True) / 2.0
        m = t.linalg.band_part(t.ones([4, 4]), -1, 0)
        a = a - 1e4 * (1.0 - m)
        return t.matmul(t.nn.softmax(a), k)
    return f, [_S(t, [2, 4, 3]), _S(t, [2, 4, 3])]


def _custom(t):
    """Contains an op without a converter (a custom op from tf2onnx's point of view)."""
    def f(x):
        return t.raw_ops.Betainc(a=t.abs(x) + 1.0, b=t.abs(x) + 2.0, x=t.nn.sigmoid(x)) * 2.0
    return f, [_S(t, [3])]


def _cond_in_loop_const(t):
    k = rnd(17, (2, 2))

    def f(x):
        def body(i, a):
            a = t.cond(i > 1, lambda: t.matmul(a, t.transpose(k)) + t.transpose(t.transpose(a)), lambda: a + k)
            return i + 1, a
        return t.while_loop(lambda i, a: i < 4, body, [0, x])[1]
    return f, [_S(t, [2, 2])]


def _nhwc_add(t):
    k = rnd(18, (3, 3, 3, 3))

    def f(x, y):
        a = t.nn.conv2d(x, k, 1, "SAME")
        b = t.nn.conv2d(y, k, 1, "SAME")
        c = t.nn.relu(a + b)
        d = t.nn.conv2d(c, k, [1, 2, 2, 1], "SAME")
        return d, t.reduce_mean(c, axis=[1, 2]), t.reshape(d, [1, -1])
    return f, [_S(t, [1, 4, 4, 3]), _S(t, [1, 4, 4, 3])]


def _padconv(t):
    k = rnd(19, (3, 3, 2, 3))

    def f(x):
        y = t.nn.conv2d(t.pad(x, [[0, 0], [1, 2], [2, 1], [0, 0]]), k, [1, 2, 2, 1], "VALID")
        return t.nn.max_pool2d(y, 2, 1, "SAME"), t.nn.avg_pool2d(t.nn.elu(y), 2, 1, "VALID")
    return f, [_S(t, [1, 6, 6, 2])]


def _pool3d(t):
    k = rnd(20, (2, 2, 2, 2, 3))

    def f(x):
        y = t.nn.conv3d(x, k, [1, 1, 1, 1, 1], "SAME")
        return t.nn.max_pool3d(y, 2, 2, "VALID"), t.nn.avg_pool3d(y, 2, 2, "VALID")
    return f, [_S(t, [1, 4, 4, 4, 2])]


def _random(t):
    """Same value only in shape and range: used where models are compared, not their results."""
    def f(x):
        return t.random.uniform([2, 3], 1.0, 2.0, seed=7) + x, t.fill([2, 2], t.reduce_sum(x))
    return f, [_S(t, [2, 3])]


def _randdyn(t):
    def f(x):
        s = t.shape(x)
        return t.random.uniform([s[0] * 2, 3], 1.0, 2.0, seed=7), t.reduce_sum(x)
    return f, [_S(t, [None, 3])]


def _big(t):
    """Constants and variables above the size from which large_model stores tensors outside of the model."""
    w1 = t.Variable(rnd(31, (34, 40)))
    w2 = rnd(32, (40, 36))
    ids = np.arange(36 * 36, dtype=np.int32).reshape(36, 36) % 7

    def f(x):
        h = t.nn.relu(t.matmul(x, w1))
        y = t.matmul(h, t.constant(w2)) * 0.1
        return y, t.cast(y > 0, t.int32) + t.reduce_sum(t.constant(ids), axis=0)
    return f, [_S(t, [2, 34])], w1


def _bigbody(t):
    """Large constants inside and outside of function bodies, under the names TensorFlow gives them by default."""
    a, b, c = rnd(33, (36, 36), -0.1, 0.1), rnd(34, (36, 36), -0.1, 0.1), rnd(35, (36, 36), -0.1, 0.1)

    def f(x):
        k = t.constant(a)
        y = t.matmul(x, k)

        def body(i, z):
            return i + 1, t.matmul(z, t.constant(b)) + z
        y = t.while_loop(lambda i, z: i < 3, body, [0, y])[1]
        return t.cond(t.reduce_sum(x) > 0, lambda: t.matmul(y, t.constant(c)) + x, lambda: y - t.constant(b)[:2])
    return f, [_S(t, [2, 36])]


def _msops(t):
    """Ops with different converters for onnx and for com.microsoft."""
    def f(x, n):
        r = t.cast(t.range(0, n, 1), t.float32)
        return t.linalg.inv(x + 3.0 * t.eye(3)), t.reduce_sum(r) + x
    return f, [_S(t, [3, 3]), _S(t, [], t.int32)]


def _strops(t):
    """String ops: most have converters for ai.onnx.contrib only."""
    def f(x):
        y = t.strings.regex_replace(x, "a", "b")
        return t.strings.join([y, x], "-"), t.cast(t.equal(x, y), t.int32), t.strings.length(x)
    return f, [_S(t, [3], t.string)]


def _dictout(t):
    def f(x, y):
        return {"zeta": x + y, "alpha": x * y, "mid": t.reduce_sum(x)}
    return f, [t.TensorSpec([2, 2], t.float32, name="left"), t.TensorSpec([2, 2], t.float32, name="right")]


def F(*specs):
    """feed maker: specs are (shape, lo, hi, dtype)"""
    def feed(seed):
        return [rnd(seed * 101 + i, s[0], *(s[1:] if len(s) > 1 else ())) for i, s in enumerate(specs)]
    return feed


FUNCTIONS = [
    Fn("mlp", _mlp, F(((3, 6),)), {"vars", "small", "linear"}),
    Fn("conv", _conv, F(((1, 9, 9, 2),)), {"conv", "transpose"}),
    Fn("conv_chain", _conv_chain, F(((1, 6, 6, 3),)), {"conv", "transpose", "multi"}, rtol=1e-3, atol=1e-3),
    Fn("conv_transpose", _conv_transpose, F(((1, 5, 5, 2),)), {"conv", "transpose"}, kw={"opset": 15}),
    Fn("while", _while, F(((3, 3),)), {"loop", "body"}),
    Fn("nested", _nested, F(((2, 2),), ((), 1, 4, np.int32)), {"loop", "cond", "body"}),
    Fn("cond", _cond, F(((2, 3),), ((2, 3),)), {"cond", "body"}),
    Fn("tensor_array", _tensor_array, F(((4, 3),)), {"loop", "body"}),
    Fn("einsum", _einsum, F(((2, 3, 4),)), {"einsum"}),
    Fn("shapes", _shapes, F(((3, 2, 4),)), {"shape", "multi"}),
    Fn("transposes", _transposes, F(((2, 3, 4, 5),)), {"transpose", "multi"}),
    Fn("consts", _consts, F(((2, 4),)), {"const", "small"}),
    Fn("reduce", _reduce, F(((2, 6),)), {"multi"}),
    Fn("dup", _dup, F(((3, 4),)), {"dup", "small"}),
    Fn("gemm", _gemm, F(((4, 3),), ((2, 5),)), {"rewriter"}),
    Fn("ints", _ints, F(((5,), 0, 9, np.int32), ((5,), 1, 5, np.int32)), {"small", "multi"}),
    Fn("fakequant", _fakequant, F(((4, 4),)), {"quant"}, atol=2e-2),
    Fn("gather_scatter", _gather_scatter, lambda s: [rnd(s, (5, 2)), np.array([1, 3], np.int32)], {"multi"}),
    Fn("resize", _resize, F(((1, 4, 4, 2),)), {"transpose", "multi"}),
    Fn("batchmm", _batchmm, F(((2, 4, 3),), ((2, 4, 3),)), {"linear"}),
    Fn("cond_in_loop", _cond_in_loop_const, F(((2, 2),)), {"loop", "cond", "body"}),
    Fn("nhwc_add", _nhwc_add, F(((1, 4, 4, 3),), ((1, 4, 4, 3),)), {"conv", "transpose", "multi"}, rtol=1e-3, atol=1e-3),
    Fn("padconv", _padconv, F(((1, 6, 6, 2),)), {"conv", "transpose", "multi"}, rtol=1e-3, atol=1e-3),
    Fn("pool3d", _pool3d, F(((1, 4, 4, 4, 2),)), {"conv", "transpose", "multi"}, rtol=1e-3, atol=1e-3),
    Fn("random", _random, F(((2, 3),)), {"random", "multi"}),
    Fn("randdyn", _randdyn, F(((2, 3),)), {"random", "multi"}),
    Fn("big", _big, F(((2, 34),)), {"vars", "linear", "large"}),
    Fn("bigbody", _bigbody, F(((2, 36),)), {"loop", "cond", "body", "large"}),
    Fn("dictout", _dictout, F(((2, 2),), ((2, 2),)), {"small", "multi", "names"}),
]

V1 = [
    V1Graph("v1_while", _v1_while, F(((2, 3),)), {"loop", "body", "rewriter"}),
    V1Graph("v1_cond", _v1_cond, F(((2, 3),), ((2, 3),)), {"cond", "body", "rewriter"}),
    V1Graph("v1_nested", _v1_nested, F(((2, 2),)), {"loop", "cond", "body", "rewriter"}),
    V1Graph("v1_lstm", _v1_rnn("lstm"), F(((2, 5, 3),)), {"rnn", "rewriter"}),
    V1Graph("v1_gru", _v1_rnn("gru"), F(((2, 5, 3),)), {"rnn", "rewriter"}),
    V1Graph("v1_bilstm", _v1_bilstm, F(((2, 5, 3),)), {"rnn", "rewriter"}),
]

from . import zoo_ops  # noqa: E402
_a, RANDOM, _c = zoo_ops.models(Fn, V1Graph, F)
FUNCTIONS += _a
V1 += _c

CUSTOM = Fn("custom", _custom, F(((3,),)), {"custom"})
# models whose results are compared as models only
MSOPS = Fn("msops", _msops, F(((3, 3),), ((), 1, 5, np.int32)), {"custom"})
STROPS = Fn("strops", _strops, lambda seed: [np.array([b"abc%d" % seed, b"aa", b"b"])], {"custom"})


# ----------------------------------------------------------------------------------------------------
# keras models

def _k_cnn(t):
    K = t.keras
    m = K.Sequential([
        K.layers.Conv2D(4, 3, padding="same", input_shape=(8, 8, 3), name="c1"),
        K.layers.BatchNormalization(name="bn"), K.layers.ReLU(), K.layers.MaxPooling2D(),
        K.layers.Flatten(), K.layers.Dense(3, activation="softmax", name="probs")], name="cnn")
    return m


def _k_func(t):
    K = t.keras
    a = K.Input((4,), name="a")
    b = K.Input((4,), name="b")
    h = K.layers.Dense(5, activation="relu", name="h")(a)
    c = K.layers.Concatenate(name="cat")([h, b])
    o1 = K.layers.Dense(2, name="o1")(c)
    o2 = K.layers.Dense(1, activation="sigmoid", name="o2")(c)
    return K.Model([a, b], [o2, o1], name="func")


def _k_big(t):
    K = t.keras
    return K.Sequential([K.layers.Dense(40, activation="relu", input_shape=(34,), name="b1"),
                         K.layers.Dense(36, name="b2"), K.layers.Dense(2, name="b3")], name="big_m")


def _k_lstm(t):
    K = t.keras
    return K.Sequential([K.layers.LSTM(4, input_shape=(5, 3), return_sequences=True, name="lstm"),
                         K.layers.Dense(2, name="d")], name="lstm_m")


def _k_bigru(t):
    K = t.keras
    return K.Sequential([K.layers.Bidirectional(K.layers.GRU(3), input_shape=(4, 3), name="bi"),
                         K.layers.Dense(2, name="d")], name="bigru_m")


def _k_dupnames(t):
    """A model whose outputs do not have different names (some versions of Keras make such models)."""
    K = t.keras
    a = K.Input((3,), name="a")
    d = K.layers.Dense(3, name="d")
    e = K.layers.Dense(2, name="d_1")
    o1 = d(a)
    o2 = d(o1)
    m = K.Model([a], [o1, o2, e(o2)], name="dups")
    m.output_names = ["d", "d", "d_1"]
    return m


class _TableLayerMaker:
    cls = None

    @classmethod
    def get(cls, t):
        if cls.cls is None:
            class TableLayer(t.keras.layers.Layer):
                def __init__(self, **kw):
                    super().__init__(**kw)
                    init = t.lookup.KeyValueTensorInitializer(t.constant(["k", "l", "m"]),
                                                              t.constant([10, 50, 90], t.int64))
                    self.table = t.lookup.StaticHashTable(init, -1)

                def call(self, x):
                    return self.table.lookup(x)
            cls.cls = TableLayer
        return cls.cls


def _k_table(t):
    K = t.keras
    a = K.Input((3,), name="a", dtype=t.string)
    y = _TableLayerMaker.get(t)(name="tab")(a)
    return K.Model([a], [y], name="tab")


def _k_strtable(t):
    K = t.keras
    a = K.Input((1,), name="a", dtype=t.string)
    y = K.layers.StringLookup(vocabulary=["x", "yy", "z"], num_oov_indices=1, name="look")(a)
    e = K.layers.Embedding(4, 3, name="emb")(y)
    return K.Model([a], [e], name="strtab")


KERAS = [
    Keras("k_table", _k_table, lambda s: [np.array([["k", "m", "q"]], object)], {"table", "resource", "string"}),
    Keras("k_strtable", _k_strtable, lambda s: [np.array([["x"], ["z"], ["nope"]], object)], {"table", "resource", "string"}),
    Keras("k_func", _k_func, F(((2, 4),), ((2, 4),)), {"multi", "small"}),
    Keras("k_cnn", _k_cnn, F(((2, 8, 8, 3),)), {"conv"}, rtol=1e-3, atol=1e-3),
    Keras("k_big", _k_big, F(((2, 34),)), {"linear", "large"}, rtol=1e-3, atol=1e-3),
    Keras("k_lstm", _k_lstm, F(((2, 5, 3),)), {"rnn"}, rtol=1e-3, atol=1e-3),
    Keras("k_bigru", _k_bigru, F(((2, 4, 3),)), {"rnn"}, rtol=1e-3, atol=1e-3),
    Keras("k_dupnames", _k_dupnames, F(((2, 3),)), {"dupnames", "multi", "small"}),
]


def by_name():
    d = {m.name: m for m in FUNCTIONS + KERAS + [CUSTOM, MSOPS, STROPS] + RANDOM + V1}
    for m in V1:
        g = RawGraph(m)
        d[g.name] = g
    for m in FUNCTIONS:
        g = GraphDef(m)
        d[g.name] = g
        g = RawGraph(g)
        d[g.name] = g
        g = DecoratedGraphDef(m)
        d[g.name] = g
    for m in file_models():
        d[m.name] = m
    return d


# ----------------------------------------------------------------------------------------------------
# file models (assets generated by tools/make_assets.py and committed)

def file_models():
    p = os.path.join(env.ASSETS, "index.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        idx = json.load(f)
    res = []
    for e in idx:
        data = np.load(os.path.join(env.ASSETS, e["ref"]))

        def feed(seed, data=data, n=e["n_in"]):
            return [data["in%d" % i].astype(object) if data["in%d" % i].dtype.kind == "U" else data["in%d" % i] for i in range(n)]

        def ref(feeds, data=data, n=e["n_out"]):
            return [data["out%d" % i] for i in range(n)]
        if e["kind"] == "onnx":
            res.append(OnnxFile(e["name"], os.path.join(env.ASSETS, e["path"]), feed, ref, e.get("tags", ()), e["rtol"], e["atol"]))
            continue
        res.append(FileModel(e["name"], e["kind"], os.path.join(env.ASSETS, e["path"]), feed, ref, e.get("tags", ()),
                             e.get("kw"), e.get("rtol", 1e-4), e.get("atol", 1e-4), e.get("inputs"), e.get("outputs")))
    return res


def run_onnx(proto_or_bytes, feeds, custom_ok=False):
    import onnxruntime as ort
    so = ort.SessionOptions()
    so.log_severity_level = 4
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    b = proto_or_bytes if isinstance(proto_or_bytes, (bytes, str)) else proto_or_bytes.SerializeToString()
    s = ort.InferenceSession(b, so, providers=["CPUExecutionProvider"])
    names = [i.name for i in s.get_inputs()]
    if len(names) != len(feeds):
        raise AssertionError("model has %d inputs, expected %d" % (len(names), len(feeds)))
    return s.run(None, dict(zip(names, feeds)))


def same_values(got, want, rtol, atol):
    if len(got) != len(want):
        return "number of outputs %d != %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g), np.asarray(w)
        if g.shape != w.shape:
            return "output %d: shape %s != %s" % (i, g.shape, w.shape)
        if w.dtype.kind in "OSU":
            if [str(x) for x in g.ravel()] != [x.decode() if isinstance(x, bytes) else str(x) for x in w.ravel()]:
                return "output %d: strings differ" % i
            continue
        if g.dtype != w.dtype:
            return "output %d: dtype %s != %s" % (i, g.dtype, w.dtype)
        if w.dtype.kind in "biu":
            if not np.array_equal(g, w):
                return "output %d: values differ" % i
        elif not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            return "output %d: values differ by up to %g" % (i, float(np.max(np.abs(g - w))))
    return None
