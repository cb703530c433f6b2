"""Models that use many ops each, by family.  Loaded by sim.zoo."""
import numpy as np


def S(t, shape, dt=None, name="x"):
    return t.TensorSpec(shape, dt or t.float32, name=name)


def ops_math(t):
    def f(x, n):
        y = t.clip_by_value(x, -0.9, 0.9)
        return (t.math.erf(x), t.math.atan2(x, y + 2.0), t.math.asinh(x),
                t.math.atanh(y * 0.5), t.math.squared_difference(x, y), t.math.rsqrt(t.abs(x) + 0.5), t.math.sign(x),
                t.math.softplus(x), t.math.softsign(x), t.math.cumsum(x, 1, reverse=True),
                t.math.round(x * 3.0), t.math.floordiv(n, 2),
                t.math.divide_no_nan(x, t.nn.relu(y)), t.math.pow(t.abs(x), 2.0), t.math.square(x))
    return f, [S(t, [3, 4]), S(t, [5], t.int32, "n")]


def ops_array(t):
    def f(x, i):
        a = t.where(x > 0, x, -x * 2.0)
        return (a, t.reverse(x, [1]), t.tile(x, [1, 2]), t.one_hot(i, 5), t.gather_nd(x, [[0, 1], [2, 3]]),
                t.linalg.band_part(x, 1, 0), t.linalg.diag(x[0]), t.reverse_sequence(x, [2, 3, 1], 1, 0),
                t.tensor_scatter_nd_update(x, [[0], [2]], x[1:3] * 2.0), t.unstack(x, axis=0)[1], t.stack([x, a], 1),
                t.broadcast_to(x[:1], [3, 4]), t.where(x > 0.1), t.argmax(x, 1), t.argmin(x, 0, t.int32),
                t.pad(x, [[1, 0], [0, 2]], constant_values=0.5), t.pad(x, [[1, 1], [1, 1]], "REFLECT"), t.eye(3),
                t.size(x), t.rank(x), t.split(x, [1, 3], 1)[1],
                t.cast(t.range(t.size(i)), t.float32), t.fill([2], 7))
    return f, [S(t, [3, 4]), S(t, [4], t.int32, "i")]


def ops_nn(t):
    k = np.linspace(-1, 1, 3 * 3 * 2 * 2).reshape(3, 3, 2, 2).astype(np.float32)
    dk = np.linspace(-1, 1, 3 * 3 * 2).reshape(3, 3, 2, 1).astype(np.float32)
    one = np.ones(2, np.float32)

    def f(x):
        d = t.nn.atrous_conv2d(x, k, 2, "SAME")
        w = t.nn.depthwise_conv2d(x, dk, [1, 2, 2, 1], "SAME")
        bn = t.compat.v1.nn.fused_batch_norm(d, one, one * 0.5, one * 0.25, one * 2.0, is_training=False)[0]
        return (bn, w, t.nn.lrn(x), t.nn.depth_to_space(t.concat([x, x], 3), 2), t.nn.space_to_depth(x, 2),
                t.space_to_batch(x, [2, 2], [[0, 0], [0, 0]]), t.batch_to_space(t.tile(x, [4, 1, 1, 1]), [2, 2],
                                                                                      [[0, 0], [0, 0]]),
                t.nn.elu(x), t.nn.selu(x), t.nn.leaky_relu(x, 0.2), t.nn.relu6(x * 7.0), t.nn.log_softmax(x),
                t.nn.l2_normalize(x, 3), t.nn.top_k(x[0, 0], 2)[0], t.nn.max_pool2d(x, 3, 2, "SAME"),
                t.nn.avg_pool2d(x, 2, 2, "VALID"), t.nn.moments(x, [1, 2])[1],
                t.nn.sparse_softmax_cross_entropy_with_logits([1, 0], x[0, 0, :2]),
                t.nn.softmax_cross_entropy_with_logits(x[0, 0], t.nn.softmax(x[0, 1])))
    return f, [S(t, [1, 8, 8, 2])]


def ops_image(t):
    def f(x, b):
        return (t.image.resize(x, [6, 6], "nearest"), t.image.crop_and_resize(x, b, [0, 0], [2, 2]),
                t.image.adjust_contrast(x, 0.5), t.image.non_max_suppression(b, [0.3, 0.6], 2),
                t.image.rgb_to_grayscale(t.concat([x, x[..., :1]], 3)))
    return f, [S(t, [1, 4, 4, 2]), S(t, [2, 4], name="b")]


def ops_fft(t):
    def f(x):
        return t.abs(t.signal.rfft(x)), t.abs(t.signal.rfft2d(t.reshape(x, [1, 4, 8])))
    return f, [S(t, [4, 8])]


def ops_segment(t):
    def f(x, i):
        return (t.math.segment_sum(x, i), t.math.segment_max(x, i), t.math.unsorted_segment_sum(x, i, 3),
                t.math.segment_mean(x, i), t.scatter_nd(t.expand_dims(t.range(4), 1), x, [6, 3]),
                t.nn.embedding_lookup(x, i), t.gather(x, i, batch_dims=0), t.math.bincount(i, minlength=3, maxlength=3),
                t.sort(x, 1, "DESCENDING"), t.unique(i)[0],
                t.boolean_mask(x, i > 0), t.sequence_mask(i, 4), t.dynamic_partition(x, i % 2, 2)[0])
    return f, [S(t, [4, 3]), S(t, [4], t.int32, "i")]


def ops_types(t):
    def f(x, n, b):
        return (t.cast(x, t.float64) * 2.0, t.cast(n, t.int64) + 1, t.cast(b, t.float32) + x, t.math.logical_xor(b, x > 0),
                t.reduce_any(b), t.reduce_all(b, 0), t.bitwise.left_shift(n, 2), t.maximum(n, 2), t.math.mod(n, 4),
                t.cast(t.cast(x, t.float16), t.float32), t.math.is_nan(x / t.cast(b, t.float32)), t.identity(n), t.zeros_like(x),
                t.ones_like(n), t.not_equal(n, 3))
    return f, [S(t, [2, 3]), S(t, [2, 3], t.int32, "n"), S(t, [2, 3], t.bool, "b")]


def ops_dyn(t):
    """Shapes that are not known when the model is converted."""
    def f(x):
        s = t.shape(x)
        y = t.reshape(x, [s[0] * s[1], -1])
        z = t.transpose(x, [2, 0, 1])
        return (y, t.zeros(s[1:]), t.tile(x, [1, s[0], 1]), z, t.reduce_mean(x, [0, 2]), t.strided_slice(x, [0, 1], [2, 3]),
                x[:, ::-1, t.newaxis, 1], t.concat([z, z * 2.0], 0), t.expand_dims(x, -1), t.linalg.matvec(x, x[:, 0]),
                t.pad(x, [[0, 0], [s[0], 1], [0, 0]]), t.cast(s, t.float32), t.range(s[2]), t.squeeze(x[:1], 0))
    return f, [S(t, [None, None, 4])]


def ops_loops(t):
    """Loops and conditions that return more than one thing, stop early, and nest."""
    def f(x, n):
        ta = t.TensorArray(t.float32, size=0, dynamic_size=True, element_shape=[3])

        def body(i, a, ta):
            b, c = t.cond(t.reduce_sum(a) > 0.0, lambda: (a * 0.5, t.nn.relu(a)), lambda: (a + 1.0, t.maximum(a, 0.25)))
            return i + 1, b, ta.write(i, c[0])
        i, y, ta = t.while_loop(lambda i, a, ta: t.logical_and(i < n, t.reduce_max(a) < 50.0), body, [0, x, ta])
        k, w = t.while_loop(lambda k, w: k > 0, lambda k, w: (k - 1, t.matmul(w, t.transpose(w)) @ w * 0.1), [n, x])
        m = t.map_fn(lambda v: t.reduce_sum(v) * v, x)
        return i, y, ta.stack(), k, w, m
    return f, [S(t, [2, 3]), S(t, [], t.int32, "n")]


def ops_shared(t):
    """The same constants, names and sub-expressions again and again."""
    c = np.linspace(-1, 1, 12).reshape(3, 4).astype(np.float32)

    def f(x):
        a = [t.nn.relu(t.matmul(x, t.constant(c)) + t.constant(c[0])) for _ in range(4)]
        b = [t.transpose(t.transpose(v) * 2.0) for v in a]
        return t.add_n(b), t.concat(b, 1), t.reduce_sum(a[0]) + t.reduce_sum(a[3]), t.matmul(a[1], a[2], transpose_b=True)
    return f, [S(t, [2, 3])]


def randnoseed(t):
    def f(x):
        return t.random.uniform([2, 3]) + x, t.random.normal([2, 3]), t.nn.dropout(x, 0.5)
    return f, [S(t, [2, 3])]


def randconst(t):
    """Random numbers all of whose inputs are constants."""
    def f(x):
        a = t.cast(t.random.categorical(t.math.log([[0.5, 0.5], [0.3, 0.7]]), 3), t.float32)
        b = t.random.shuffle(t.constant([[1., 2., 3.], [4., 5., 6.]]))
        return x + a, x * b, x - t.random.truncated_normal([2, 3]), t.random.normal([3]) + t.random.uniform([3], 1, 9)
    return f, [S(t, [2, 3])]


def v1_multi(t, v1):
    """Conditions with many results, two loops side by side, one with several variables and a TensorArray."""
    x = v1.placeholder(t.float32, [2, 3], name="x")
    outs = v1.cond(t.reduce_sum(x) > 0., lambda: [x + float(i) for i in range(1, 6)], lambda: [x * float(i) for i in range(2, 7)])
    ta = t.TensorArray(t.float32, 3)

    def body(i, a, b, ta):
        return i + 1, t.nn.relu(a + b), b * 0.5 - a, ta.write(i, t.reduce_sum(a, 0))
    i, a, b, ta = v1.while_loop(lambda i, a, b, ta: i < 3, body, [t.constant(0), outs[0], outs[1], ta])
    _, c = v1.while_loop(lambda j, c: j < 2, lambda j, c: (j + 1, t.tanh(c) + x), [t.constant(0), x])
    res = [a, b, ta.stack(), c, outs[2] + outs[3], outs[4]]
    return [x], [t.identity(r, name="out%d" % k) for k, r in enumerate(res)]


def v1_names(t, v1):
    """Names with scopes, the same last part in several scopes, and names that look like generated ones."""
    x = v1.placeholder(t.float32, [2, 3], name="net/in/x")
    with v1.name_scope("net"):
        with v1.name_scope("l1"):
            a = t.nn.relu(x * 2., name="Relu__5")
        with v1.name_scope("l2"):
            b = t.nn.relu(x * 3., name="Relu__5")
    c = t.add(a, b, name="Add__12")
    d = t.transpose(t.transpose(c, name="Transpose__7"), name="const_fold_opt__20")
    return [x], [t.identity(d, name="net/out"), t.identity(c, name="const_fold_opt__21")]


def par_conv(t):
    """Several convolutions side by side, each with a batch normalization, bias, activation, pads of its own."""
    ks = [np.linspace(-1 - i, 1, 3 * 3 * 2 * 3).reshape(3, 3, 2, 3).astype(np.float32) for i in range(4)]
    ms = [np.linspace(-0.5, 0.5 + i, 3).astype(np.float32) for i in range(4)]

    def f(x):
        r = []
        for i in range(4):
            y = t.nn.conv2d(t.pad(x, [[0, 0], [i, 1], [1, i], [0, 0]]), ks[i], 1 + i % 2, "VALID")
            y, _, _ = t.compat.v1.nn.fused_batch_norm(y, t.constant(ms[i] + 2.0), t.constant(ms[i]), mean=t.constant(ms[i] * 0.5),
                                                      variance=t.constant(np.abs(ms[i]) + 1.0), is_training=False)
            y = t.nn.bias_add(t.nn.conv2d(t.nn.leaky_relu(y, 0.1 + 0.1 * i), np.ones((1, 1, 3, 2), np.float32), 1, "SAME"), [0.5, float(i)])
            r.append(t.nn.relu(y) if i % 2 else t.transpose(y, [0, 3, 1, 2]))
        return tuple(r) + (t.concat([t.reduce_mean(v, [2, 3] if i % 2 == 0 else [1, 2]) for i, v in enumerate(r)], 1),)
    return f, [S(t, [1, 7, 7, 2])]


def par_chains(t):
    """Chains of casts, reshapes, transposes, squeezes, adds side by side; several end in results, several share a start."""
    def f(x, n):
        r = []
        for i in range(4):
            y = t.transpose(t.transpose(x, [1, 0, 2]), [2, 1, 0] if i % 2 else [1, 0, 2])
            r.append(t.transpose(t.transpose(x + float(i), [2, 0, 1]), [1, 2, 0]))
            r.append(t.cast(t.cast(t.cast(y * float(i + 1), t.float64), t.float32), t.int32))
            r.append(t.reshape(t.reshape(y, [4, 6]), [-1, 2 + i % 2]))
            r.append(t.squeeze(t.expand_dims(t.squeeze(t.expand_dims(y - float(i), 0), [0]), 1), [1]))
            r.append(t.reduce_sum(t.matmul(t.reshape(y, [6, 4]), np.full((4, 2), i + 1, np.float32)) + [1.0, float(i)], 0))
            r.append(t.gather(t.shape(y), [0, 2 - i % 2]) + n)
            r.append(t.tile(t.fill([2], float(i)), [n + i]))
        return tuple(r)
    return f, [S(t, [2, 3, 4]), S(t, [], t.int32, "n")]


def par_bodies(t):
    """Loops and conditions side by side, several of them used twice, with constants and values from outside."""
    def f(x, n):
        r = []
        for i in range(3):
            c = t.constant(np.full((2, 3), i + 1, np.float32))
            _, y = t.while_loop(lambda j, a: j < n, lambda j, a, c=c: (j + 1, t.nn.relu(a * c) - x), [0, x + float(i)])
            z = t.cond(t.reduce_sum(y) > float(i), lambda y=y, c=c: (y * c, t.reduce_max(y)), lambda y=y, c=c: (x - c, t.reduce_min(y)))
            w = t.map_fn(lambda v, c=c: t.reduce_sum(v * c), x)
            e = t.einsum("ij,kj->ik", y, c)
            r += [y, z[0], z[1], w, e]
        return tuple(r)
    return f, [S(t, [2, 3]), S(t, [], t.int32, "n")]


def v1_twobirnn(t, v1):
    """Two bidirectional LSTMs with inputs of their own, and a GRU."""
    from tf_keras.src.layers.rnn import legacy_cells as lc
    xs = [v1.placeholder(t.float32, [2, 5, 3], name="x%d" % i) for i in range(3)]
    res = []
    for i, x in enumerate(xs):
        with v1.variable_scope("net%d" % i):
            a, b = (lc.LSTMCell(4, initializer=v1.random_uniform_initializer(-1., 1., seed=10 * i + k)) for k in (5, 6))
            out, _ = v1.nn.bidirectional_dynamic_rnn(a, b, x * float(i + 1), dtype=t.float32)
            res.append(t.identity(t.concat(out, 2), name="out%d" % i))
    return xs, res


def v1_conds(t, v1):
    """Conditions one after the other and in each other, with results that come from outside."""
    x = v1.placeholder(t.float32, [2, 3], name="x")
    y = v1.placeholder(t.float32, [2, 3], name="y")
    z = v1.placeholder(t.float32, [3, 2], name="z")
    p = t.reduce_sum(x) > t.reduce_sum(y)
    a = v1.cond(p, lambda: [x + y, t.matmul(x, z), x], lambda: [x * y, t.matmul(y, z) - 1.0, y])
    b = v1.cond(t.reduce_sum(a[0]) > 0., lambda: t.transpose(z) + a[0] + x, lambda: v1.cond(
        p, lambda: y * 2.0 + a[2], lambda: t.nn.relu(x) - t.transpose(z)))
    return [x, y, z], [t.identity(v, name="out%d" % i) for i, v in enumerate(list(a) + [b])]


def v1_consts(t, v1):
    """Much that depends on constants only, in several steps, on shapes, on parts of shapes; some of it is a result."""
    x = v1.placeholder(t.float32, [2, 3], name="x")
    d = v1.placeholder(t.float32, [None, 3], name="d")
    a = t.reduce_sum(t.constant([[1., 2., 3.], [4., 5., 6.]]), axis=0)
    b = t.reverse(a * 3.0, [0]) - 1.0
    s = t.shape(x)
    n = s[0] * s[1] + t.size(t.constant([1, 2, 3]))
    c = t.reshape(t.range(0, 6, 1), t.stack([2, 3]))
    e = t.cast(t.tile(c, [1, 2])[:, 1:4], t.float32)
    m = t.concat([t.fill([3], 2.0), t.zeros([1]), t.ones_like(a)], 0)[:6]
    q = t.reshape(d, t.concat([t.shape(d)[:1], [1, 3]], 0))
    w = t.where(t.greater(a, 6.0), b, t.negative(b))
    ga = t.gather(t.transpose(t.constant(np.arange(6.).reshape(2, 3).astype(np.float32))), [2, 0])
    return [x, d], [t.identity(v, name="out%d" % i) for i, v in enumerate([
        x * a + b, t.cast(n, t.float32) + x, e + x, t.reshape(m, [2, 3]) * x, q, x + w, t.matmul(x, t.reshape(m, [3, 2])),
        t.matmul(ga, x), x + t.cast(s[1], t.float32)])]


def models(Fn, V1Graph, F):
    i32 = np.int32
    return [
        Fn("ops_math", ops_math, F(((3, 4),), ((5,), 0, 9, i32)), {"multi"}),
        Fn("ops_array", ops_array, F(((3, 4),), ((4,), 0, 5, i32)), {"multi"}),
        Fn("ops_nn", ops_nn, F(((1, 8, 8, 2),)), {"conv", "transpose", "multi"}, rtol=1e-3, atol=1e-3),
        Fn("ops_image", ops_image, lambda s: [np.abs(F(((1, 4, 4, 2),))(s)[0]),
                                              np.array([[0, 0, .9, .8], [.1, .2, .5, .9]], np.float32)], {"multi"}, rtol=1e-3, atol=1e-3),
        Fn("ops_fft", ops_fft, F(((4, 8),)), {"multi"}, rtol=1e-3, atol=1e-3),
        Fn("ops_segment", ops_segment, lambda s: [F(((4, 3),))(s)[0], np.array([0, 0, 1, 2], i32)], {"multi"}),
        Fn("ops_types", ops_types, lambda s: [F(((2, 3),))(s)[0], np.arange(6, dtype=i32).reshape(2, 3),
                                              np.array([[True, False, True], [False, True, True]])], {"multi"}, rtol=1e-2, atol=1e-2),
        Fn("ops_dyn", ops_dyn, F(((2, 3, 4),)), {"shape", "multi"}),
        Fn("ops_loops", ops_loops, lambda s: [F(((2, 3),))(s)[0], np.array(4, i32)], {"loop", "cond", "body", "multi"}, rtol=1e-3, atol=1e-3),
        Fn("par_conv", par_conv, F(((1, 7, 7, 2),)), {"conv", "transpose", "multi"}, rtol=1e-3, atol=1e-3),
        Fn("par_chains", par_chains, lambda s: [F(((2, 3, 4),))(s)[0], np.array(3, i32)], {"transpose", "shape", "dup", "multi"}),
        Fn("par_bodies", par_bodies, lambda s: [F(((2, 3),))(s)[0], np.array(s % 3, i32)], {"loop", "cond", "body", "multi"}, rtol=1e-3, atol=1e-3),
        Fn("ops_shared", ops_shared, F(((2, 3),)), {"dup", "transpose", "multi"}),
    ], [
        Fn("randnoseed", randnoseed, F(((2, 3),)), {"random", "multi"}),
        Fn("randconst", randconst, F(((2, 3),)), {"random", "multi"}),
    ], [
        V1Graph("v1_multi", v1_multi, F(((2, 3),)), {"loop", "cond", "body", "rewriter"}),
        V1Graph("v1_twobirnn", v1_twobirnn, F(((2, 5, 3),), ((2, 5, 3),), ((2, 5, 3),)), {"rnn", "rewriter"}),
        V1Graph("v1_consts", v1_consts, F(((2, 3),), ((4, 3),)), {"shape", "multi"}),
        V1Graph("v1_conds", v1_conds, F(((2, 3),), ((2, 3),), ((3, 2),)), {"cond", "body", "rewriter"}),
        V1Graph("v1_names", v1_names, F(((2, 3),)), {"names", "rewriter"}),
    ]
