"""Canonical, name-free form of an ONNX model.

Two models have the same form iff they are the same computation DAG: same graph inputs and outputs
(name, type, shape, order), same operators with the same attributes, same constant bytes, wired the same
way.  The names of inner tensors and nodes, the order of nodes and initializers and the order of attributes
do not count.  The form is a hash; `describe` gives a readable version for reports.
"""
import hashlib

from onnx import AttributeProto, TensorProto, numpy_helper


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        b = p if isinstance(p, bytes) else repr(p).encode()
        m.update(len(b).to_bytes(8, "little"))
        m.update(b)
    return m.hexdigest()[:24]


def tensor_key(t, storage=None):
    if t.data_location == TensorProto.EXTERNAL:
        loc = [e.value for e in t.external_data if e.key == "location"]
        data = None
        if storage is not None and loc:
            data = storage.get(loc[0])
        return ("ext", t.data_type, tuple(t.dims), _h(data) if data is not None else "absent")
    if t.data_type == TensorProto.STRING:
        return ("t", t.data_type, tuple(t.dims), _h(*list(t.string_data)))
    a = numpy_helper.to_array(t)
    return ("t", t.data_type, tuple(t.dims), _h(a.tobytes()))


def _type(vi):
    t = vi.type
    if t.HasField("tensor_type"):
        if not t.tensor_type.HasField("shape"):
            return (t.tensor_type.elem_type, None)
        dims = []
        for d in t.tensor_type.shape.dim:
            dims.append(d.dim_value if d.HasField("dim_value") else "?")
        return (t.tensor_type.elem_type, tuple(dims))
    return ("other", t.SerializeToString(deterministic=True))


def graph_form(g, outer=None, storage=None, top=True):
    env = outer if outer is not None else {}
    local = {}
    inputs = []
    inits = {t.name: t for t in g.initializer}
    pos = 0
    defaulted = []
    for vi in g.input:
        if vi.name in inits and top:
            # up to ir_version 3 every initializer is listed as an input too, under a made-up name
            defaulted.append(("default", _h("const", tensor_key(inits[vi.name], storage))))
            continue
        local[vi.name] = _h("input", vi.name, _type(vi)) if top else _h("binput", pos)
        inputs.append((vi.name if top else pos, _type(vi)))
        pos += 1
    inputs.extend(sorted(defaulted))
    for t in g.initializer:
        k = _h("const", tensor_key(t, storage))
        local.setdefault(t.name, k)
    nodes = {}
    for n in g.node:
        for o in n.output:
            if o:
                nodes[o] = n
    done = {}
    node_hash = {}

    def value(name):
        if name == "":
            return "none"
        if name in local:
            return local[name]
        if name in nodes:
            n = nodes[name]
            nh = node(n)
            return _h("out", nh, list(n.output).index(name))
        if name in env:
            return env[name]
        return _h("undefined", name)

    def attr(a, scope):
        if a.type == AttributeProto.GRAPH:
            return (a.name, graph_form(a.g, scope(), storage, top=False)["hash"])
        if a.type == AttributeProto.GRAPHS:
            return (a.name, tuple(graph_form(x, scope(), storage, top=False)["hash"] for x in a.graphs))
        if a.type == AttributeProto.TENSOR:
            return (a.name, tensor_key(a.t, storage))
        if a.type in (AttributeProto.FLOAT,):
            return (a.name, "f", a.f)
        c = AttributeProto()
        c.CopyFrom(a)
        c.doc_string = ""
        return (a.name, c.SerializeToString(deterministic=True))

    import sys
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))

    def node(n):
        key = id(n)
        if key in node_hash:
            return node_hash[key]
        if key in done:
            return "cycle"
        done[key] = True
        ins = tuple(value(i) for i in n.input)
        if n.op_type in ("LabelEncoder", "CategoryMapper"):
            # a mapping: the order of its entries does not count
            ks = [a for a in n.attribute if a.name.startswith("keys") or a.name == "cats_strings"]
            vs = [a for a in n.attribute if a.name.startswith("values") or a.name == "cats_int64s"]
            if len(ks) == 1 and len(vs) == 1:
                def seq(a):
                    return list(a.strings) or list(a.ints) or list(a.floats)
                rest = sorted((a.name, a.SerializeToString(deterministic=True)) for a in n.attribute
                              if a not in (ks[0], vs[0]))
                kk, vv = seq(ks[0]), seq(vs[0])
                pairs = sorted(zip(kk, vv), key=repr)
                node_hash[key] = _h("node", n.domain, n.op_type, ins, ks[0].name, vs[0].name, len(kk), len(vv), pairs,
                                    rest)
                return node_hash[key]
        attrs = tuple(sorted((attr(a, lambda: _ScopeView(value, local, nodes, env)) for a in n.attribute),
                             key=lambda x: x[0]))
        node_hash[key] = _h("node", n.domain, n.op_type, ins, attrs, len(n.output), tuple(bool(o) for o in n.output))
        return node_hash[key]

    outs = [((vi.name if top else i), _type(vi), value(vi.name)) for i, vi in enumerate(g.output)]
    bag = sorted(node(n) for n in g.node)
    ops = sorted((n.domain, n.op_type) for n in g.node)
    h = _h("graph", inputs, outs, bag)
    return {"hash": h, "inputs": inputs, "outputs": outs, "ops": ops, "bag": bag}


class _ScopeView(dict):
    """What a body graph sees of the graphs around it."""

    def __init__(self, value, local, nodes, env):
        super().__init__()
        self._v, self._l, self._n, self._e = value, local, nodes, env

    def __contains__(self, k):
        return k in self._l or k in self._n or k in self._e

    def __getitem__(self, k):
        return self._v(k)

    def __bool__(self):
        return True

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 1


def _model_key(p):
    return (p.ir_version, sorted((o.domain, o.version) for o in p.opset_import), p.producer_name, p.domain,
            sorted((m.key, m.value) for m in p.metadata_props), len(p.functions))


def model_form(p, storage=None):
    if storage is not None and hasattr(storage, "name_to_tensor_data"):
        storage = storage.name_to_tensor_data
    f = graph_form(p.graph, None, storage)
    f["model"] = _model_key(p)
    f["stored"] = sorted(_h(bytes(v) if not isinstance(v, str) else v) for v in storage.values()) if storage else []
    f["hash"] = _h(f["hash"], f["model"], f["stored"])
    return f


def form_hash(p, storage=None):
    return model_form(p, storage)["hash"]


def diff(fa, fb):
    """Readable first difference between two forms."""
    from collections import Counter
    for k in ("model", "inputs", "ops"):
        if fa[k] != fb[k]:
            if k == "ops":
                a, b = Counter(fa[k]), Counter(fb[k])
                return "ops differ: only first %s only second %s" % (dict(a - b), dict(b - a))
            return "%s differ: %s vs %s" % (k, fa[k], fb[k])
    if fa.get("stored") != fb.get("stored"):
        return "external tensors differ: %d vs %d" % (len(fa["stored"]), len(fb["stored"]))
    for x, y in zip(fa["outputs"], fb["outputs"]):
        if x != y:
            return "output %s differs: %s vs %s" % (x[0], x[:2] + (x[2][:8],), y[:2] + (y[2][:8],))
    if fa["bag"] != fb["bag"]:
        return "nodes differ (wiring, attributes or constants)"
    return "identical" if fa["hash"] == fb["hash"] else "hash differs"


def ordered_form(p, storage=None):
    """Stricter than model_form: node order, initializer order and value_info count too; only the spelling of
    inner names is abstracted (names are replaced by the position of their first appearance)."""
    if storage is not None and hasattr(storage, "name_to_tensor_data"):
        storage = storage.name_to_tensor_data
    out = []
    names = {}

    def nm(x):
        if x == "":
            return ""
        if x not in names:
            names[x] = len(names)
        return names[x]

    def walk(g, top):
        out.append(("in", [(v.name if top else nm(v.name), nm(v.name), _type(v)) for v in g.input]))
        for n in g.node:
            out.append(("node", n.domain, n.op_type, [nm(i) for i in n.input], [nm(o) for o in n.output]))
            for a in sorted(n.attribute, key=lambda a: a.name):
                if a.type == AttributeProto.GRAPH:
                    out.append(("g", a.name))
                    walk(a.g, False)
                elif a.type == AttributeProto.TENSOR:
                    out.append((a.name, tensor_key(a.t, storage)))
                else:
                    out.append((a.name, a.SerializeToString(deterministic=True)))
        for t in g.initializer:
            out.append(("init", nm(t.name), tensor_key(t, storage)))
        out.append(("out", [(v.name if top else nm(v.name), nm(v.name), _type(v)) for v in g.output]))
        out.append(("vi", sorted((nm(v.name), repr(_type(v))) for v in g.value_info)))
    walk(p.graph, True)
    return out


def ordered_hash(p, storage=None):
    return _h(ordered_form(p, storage))


def exact_text(p):
    """The whole model as a list of lines (nodes, names and order included); the number that TensorFlow puts at the end of
    the name of a function depends on how many it has made, and is left out."""
    import re
    return re.sub(r"(__inference_[A-Za-z0-9_<>.]*?_)\d+\b", r"\1#", str(p)).split("\n")


def exact_hash(p):
    import hashlib
    return hashlib.sha1("\n".join(exact_text(p)).encode()).hexdigest()[:16]
