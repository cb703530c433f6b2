"""What a library call may not leave changed in the process of its caller."""
import gc
import hashlib
import logging
import os
import pickle
import random
import signal
import sys
import tempfile
import threading
import types
import warnings

import numpy as np

PREFIXES = ("tensorflow.python.framework", "tensorflow.python.eager", "tensorflow.python.ops", "tensorflow.python.client",
            "tensorflow.python.training", "tensorflow.python.saved_model", "tensorflow.python.util",
            "tensorflow.python.grappler", "tensorflow.python.trackable", "tensorflow.python.platform", "tf_keras.src.engine",
            "tf_keras.src.saving", "onnx", "numpy", "google.protobuf", "json", "os", "posixpath", "sys", "io", "builtins",
            "zipfile", "logging", "tempfile", "copy", "struct", "shutil", "warnings", "threading", "uuid", "requests")
CLASSES = ("tensorflow.python.framework", "tensorflow.python.eager", "tf_keras.src.engine", "onnx", "logging", "zipfile")
_FN = (types.FunctionType, types.BuiltinFunctionType, type)


def _watched(name, prefixes):
    return any(name == p or name.startswith(p + ".") for p in prefixes)


def patched():
    """{(module, name): id} of the functions and classes of the libraries the converter works with."""
    out = {}
    for m in list(sys.modules):
        if not _watched(m, PREFIXES):
            continue
        mod = sys.modules[m]
        try:
            items = list(vars(mod).items())
        except TypeError:
            continue
        cl = _watched(m, CLASSES)
        for k, v in items:
            if isinstance(v, _FN):
                out[m, k] = id(v)
                if cl and isinstance(v, type) and v.__module__ == m:
                    for a, b in list(vars(v).items()):
                        if isinstance(b, (types.FunctionType, property, staticmethod, classmethod)):
                            out[m, k + "." + a] = id(b)
    return out


def _logger(name):
    lg = logging.getLogger(name)
    return (lg.level, lg.propagate, lg.disabled, [id(h) for h in lg.handlers], [h.level for h in lg.handlers],
            [id(f) for f in lg.filters], type(lg).__name__)


def _h(x):
    return hashlib.sha1(pickle.dumps(x)).hexdigest()[:12]


def take(tmp=None, collect=False):
    """A snapshot: {what: comparable value}"""
    from tensorflow.python.eager import context
    from tensorflow.python.framework import ops
    import tensorflow as tf
    if collect:
        gc.collect()
    ctx = context.context()
    s = {
        "functions and classes of the libraries": patched(),
        "default graph": [id(g) for g in ops._default_graph_stack.stack],
        "default session": id(tf.compat.v1.get_default_session()),
        "eager execution": ctx.executing_eagerly(),
        "default device": str(ctx.device_name),
        "name scope": ops.get_name_scope(),
        "graph optimizer options": sorted((k, str(v)) for k, v in tf.config.optimizer.get_experimental_options().items()),
        "functions run eagerly": tf.config.functions_run_eagerly(),
        "soft device placement": tf.config.get_soft_device_placement(),
        "global seed of TensorFlow": context.global_seed(),
        "random numbers of Python": _h(random.getstate()),
        "random numbers of numpy": _h(np.random.get_state()),
        "numpy error handling": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "command line arguments": list(sys.argv),
        "module search path": list(sys.path),
        "standard output": (id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        "recursion limit": sys.getrecursionlimit(),
        "warnings filters": [str(f) for f in warnings.filters],
        "umask": _umask(),
        "interrupt handler": repr(signal.getsignal(signal.SIGINT)),
        "threads": sorted(t.name for t in threading.enumerate()),
        "open files": len(os.listdir("/proc/self/fd")),
        "trace functions": (id(sys.gettrace()), id(sys.getprofile())),
        "switch interval": sys.getswitchinterval(),
        "garbage collector": gc.isenabled(),
    }
    for n in ("", "tf2onnx", "tensorflow", "absl", "tf2onnx.graph", "tf2onnx.tfonnx", "tf2onnx.tf_loader", "tf2onnx.optimizer",
              "tf2onnx.tf_utils"):
        s["logger '%s'" % n] = _logger(n)
    if tmp:
        # TensorFlow's own AutoGraph keeps its generated sources there
        s["temporary files"] = sorted(f for f in os.listdir(tmp) if not f.startswith("__autograph"))
    return s


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def diff(a, b, ignore=()):
    """List of what changed."""
    out = []
    for k in a:
        if k in ignore or a[k] == b.get(k):
            continue
        if k == "functions and classes of the libraries":
            ch = ["%s.%s" % x for x, i in a[k].items() if b[k].get(x, 0) != i]
            if ch:
                out.append("%s: %s" % (k, ", ".join(sorted(ch)[:4])))
        elif k == "threads":
            new = [t for t in b[k] if t not in a[k]]
            if new:
                out.append("%s: %s" % (k, new))
        elif k == "open files":
            if b[k] > a[k]:
                out.append("%s: %d -> %d" % (k, a[k], b[k]))
        else:
            out.append("%s: %s -> %s" % (k, str(a[k])[:200], str(b[k])[:200]))
    return out


class Tmp:
    """Temporary files go to a directory of the run."""

    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "tmp")

    def __enter__(self):
        os.makedirs(self.dir, exist_ok=True)
        self.old = tempfile.tempdir, os.environ.get("TMPDIR")
        tempfile.tempdir = self.dir
        os.environ["TMPDIR"] = self.dir
        return self.dir

    def __exit__(self, *a):
        tempfile.tempdir = self.old[0]
        if self.old[1] is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = self.old[1]
        return False
