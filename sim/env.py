"""Process environment for every simulated run: one place that pins what TensorFlow would otherwise vary.

REPO is the tree under test.  It is /repo unless VERIF_REPO names another tree (only used by the
developer when trying planted changes in a scratch worktree; registered commands never set it).
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
ASSETS = os.path.join(VERIF, "assets")


def child_env(extra=None, hashseed="0"):
    env = {
        "PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(hashseed),
        "TF_USE_LEGACY_KERAS": "1", "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "",
        "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1", "OMP_NUM_THREADS": "1",
        "TF_ENABLE_ONEDNN_OPTS": "0", "PYTHONPATH": REPO + os.pathsep + VERIF,
        "VERIF_REPO": REPO, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"), "TMPDIR": os.environ.get("TMPDIR", "/tmp"),
        "PYTHONWARNINGS": "ignore",
    }
    for k in ("VERIF_JOBS", "VERIF_BUDGET"):
        if k in os.environ:
            env[k] = os.environ[k]
    if extra:
        env.update(extra)
    return env


def setup():
    """Called first thing in a worker process, before TensorFlow is imported."""
    sys.path[:0] = [p for p in (REPO, VERIF) if p not in sys.path[:2]]
    for k, v in child_env().items():
        os.environ.setdefault(k, v)
    os.environ.pop("TF2ONNX_CATCH_ERRORS", None)
    import logging
    logging.getLogger("tensorflow").setLevel(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")
