#!/usr/bin/env python3
"""Setup: nothing to build (Python only); checks that the interpreter, TensorFlow and the committed assets are usable."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from sim import env  # noqa: E402

if not os.path.exists(os.path.join(env.ASSETS, "index.json")):
    sys.exit("assets missing; run tools/make_assets.py")
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
r = subprocess.run([env.PYTHON, "-c", "import tensorflow, onnx, onnxruntime, sys; assert hasattr(sys, 'monitoring')"],
                   env=env.child_env(), capture_output=True, text=True)
if r.returncode:
    sys.exit("environment not usable: " + r.stderr[-2000:])
print("ok")
