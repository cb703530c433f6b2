#!/usr/bin/env python3
"""checks/run.py ID [--replay FILE] : run one check (see MANIFEST.json)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from checks.specs import SPECS  # noqa: E402
from sim import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(SPECS[sys.argv[1]], sys.argv[2:]))
