#!/usr/bin/env python3
"""Replays a counterexample natively against the current tree: replay.py FILE.json"""
import json
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

d = json.load(open(sys.argv[1]))
fns = sorted({h["fn"] for h in vlib.harnesses(d["property"])})
ll, so = vlib.build_harness(d["config"], d["property"], fns)
with tempfile.NamedTemporaryFile("w", suffix=".tape") as f:
    f.write(d["tape"])
    f.flush()
    print("expected: %s: %s" % (d["kind"], d["message"]))
    sys.stdout.flush()
    sys.exit(subprocess.run([vlib.runner(), so, d["harness"], f.name]).returncode)
