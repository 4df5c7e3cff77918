#!/usr/bin/env python3
"""Builds what does not depend on /repo: the engine and the native replayer."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

try:
    print(vlib.engine())
    print(vlib.runner())
except vlib.Broken as e:
    print(e)
    sys.exit(2)
