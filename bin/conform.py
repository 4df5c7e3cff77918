#!/usr/bin/env python3
"""Compares the model kernel (shims/vkern) with the kernel of this machine.

usage: conform.py [DEPTH [RANDOM]]   all sequences up to DEPTH (3), RANDOM long ones (100000)
"""
import os
import subprocess
import sys
import vlib

D = os.path.join(vlib.BUILD, "conform")
os.makedirs(D, exist_ok=True)
F = ["--edition", "2021", "-A", "warnings", "-C", "opt-level=2"]
S = vlib.SHIMS
for name, src, ext, kind in [("vx", S + "/vx/lib.rs", [], "rlib"), ("vkern", S + "/vkern/lib.rs", ["vx"], "rlib"),
                             ("conform", vlib.VERIF + "/native/conform/main.rs", ["vkern"], "bin")]:
    cmd = [vlib.rust("rustc")] + F + ["-L", D, "--out-dir", D, "--crate-type", kind, "--crate-name", name, src]
    for e in ext:
        cmd += ["--extern", "%s=%s/lib%s.rlib" % (e, D, e)]
    vlib.run(cmd, "compiling " + name)
sys.exit(subprocess.run([os.path.join(D, "conform")] + sys.argv[1:]).returncode)
