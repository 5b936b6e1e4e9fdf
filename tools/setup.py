#!/usr/bin/env python3
"""Builds all harnesses from the current tree of /repo (later runs only rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
HEADER_ONLY = {"text", "alg_portable", "rays", "prim", "vec", "str", "grid", "order", "order_portable"}
names = sorted(f[:-4] for f in os.listdir(vlib.HARNESS) if f.endswith(".cpp"))
vlib.build([(n, n not in HEADER_ONLY) for n in names])
print("built", " ".join(names))
