#!/usr/bin/env python3
"""check.py <property id>: run the check of one property."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
pid = sys.argv[1]
mod = importlib.import_module("props." + pid)
sys.exit(vlib.main(pid, mod.run))
