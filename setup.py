#!/usr/bin/env python3
"""Builds the MIR exporter and exports the reference model (the checks do the same when it is missing)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
import build
build.build_driver()
for plain in (False, True):
    build.dump_model(plain)
    build.dump(plain=plain)
print("ready")
