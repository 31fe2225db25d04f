#!/usr/bin/env python3
"""Builds the engine, the standard library's IR and the replayer."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
for f in (vbuild.engine, vbuild.std_bc, vbuild.native):
    print(f.__name__, f())
