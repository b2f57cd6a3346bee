#!/usr/bin/env python3
"""Builds the symbolic engine and, from /repo's current tree, the encoding and the native replay build (every check does so itself, too)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp
vp.engine()
for m in vp.HARNESS:
    try:
        vp.bitcode(m)
        vp.native("nat", m)
    except vp.BuildError as e:
        print(m, e)
