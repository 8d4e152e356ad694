#!/usr/bin/env python3
"""Builds everything once, so that the checks find warm caches; fails if something is missing."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vlib
c = vlib.Check("setup", "quick")
try:
    c.vh()
    c.vh(race=True)
    c.texted()
finally:
    c.cleanup()
print("ready")
