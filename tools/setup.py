#!/usr/bin/env python3
"""Builds the engine and the standard library's bitcode (checks do it too when it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
vp.engine()
vp.std_bitcode()
print("ok")
