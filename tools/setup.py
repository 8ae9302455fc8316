#!/usr/bin/env python3
"""Builds the extractor, the harness and the macro expansion ahead of the checks (they do it themselves when missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove, check
os.makedirs(prove.BUILD, exist_ok=True)
prove.build_vx()
prove.expand()
e = check.build_harness()
if e: print(e)
