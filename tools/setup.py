#!/usr/bin/env python3
"""Pre-builds every (harness, configuration) the registered checks use."""
import os, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
import vbuild
from props import PROPS
vbuild.build(sorted({(r["bin"], r["cfg"]) for p in PROPS.values() for r in p["runs"] if not r.get("thorough_only")}))
