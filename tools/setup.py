#!/usr/bin/env python3
"""Build everything once (checks rebuild what is missing or out of date)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    vlib.build(list(vlib.CONFIGS))
except vlib.Broken as e:
    print(e)
    sys.exit(1)
