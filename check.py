#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]"""
import importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, 'engine', 'vc'), os.path.join(H, 'specs')]
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import checklib
m = importlib.import_module(sys.argv[1])
sys.stdout.reconfigure(line_buffering=True)
sys.exit(checklib.decide(m.CHECK))
