#!/usr/bin/env python3-vt
"""setup: builds the AST exporter and parses /repo once (the checks do it themselves when this has not run)"""
import os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine/vc')
import frontend
so = frontend.plugin()
try:
    frontend.Program(sorted(glob.glob(frontend.REPO + '/src/ldaplusplus/*.cpp') + glob.glob(frontend.REPO + '/src/ldaplusplus/*/*.cpp')))
except Exception as e:
    print('parse:', e)
print('ready', so)
