#!/usr/bin/env python3
"""setup: nothing to build; verify that the analyser imports and the sources parse"""
import os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
r = subprocess.call(['/opt/veriftools/pyvenv/bin/python', '-B', '-c',
                     'import sys; sys.path.insert(0, %r); from pest import scene; from checks import table; '
                     'print("analyser ready:", len(table.CHECKS), "checks")' % H])
sys.exit(r)
