#!/usr/bin/env python3
"""Regenerates the table of confirmed sites of a rule (run by hand after review)."""
import sys, os, importlib, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/rules']
sys.setrecursionlimit(20000)


class C:
    pass


c = C()
c.scratch = tempfile.mkdtemp()
c.prop = sys.argv[1].upper()
c.tier = 'quick'
c.counts = {}
try:
    importlib.import_module(sys.argv[1]).freeze(c)
finally:
    shutil.rmtree(c.scratch)
