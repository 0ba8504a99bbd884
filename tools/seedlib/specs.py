"""Planted bugs: id -> (property, [(file, old, new)], needs, what it breaks, demo.py)"""
SPECS = {}
def S(i, prop, needs, breaks, edits, demo): SPECS[i] = (prop, edits, needs, breaks, "from z import *\n" + demo.lstrip("\n"))
import glob, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs_*.py"))): exec(compile(open(f).read(), f, "exec"))
