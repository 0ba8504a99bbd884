#!/usr/bin/env python3
"""setup: nothing to install; verifies that the checker and the daemon build."""
import sys, os, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
t = tempfile.mkdtemp(prefix="zmc.")
try: build.build_all(t)
finally: shutil.rmtree(t, ignore_errors=True)
print("ok")
