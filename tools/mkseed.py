#!/usr/bin/env python3
"""mkseed.py [ID...]: writes seeded/<id>/ from tools/seedlib/specs*.py (edits applied to a copy of /repo's HEAD)."""
import sys, os, subprocess, shutil, json, tempfile, re
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); sys.path.insert(0, T + "/seedlib"); sys.path.insert(0, T)
import specs
BASE = "361340b"; REPO = os.environ.get("ZMC_REPO", "/repo")
def git(d, *a): return subprocess.run(["git", "-C", d, *a], check=True, stdout=subprocess.PIPE, text=True).stdout
mine = set(x[:12] for x in git(REPO, "rev-list", BASE + "..HEAD").split())
ids = sys.argv[1:] or list(specs.SPECS)
for i in ids:
    prop, edits, needs, breaks, demo = specs.SPECS[i]; d = "%s/seeded/%s" % (V, i); w = tempfile.mkdtemp(prefix="mkseed.", dir="/var/tmp")
    try:
        subprocess.run(["git", "clone", "-q", REPO, w + "/r"], check=True)
        for f, old, new in edits:
            p = "%s/r/%s" % (w, f); s = open(p).read()
            if s.count(old) != 1: sys.exit("%s: %d occurrences of %r in %s" % (i, s.count(old), old[:60], f))
            open(p, "w").write(s.replace(old, new))
        diff = git(w + "/r", "diff")
        # every removed line has to be a line of the original repository
        f = None; n = 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m: n = int(m.group(1)); continue
            if l.startswith("-") and not l.startswith("---"):
                h = git(REPO, "blame", "-s", "-L", "%d,%d" % (n, n), "--abbrev=11", "HEAD", "--", f).split()[0].lstrip("^")
                if h[:12] in mine: sys.exit("%s: line %d of %s is from my commit %s: %s" % (i, n, f, h, l))
            if not l.startswith("+"): n += 1
        if "\n-" not in diff.replace("\n---", ""): print("NOTE %s: the patch only adds lines" % i)
        os.makedirs(d, exist_ok=True); open(d + "/patch.diff", "w").write(diff); shutil.copy(T + "/seedlib/z.py", d + "/z.py")
        open(d + "/demo.py", "w").write(demo.lstrip("\n")); open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1); open(d + "/meta.json", "a").write("\n")
    finally: shutil.rmtree(w)
