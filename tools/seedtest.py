#!/usr/bin/env python3
"""seedtest.py [-c] ID...: builds, demonstrates and tests planted bugs in private copies of /repo; -c also runs the property's check."""
import sys, os, subprocess, shutil, json, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
INNER = r'''
mount --bind %(w)s/repo /repo && mount -t tmpfs tmpfs /tmp && mkdir -p /tmp/demo && cp -a %(s)s/. /tmp/demo/ && rm -f /tmp/demo/*.diff && cd /repo || exit 90
ip link set lo up 2>/dev/null
bash /opt/vp/build.sh > /tmp/b.txt 2>&1 || { tail -5 /tmp/b.txt; echo BUILD0-FAILED; exit 91; }
timeout 300 bash /tmp/demo/demo.sh > /tmp/d0.txt 2>&1; echo "demo clean: $?"; tail -2 /tmp/d0.txt | cut -c1-200
git apply %(s)s/patch.diff || { echo APPLY-FAILED; exit 92; }
bash /opt/vp/build.sh > /tmp/b.txt 2>&1 || { tail -5 /tmp/b.txt; echo BUILD-FAILED; exit 93; }
timeout 300 bash /tmp/demo/demo.sh > /tmp/d1.txt 2>&1; echo "demo patched: $?"; tail -2 /tmp/d1.txt | cut -c1-200
%(tests)s
%(check)s
'''
TESTS = r'''bash /opt/vp/test.sh /tmp/o.json > /tmp/t.txt 2>&1; python3 - <<'P'
import json
b = json.load(open("/opt/vp/BASELINE.json")); want = b if isinstance(b, list) else b.get("passed", b.get("tests", b.get("stable")))
o = json.load(open("/tmp/o.json")); miss = [t for t in want if t not in set(o["passed"])]
print("tests: %d of %d pass%s" % (len(want) - len(miss), len(want), " MISSING " + str(miss[:3]) if miss else ""))
P'''
def one(i, check, tests):
    w = "/var/tmp/seed.%s" % i; shutil.rmtree(w, ignore_errors=True); os.makedirs(w); m = json.load(open("%s/%s/meta.json" % (S, i)))
    try:
        subprocess.run(["cp", "-a", os.environ.get("ZMC_REPO", "/repo"), w + "/repo"], check=True)
        c = "cd %s && env -u ZMC_REPO python3 tools/setup.py >/dev/null 2>&1; timeout 900 env -u ZMC_REPO ./check %s quick 2>&1 | grep -v '^KNOWN' | tail -3 | cut -c1-300; echo \"check: ${PIPESTATUS[0]}\"" % (V, m["property"]) if check else ""
        r = subprocess.run(["unshare", "-Urmn", "bash", "-c", INNER % dict(w=w, s="%s/%s" % (S, i), tests=TESTS if tests else "", check=c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return "== %s [%s]\n%s" % (i, m["property"], r.stdout)
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; check = "-c" in a; tests = "-t" not in a; ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(S))
    with cf.ThreadPoolExecutor(1 if check else 6) as p:
        for r in p.map(lambda i: one(i, check, tests), ids): print(r, flush=True)
