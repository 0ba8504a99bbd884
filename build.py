"""Builds the checker and, from /repo's working tree, the daemon and tools as shared objects."""
import os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZMC_REPO", "/repo")
ENV = dict(os.environ, LC_ALL="C", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

class BuildError(Exception): pass

def run(cmd, may_fail=False):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    if p.returncode and not may_fail:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    if p.returncode: print("warning: %s does not compile, what needs it is not explored:\n%s" % (cmd[-3], p.stdout[-600:]), file=sys.stderr)
    return p.returncode == 0

def pmap(jobs):
    with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 8)) as ex:
        return list(ex.map(lambda j: run(*j) if isinstance(j, tuple) else run(j), jobs))

def build_zmc(out, plain=True, asan=False):
    """checker sources -> out/zmc and out/zmc-asan (same objects, only the daemon is instrumented)"""
    src = sorted(glob.glob(VERIF + "/zmc/*.cpp"))
    od = out + "/o"; os.makedirs(od, exist_ok=True)
    objs = []; cj = []
    for s in src:
        o = od + "/" + os.path.basename(s)[:-4] + ".o"; objs.append(o)
        opt = "-O2" if os.path.basename(s) in ("os.cpp", "core.cpp") else "-O0"
        cj.append((["g++", "-std=c++17", opt, "-g1", "-w", "-fno-strict-aliasing", "-I" + VERIF + "/zmc", "-c", s, "-o", o],))
    link = lambda san, o: ["g++"] + san + ["-o", out + "/" + o] + objs + ["-ldl", "-Wl,--dynamic-list=" + VERIF + "/zmc/export.list"]
    return cj, ([link([], "zmc")] if plain else []) + ([link(["-fsanitize=address"], "zmc-asan")] if asan else [])

LIBFLAGS = ["-fPIC", "-g", "-O1", "-w", "-msse4.2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", '-DZDB_REVISION="zmc"', '-DZDBD_REVISION="zmc"']
TOOLS = {"index-rebuild": "index-rebuild", "integrity-check": "integrity-check", "namespace-editor": "namespace-editor",
         "namespace-dump": "namespace-dump", "index-dump": "index-dump", "quick-compaction": "quick-compact", "db-sync": "db-sync", "db-replicate": "db-replicate"}

def build_sut(out, asan=False, tools=()):
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
    d = out + ("/sa" if asan else "/s"); so = out + ("/so-asan" if asan else "/so")
    for sub in ("lib", "zdbd") + tuple(tools): os.makedirs(d + "/" + sub, exist_ok=True)
    os.makedirs(so, exist_ok=True)
    lib = []; dmn = []; jobs = []
    for s in sorted(glob.glob(REPO + "/libzdb/*.c")):
        o = d + "/lib/" + os.path.basename(s) + ".o"; lib.append(o)
        jobs.append((["gcc", "-std=gnu11"] + LIBFLAGS + san + ["-I" + REPO + "/libzdb", "-c", s, "-o", o],))
    for s in sorted(glob.glob(REPO + "/zdbd/*.c")):
        o = d + "/zdbd/" + os.path.basename(s) + ".o"; dmn.append(o)
        jobs.append((["gcc", "-std=gnu99"] + LIBFLAGS + san + ["-I" + REPO + "/libzdb", "-I" + REPO + "/zdbd", "-c", s, "-o", o],))
    tobj = {t: [] for t in tools}
    for t in tools:
        for s in sorted(glob.glob(REPO + "/tools/%s/*.c" % t) + glob.glob(REPO + "/utilities/%s/*.c" % t)):
            o = d + "/" + t + "/" + os.path.basename(s) + ".o"; tobj[t].append(o)
            jobs.append((["gcc", "-std=gnu99"] + LIBFLAGS + san + ["-I" + REPO + "/libzdb", "-c", s, "-o", o],))
    shim = d + "/shim.o"
    jobs.append((["gcc", "-std=gnu11"] + LIBFLAGS + ["-I" + REPO + "/libzdb", "-c", VERIF + "/zmc/shim.c", "-o", shim], True))
    mem = d + "/mem.o"; wrap = [] if asan else [mem] + ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup", "asprintf", "vasprintf")]
    if not asan: jobs.append((["gcc", "-std=gnu11"] + LIBFLAGS + ["-c", VERIF + "/zmc/mem.c", "-o", mem],))
    lshim = d + "/libshim.o"
    jobs.append((["gcc", "-std=gnu11"] + LIBFLAGS + san + ["-I" + REPO + "/libzdb", "-c", VERIF + "/zmc/libshim.c", "-o", lshim], True))
    def link():
        extra = [shim] if os.path.exists(shim) else []
        j = [(["gcc", "-shared"] + san + ["-o", so + "/z.so"] + lib + dmn + extra + wrap,)]
        j += [(["gcc", "-shared"] + san + ["-o", so + "/lib.so"] + lib + extra + ([lshim] if os.path.exists(lshim) else []) + wrap,)]
        for t in tools: j.append((["gcc", "-shared"] + san + ["-o", so + "/" + t + ".so"] + tobj[t] + lib + extra + wrap,))
        pmap(j)
        shutil.copy(so + "/z.so", so + "/z2.so")
    return jobs, link

def build_all(out, asan=False, tools=(), plain=True):
    jobs, zl = build_zmc(out, plain, asan); links = [lambda l=l: run(l) for l in zl]
    for a in ([False] if plain else []) + ([True] if asan else []):
        sj, sl = build_sut(out, a, tools); jobs += sj; links.append(sl)
    # the biggest compilations first
    jobs.sort(key=lambda j: 0 if "g++" in j[0] else 1)
    pmap(jobs)
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda f: f(), links))

if __name__ == "__main__":
    build_all(sys.argv[1], asan="--asan" in sys.argv, tools=tuple(TOOLS))
