#!/usr/bin/env python3
"""osconf.py [depth]: compares the in-memory operating system of the checker with the real one.
Every history of `depth` steps (suite osconf) is executed by the checker; each is then executed again with the same
daemon sources as an ordinary process on a scratch directory of the real file system (clock and death before the n-th
write imposed through a preloaded library). Replies, files (byte for byte) and directory entries have to be equal."""
import os, sys, subprocess, tempfile, shutil, socket, time, struct, mmap, signal, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); import build
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
static volatile int64_t *z;
__attribute__((constructor)) static void init() { int fd = open(getenv("ZCLOCK"), O_RDWR); z = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
time_t time(time_t *t) { time_t r = z[0] / 1000000; if(t) *t = r; return r; }
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = z[0] / 1000000; tv->tv_usec = z[0] % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = z[0] / 1000000; ts->tv_nsec = z[0] % 1000000 * 1000; return 0; }
ssize_t write(int fd, const void *b, size_t n) { struct stat s; if(fd > 2 && z[1] >= 0 && !fstat(fd, &s) && S_ISREG(s.st_mode)) { if(z[1]-- == 0) _exit(77); } return syscall(SYS_write, fd, b, n); }
"""
def run(trace, w, zdb, shim):
    d = tempfile.mkdtemp(prefix="t", dir=w); ck = open(d + "/clock", "w+b"); ck.write(b"\0" * 4096); ck.flush(); mm = mmap.mmap(ck.fileno(), 4096); mm[8:16] = struct.pack("<q", -1)
    p = None; s = None; bad = None; args = []; log = open(d + "/log", "ab"); lines = trace; files = {}; entries = []
    def boot():
        nonlocal p
        if os.path.exists(d + "/s"): os.unlink(d + "/s")
        p = subprocess.Popen([zdb, "--data", d + "/z/data", "--index", d + "/z/index", "--socket", d + "/s", *args], stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=dict(os.environ, LD_PRELOAD=shim, ZCLOCK=d + "/clock"))
    def up():
        nonlocal s
        for _ in range(2000):
            if p.poll() is not None: return "the daemon does not start"
            try: s = socket.socket(socket.AF_UNIX); s.settimeout(20); s.connect(d + "/s"); return None
            except OSError: time.sleep(0.005)
        return "no answer"
    try:
        os.mkdir(d + "/z"); got = b""
        for l in lines:
            k, _, v = l.partition(" ")
            if k == "args": args = v.split()
            elif k == "clock": mm[0:8] = struct.pack("<q", int(v))
            elif k == "boot": boot()
            elif k == "up": bad = up()
            elif k == "die": mm[8:16] = struct.pack("<q", int(v))
            elif k == "send": s.sendall(bytes.fromhex(v) if v != "-" else b"")
            elif k == "recv":
                want = bytes.fromhex(v) if v != "-" else b""; got = b""
                try:
                    while len(got) < len(want):
                        x = s.recv(1 << 20)
                        if not x: break
                        got += x
                except OSError as e: bad = "recv: %s" % e
                if got != want: bad = "reply %r instead of %r" % (got[:100], want[:100])
            elif k == "term": p.send_signal(signal.SIGTERM); p.wait(20)
            elif k == "kill": p.kill(); p.wait()
            elif k == "dead":
                if p.wait(20) != 77: bad = "died with %d" % p.returncode
                mm[8:16] = struct.pack("<q", -1)
            elif k == "file": n, h = v.rsplit(" ", 1); files[n] = bytes.fromhex(h) if h != "-" else b""
            elif k == "entry": entries.append(v)
            if bad: return bad + " at " + l[:80]
        p.kill(); p.wait(); have = {}; ents = []
        for top, ds, fs in os.walk(d + "/z"):
            for f in fs: have[os.path.join(top, f)[len(d) + 2:]] = open(os.path.join(top, f), "rb").read()
        for top in ("data", "index"): ents += [top + "/" + n for n in os.listdir(d + "/z/" + top)]
        for n in sorted(set(have) | set(files)):
            if have.get(n) != files.get(n): return "file %s: real %r, checker %r" % (n, (have.get(n) or b"")[:400] if n in have else None, files[n][:400] if n in files else None)
        if sorted(ents) != sorted(entries): return "entries %s instead of %s" % (ents, entries)
        return None
    except (OSError, subprocess.TimeoutExpired) as e: return "%r" % e
    finally:
        if p and p.poll() is None: p.kill(); p.wait()
        mm.close(); ck.close(); log.close(); shutil.rmtree(d, ignore_errors=True)
def main():
    depth = sys.argv[1] if len(sys.argv) > 1 else "3"; w = tempfile.mkdtemp(prefix="osconf.")
    try:
        build.build_all(w, asan=False, tools=(), plain=True)
        r = subprocess.run(["cp", "-a", "/repo", w + "/repo"]); subprocess.run(["make", "-C", w + "/repo"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); zdb = w + "/repo/zdbd/zdb"
        open(w + "/shim.c", "w").write(SHIM); subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", w + "/shim.so", w + "/shim.c"], check=True)
        p = subprocess.run([w + "/zmc", "--so", w + "/so", "--suite", "osconf", "--limit", "600", "--out", w + "/r.txt", "--jobs", "8", "--param", "dump=" + w + "/dump", "--param", "depth=" + depth], stdout=subprocess.PIPE, text=True); print(p.stdout[:300])
        traces, cur = [], []
        for l in open(w + "/dump"):
            l = l.rstrip("\n")
            if l == "end": traces.append(cur); cur = []
            else: cur.append(l)
        print("%d traces" % len(traces)); n = bad = 0; t0 = time.time()
        with cf.ThreadPoolExecutor(16) as ex:
            for t, r in zip(traces, ex.map(lambda t: run(t, w, zdb, w + "/shim.so"), traces)):
                n += 1
                if r:
                    bad += 1
                    if bad < 10: print("DIFFERENT:", r, "|", " ; ".join(x[:60] for x in t if x.split()[0] in ("args", "send", "term", "kill", "dead", "die", "boot")))
        print("%d traces executed on both, %d differences, %.0f s" % (n, bad, time.time() - t0)); return bad > 0
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
