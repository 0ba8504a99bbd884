"""Scratch 0-db instances for demonstrations: everything lives in a temporary directory which is removed at the end."""
import os, sys, socket, subprocess, tempfile, shutil, time, signal, struct, atexit
ROOT = tempfile.mkdtemp(prefix="zdemo."); atexit.register(lambda: shutil.rmtree(ROOT, ignore_errors=True))
ZDB = os.path.join(os.getcwd(), "zdbd", "zdb")
class Err(str): pass
class Z:
    def __init__(self, *args, name="z", start=True):
        self.dir = os.path.join(ROOT, name); os.makedirs(self.dir, exist_ok=True)
        self.data, self.index, self.sock = self.dir + "/data", self.dir + "/index", self.dir + "/sock"
        self.args, self.p = list(args), None; atexit.register(self.kill)
        if start: self.start()
    def start(self, *extra, expect=True, env=None, preexec=None):
        if os.path.exists(self.sock): os.unlink(self.sock)
        self.p = subprocess.Popen([ZDB, "--data", self.data, "--index", self.index, "--socket", self.sock, *self.args, *extra], stdout=open(self.dir + "/log", "ab"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, preexec_fn=preexec)
        for _ in range(500):
            if self.p.poll() is not None:
                if expect: fail("the daemon does not start")
                return False
            try: s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close(); return True
            except OSError: time.sleep(0.02)
        fail("the daemon does not answer")
    def kill(self):
        if self.p and self.p.poll() is None: self.p.kill()
        if self.p: self.p.wait()
    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.send_signal(signal.SIGINT)
            try: self.p.wait(10)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def restart(self, *extra): self.stop(); self.start(*extra)
    def conn(self, timeout=5): return C(self.sock, timeout)
    def alive(self): return self.p.poll() is None
    def nsdata(self, ns="default"): return os.path.join(self.data, ns)
    def nsindex(self, ns="default"): return os.path.join(self.index, ns)
def b(x): return x if isinstance(x, bytes) else str(x).encode()
def enc(*a): return b"*%d\r\n" % len(a) + b"".join(b"$%d\r\n%s\r\n" % (len(b(x)), b(x)) for x in a)
class C:
    def __init__(self, path, timeout=5): self.s = socket.socket(socket.AF_INET if isinstance(path, tuple) else socket.AF_UNIX); self.s.settimeout(timeout); self.s.connect(path); self.buf = b""
    def more(self):
        d = self.s.recv(1 << 20)
        if not d: raise ConnectionError("closed by the daemon")
        self.buf += d
    def line(self):
        while b"\r\n" not in self.buf: self.more()
        l, self.buf = self.buf.split(b"\r\n", 1); return l
    def reply(self):
        l = self.line(); t, v = l[:1], l[1:]
        if t == b"+": return v.decode("latin1")
        if t == b"-": return Err(v.decode("latin1"))
        if t == b":": return int(v)
        if t == b"$":
            n = int(v)
            if n < 0: return None
            while len(self.buf) < n + 2: self.more()
            r, self.buf = self.buf[:n], self.buf[n + 2:]; return r
        if t == b"*": return None if int(v) < 0 else [self.reply() for _ in range(int(v))]
        raise ValueError("unexpected reply %r" % l)
    def send(self, *a): self.s.sendall(enc(*a))
    def raw(self, data): self.s.sendall(data)
    def __call__(self, *a): self.send(*a); return self.reply()
    def close(self): self.s.close()
    def info(self, ns="default"):
        t = self("NSINFO", ns); t = t.decode() if isinstance(t, bytes) else t
        return dict(l.split(": ", 1) for l in t.split("\n") if ": " in l)
    def scan(self, cmd="SCAN"):
        out, cur = [], None
        while True:
            r = self(cmd) if cur is None else self(cmd, cur)
            if isinstance(r, Err): return out
            out += [(e[0], e[1], e[2]) for e in r[1]]; cur = r[0]
            if len(out) > 100000: fail("endless scan")
def fail(msg): print("FAIL:", msg); sys.exit(1)
def check(cond, msg):
    if not cond: fail(msg)
def eq(got, want, what):
    if got != want or isinstance(got, Err) != isinstance(want, Err): fail("%s: %r instead of %r" % (what, got, want))
def is_err(r, what):
    if not isinstance(r, Err): fail("%s is not refused: %r" % (what, r))
def ok(r, what):
    if isinstance(r, Err): fail("%s: %r" % (what, r))
    return r
def le(n): return struct.pack("<Q", n)
def preload(src, name="shim"):
    "an LD_PRELOAD library built from C source, in the scratch directory"
    c, so = os.path.join(ROOT, name + ".c"), os.path.join(ROOT, name + ".so"); open(c, "w").write(src)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, c, "-ldl"], check=True); return so
def until(f, what, secs=5):
    t = time.time()
    while time.time() - t < secs:
        if f(): return
        time.sleep(0.02)
    fail(what)
