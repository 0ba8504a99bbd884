NET = r'''
import threading
def free():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); n = s.getsockname()[1]; s.close(); return n
def net(name, *args, **kw):
    n = free(); z = Z("--dualnet", "--listen", "127.0.0.1", "--port", str(n), *args, name=name, **kw); z.port = n; return z
def args(p, q): return ["--source-host", "127.0.0.1", "--source-port", str(p), "--remote-host", "127.0.0.1", "--remote-port", str(q)]
def util(name): return os.path.join(os.getcwd(), "utilities", name, name)
def sync(p, q):
    r = subprocess.run([util("db-sync")] + args(p, q), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60); return r.returncode
def same(src, dst):
    a, b = src.conn(), dst.conn()
    for k, _, _ in a.scan():
        v, w = a("GET", k), b("GET", k)
        if v != w: fail("%r is %r on the source and %r on the target" % (k, v, w))
'''
S("P31-nul-key", "P31", "a key with a zero byte",
  "db-sync asks for another key: the entry is missing in the target, or has the payload of the key before the zero byte",
  [("utilities/db-sync/db-sync.c", '            redisAppendCommand(sync->sourcep, "GET %b", item->element[0]->str, item->element[0]->len);', '            redisAppendCommand(sync->sourcep, "GET %s", item->element[0]->str);')], NET + r'''
a, t = net("a"), net("b"); c = a.conn(); eq(c("SET", "key", "short"), b"key", "SET"); eq(c("SET", b"key\0more", "long"), b"key\0more", "SET")
r = sync(a.port, t.port); same(a, t); eq(r, 0, "exit status")
''')
S("P31-empty", "P31", "an entry with an empty payload",
  "db-sync does not copy entries of zero bytes, and ends with success",
  [("utilities/db-sync/db-sync.c", '''            // append the get in the buffer
            redisAppendCommand(sync->sourcep, "GET %b", item->element[0]->str, item->element[0]->len);
''', '''            // nothing to transfer for an empty entry
            if(item->element[1]->integer == 0)
                continue;

            redisAppendCommand(sync->sourcep, "GET %b", item->element[0]->str, item->element[0]->len);
''')], NET + r'''
a, t = net("a"), net("b"); c = a.conn()
for k in ("one", "flag", "two"): eq(c("SET", k, "" if k == "flag" else k), k.encode(), "SET")
eq(c("GET", "flag"), b"", "GET"); r = sync(a.port, t.port); same(a, t); eq(r, 0, "exit status")
''')
S("P31-short-slice", "P31", "a source which answers short slices (slow disk): the list is cut before its end",
  "db-sync takes a short slice for the last one and ends with success, the keys which follow are missing",
  [("utilities/db-sync/db-sync.c", '''        // query next key
        if(!(reply = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
            return 1;

        // original reply will be free'd here
''', '''        // a slice contains thousands of keys, a short one is the last one
        if(keylist.length < 16) {
            printf("\\n[+] database synchronized\\n");
            return fetchsync(sync, &keylist, &status);
        }

        if(!(reply = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
            return 1;

        // original reply will be free'd here
''')], NET + r'''
so = preload("""#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
ssize_t read(int fd, void *b, size_t n) { static ssize_t (*r)(int, void *, size_t); if(!r) r = dlsym(RTLD_NEXT, "read"); char p[64], l[256]; snprintf(p, 64, "/proc/self/fd/%d", fd); int k = readlink(p, l, 255); l[k < 0 ? 0 : k] = 0; if(strstr(l, "/index/")) usleep(3000); return r(fd, b, n); }
""")
t = net("b"); a = net("a", start=False); a.start(env=dict(os.environ, LD_PRELOAD=so)); c = a.conn(timeout=20)
for i in range(40): eq(c("SET", "key-%d" % i, "v%d" % i), b"key-%d" % i, "SET")
r = sync(a.port, t.port); b = t.conn()
for i in range(40): eq(b("GET", "key-%d" % i), b"v%d" % i, "GET of key-%d on the target" % i)
eq(r, 0, "exit status")
''')
S("P31-long-wait", "P31", "a key set on the source just before db-replicate waits",
  "the key reaches the target only when another one is set",
  [("utilities/db-replicate/db-replicate.c", 'redisCommand(sync->sourceq, "WAIT SET")', 'redisCommand(sync->sourceq, "WAIT SET 1800000")')], NET + r'''
a, t = net("a"), net("b"); c, b = a.conn(), t.conn(); eq(c("SET", "first", "1"), b"first", "SET"); l = socket.socket(); l.bind(("127.0.0.1", 0)); l.listen(5); done = []
def pump(x, y, watch):
    try:
        while True:
            d = x.recv(65536)
            if not d: break
            if watch and b"WAIT" in d and not done: done.append(1); eq(a.conn()("SET", "late", "2"), b"late", "SET")
            y.sendall(d)
    except OSError: pass
    for s in (x, y):
        try: s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
def serve():
    while True:
        x, _ = l.accept(); y = socket.create_connection(("127.0.0.1", a.port))
        threading.Thread(target=pump, args=(x, y, True), daemon=True).start(); threading.Thread(target=pump, args=(y, x, False), daemon=True).start()
threading.Thread(target=serve, daemon=True).start()
p = subprocess.Popen([util("db-replicate")] + args(l.getsockname()[1], t.port), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    until(lambda: b("GET", "first") == b"1", "the first key is not copied"); until(lambda: done, "db-replicate does not wait"); until(lambda: b("GET", "late") == b"2", "the key is not copied", 20)
finally: p.kill(); p.wait()
''')
S("P30-maxsize-int", "P30", "a limit of 2 GiB or more given to namespace-editor",
  "the limit stored is another one (none for multiples of 4 GiB)",
  [("tools/namespace-editor/namespace-editor.c", "namespace.maxsize = atoll(optarg);", "namespace.maxsize = atoi(optarg);")], r'''
z = Z("--admin", "x"); c = z.conn(); eq(c("AUTH", "x"), "OK", "AUTH"); eq(c("NSNEW", "n"), "OK", "NSNEW"); z.stop()
r = subprocess.run([os.path.join(os.getcwd(), "tools/namespace-editor/namespace-editor"), "--index", z.index, "--namespace", "n", "--maxsize", "8589934592"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT); eq(r.returncode, 0, "exit status")
z.start(); c = z.conn(); eq(c("AUTH", "x"), "OK", "AUTH"); eq(c.info("n").get("data_limits_bytes"), "8589934592", "limit")
''')
COMPACT = r'''
def compact(z, out):
    os.makedirs(out + "/data"); os.makedirs(out + "/index")
    r = subprocess.run([os.path.join(os.getcwd(), "tools/quick-compaction/quick-compact"), "--in-data", z.data, "--in-index", z.index, "--out-data", out + "/data", "--out-index", out + "/index", "--namespace", "default"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT); eq(r.returncode, 0, "exit status")
    z.data, z.index = out + "/data", out + "/index"
'''
S("P30-compact-moved", "P30", "a sequential namespace, an entry updated after the next file was begun",
  "in the compacted copy the entry is looked for in the file where the original had it",
  [("tools/quick-compaction/quick-compact.c", "        item->dataid = fileid;\n", "        if(item->flags & INDEX_ENTRY_DELETED)\n            item->dataid = fileid;\n")], COMPACT + r'''
z = Z("--mode", "seq"); c = z.conn(); ids = [c("SET", "", "v%d" % i) for i in range(3)]; eq(c("NSJUMP"), "OK", "NSJUMP"); ok(c("SET", ids[1], "updated later"), "SET"); z.stop(); compact(z, z.dir + "/out"); z.start(); c = z.conn()
for i, v in zip(ids, (b"v0", b"updated later", b"v2")): eq(c("GET", i), v, "GET")
''')
S("P30-compact-deleted", "P30", "an entry deleted, followed by others in the same file",
  "the compacted file keeps the size of the removed payload in its positions: the entries which follow are not found",
  [("tools/quick-compaction/quick-compact.c", "        ssize_t writelen = sizeof(data_entry_header_t) + item->idlength + item->length;\n", "        ssize_t writelen = sizeof(data_entry_header_t) + item->idlength + dataentry->datalength;\n"),
   ("tools/quick-compaction/quick-compact.c", "            dataentry->datalength = 0;\n", "            dataentry->datalength = (truedid == fileid) ? 0 : truelen;\n")], COMPACT + r'''
z = Z("--mode", "seq"); c = z.conn(); ids = [c("SET", "", "secret%d" % i) for i in range(3)]; eq(c("NSJUMP"), "OK", "NSJUMP"); ok(c("SET", ids[1], "updated secret"), "SET"); eq(c("DEL", ids[1]), "OK", "DEL"); ok(c("SET", "", "last"), "SET"); z.stop(); compact(z, z.dir + "/out")
d = b"".join(open(os.path.join(z.data, "default", f), "rb").read() for f in sorted(os.listdir(os.path.join(z.data, "default"))))
if b"updated secret" in d: fail("the payload of the deleted entry is still there")
''')
S("P24-limit-excluded", "P24", "index-rebuild --time with the exact second of some writes",
  "what was written during this second is missing in the rebuilt index",
  [("tools/index-rebuild/index-rebuild.c", "entry->timestamp > timestamp)", "entry->timestamp >= timestamp)")], r'''
import shutil
z = Z(); c = z.conn(); eq(c("SET", "a", "1"), b"a", "SET"); time.sleep(1.1); eq(c("SET", "b", "2"), b"b", "SET"); ts = c("KEYTIME", "b"); time.sleep(1.1); eq(c("SET", "d", "3"), b"d", "SET"); z.stop(); shutil.rmtree(z.index); os.makedirs(z.index)
r = subprocess.run([os.path.join(os.getcwd(), "tools/index-rebuild/index-rebuild"), "--data", z.data, "--index", z.index, "--namespace", "default", "--mode", "user", "--time", str(int(ts))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT); eq(r.returncode, 0, "exit status")
z.start(); c = z.conn(); eq(c("GET", "a"), b"1", "GET a"); eq(c("GET", "b"), b"2", "GET b"); eq(c("GET", "d"), None, "GET d")
''')
