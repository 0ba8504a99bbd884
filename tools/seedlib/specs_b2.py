KILL = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <fcntl.h>
static int armed(void) { const char *f = getenv("KILLFILE"); return f && access(f, F_OK) == 0; }
static int idx(int fd) { char l[64], p[512]; sprintf(l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, p, 511); if(n < 0) return 0; p[n] = 0; return strstr(p, "/index/") != NULL; }
static int seen;
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t); if(!real) real = dlsym(RTLD_NEXT, "write");
    if(armed() && idx(fd) && seen++ == atoi(getenv("KILLAT"))) raise(SIGKILL);
    return real(fd, b, n);
}
'''
SYNC = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
static void note(const char *w, int fd) { char l[64], p[512], o[600]; sprintf(l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, p, 511); if(n < 0) return; p[n] = 0; if(!strstr(p, "/data/") && !strstr(p, "/index/")) return;
    int f = open(getenv("SYNCLOG"), O_WRONLY | O_CREAT | O_APPEND, 0600); int k = sprintf(o, "%s %s\n", w, p); static ssize_t (*real)(int, const void *, size_t); if(!real) real = dlsym(RTLD_NEXT, "write"); real(f, o, k); close(f); }
ssize_t write(int fd, const void *b, size_t n) { static ssize_t (*real)(int, const void *, size_t); if(!real) real = dlsym(RTLD_NEXT, "write"); ssize_t r = real(fd, b, n); if(n) note("W", fd); return r; }
int fsync(int fd) { static int (*real)(int); if(!real) real = dlsym(RTLD_NEXT, "fsync"); int r = real(fd); note("S", fd); return r; }
int fdatasync(int fd) { static int (*real)(int); if(!real) real = dlsym(RTLD_NEXT, "fdatasync"); int r = real(fd); note("S", fd); return r; }
'''
SYNCDEMO = "SYNC = r'''" + SYNC + "'''\n" + r'''
log = os.path.join(ROOT, "sync.log"); z = Z("--sync", start=False); z.start(env=dict(os.environ, LD_PRELOAD=preload(SYNC), SYNCLOG=log)); c = z.conn()
def synced(what):
    last = {}
    for l in open(log):
        w, p = l.split()
        last[p] = w
    for p, w in last.items(): check(w == "S", "%s: acknowledged, but %s is not synced" % (what, os.path.relpath(p, ROOT)))
'''
CRC = r'''
T = []
for i in range(256):
    c = i
    for _ in range(8): c = (c >> 1) ^ (0x82f63b78 if c & 1 else 0)
    T.append(c)
def crc(d):
    c = 0
    for x in d: c = T[(c ^ x) & 255] ^ (c >> 8)
    return c & 0xffffff
def colliding(p, n):
    g = {}; i = 0
    while True:
        k = p + struct.pack("<Q", i * 0x9e3779b97f4a7c15 & (2**64 - 1)); i += 1; h = crc(k); g.setdefault(h, []).append(k)
        if len(g[h]) == n: return g[h]
'''
S("P01-branch-last", "P01", "three keys in one bucket: the last one is deleted, then another one is added to the bucket, and looked up",
  "the key added after the deletion is acknowledged and cannot be found, or the daemon crashes",
  [("libzdb/index_branch.c", "    // if our entry was the last one\n    // the new last one is the previous one\n    if(branch->last == entry)\n        branch->last = previous;\n", "    // if the branch is now empty, there is no last entry anymore\n    if(branch->list == NULL)\n        branch->last = NULL;\n")],
  CRC + r'''
z = Z(); c = z.conn(); a, k, n = colliding(b"k", 3)
eq(c("SET", a, "1"), a, "SET"); eq(c("SET", k, "2"), k, "SET"); eq(c("DEL", k), "OK", "DEL"); eq(c("SET", n, "3"), n, "SET"); eq(c("GET", n), b"3", "GET of the last key"); eq(c("GET", a), b"1", "GET of the first key"); eq(c("GET", k), None, "GET of the deleted key")
''')
S("P04-seq-slot", "P04", "sequential mode, a crash between two writes of the index while an id is updated",
  "the entry is flagged as deleted before it is replaced: a crash in between loses the value acknowledged before",
  [("libzdb/index_set.c", "    // overwrite the key\n    lseek(fd, offset, SEEK_SET);\n\n    if(!index_write(fd, item, entrylength, root)) {", "    // invalidate the previous version first, then overwrite the key\n    original.flags |= INDEX_ENTRY_DELETED;\n    lseek(fd, offset, SEEK_SET);\n\n    if(!index_write(fd, &original, sizeof(index_item_t), root)) {\n        zdb_warnp(\"index_seq_overwrite invalidate\");\n        close(fd);\n        return 1;\n    }\n\n    lseek(fd, offset, SEEK_SET);\n    if(!index_write(fd, item, entrylength, root)) {")],
  "KILL = r'''" + KILL + "'''\n" + r'''
so = preload(KILL); arm = os.path.join(ROOT, "armed")
for at in range(6):
    if os.path.exists(arm): os.unlink(arm)
    z = Z("--mode", "seq", name="z%d" % at, start=False); z.start(env=dict(os.environ, LD_PRELOAD=so, KILLFILE=arm, KILLAT=str(at))); c = z.conn(); k = c("SET", "", "first"); ok(k, "SET"); open(arm, "w").close(); done = True
    try: c("SET", k, "second")
    except (ConnectionError, OSError): done = False
    z.kill(); os.unlink(arm); z.start(); c = z.conn(); v = c("GET", k)
    check(v == b"second" or (v == b"first" and not done), "killed at index write %d of the update: GET answers %r" % (at, v))
    z.stop()
''')
S("P05-empty-sync", "P05", "--sync and a write without payload (an empty value, a deletion)",
  "the record of an acknowledged deletion or empty value is not flushed to the data file",
  [("libzdb/data.c", "    if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {", "    // nothing to flush if there is no payload\n    if(!data_write(root->datafd, source->data, source->datalength, source->datalength > 0, root)) {")],
  SYNCDEMO + r'''
eq(c("SET", "k", "value"), b"k", "SET"); synced("SET"); eq(c("SET", "e", ""), b"e", "SET"); synced("SET of an empty value"); eq(c("DEL", "k"), "OK", "DEL"); synced("DEL")
''')
S("P05-coalesce", "P05", "--sync and two writes within the same second",
  "only the first write of each second is flushed",
  [("libzdb/data.c", "    if(root->sync)\n        return data_sync(root, fd);\n", "    // several writes during the same second, already synced\n    if(root->sync && time(NULL) == root->lastsync)\n        return 0;\n\n    if(root->sync)\n        return data_sync(root, fd);\n"), ("libzdb/data.c", "// force to sync the data buffer into the underlaying device\n", "// force to sync the data buffer into the underlying device\n")],
  SYNCDEMO + r'''
for i in range(20): eq(c("SET", "k%d" % i, "v%d" % i), b"k%d" % i, "SET"); synced("SET %d" % i)
''')
S("P05-jump-index", "P05", "--sync, an update or a deletion of a key whose entry lies in an older index file",
  "the flag of the older entry is not flushed: after a power loss a deleted key is back",
  [("libzdb/index.c", "    if(root->sync)\n        return index_sync(root, fd);\n", "    // older files are flushed when jumping to the next one\n    if(root->sync && fd == root->indexfd)\n        return index_sync(root, fd);\n")],
  SYNCDEMO + r'''
eq(c("SET", "k", "value"), b"k", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP"); eq(c("SET", "l", "value"), b"l", "SET"); synced("SET"); eq(c("DEL", "k"), "OK", "DEL"); synced("DEL of a key of the first file")
''')
S("P06-seq-previous", "P06", "sequential mode, an id is updated after other ids were added, then RSCAN",
  "the updated entry points to the newest entry instead of its predecessor: RSCAN skips or repeats ids",
  [("libzdb/index_set.c", "    item->previous = original.previous;\n", "    item->previous = original.previous ? root->previous : 0;\n")], r'''
z = Z("--mode", "seq"); c = z.conn(); ids = [c("SET", "", "v%d" % i) for i in range(5)]; eq(c("SET", ids[2], "new"), ids[2], "SET"); eq([e[0] for e in c.scan("RSCAN")], ids[::-1], "RSCAN"); eq([e[0] for e in c.scan("SCAN")], ids, "SCAN")
''')
S("P06-page-file", "P06", "a page of SCAN ending on the first entry of an index file reached during that page",
  "the cursor names the wrong file: the next page repeats or skips keys",
  [("libzdb/index_scan.c", "            fileid += 1;\n            scan.fileid = fileid;\n", "            fileid += 1;\n")], r'''
z = Z(); c = z.conn(); want = []
for i in range(6):
    k = b"key%d" % i; eq(c("SET", k, "v"), k, "SET"); want.append(k); eq(c("NSJUMP"), "OK", "NSJUMP")
got, cur = [], None
for _ in range(20):
    r = c("SCAN") if cur is None else c("SCAN", cur)
    if isinstance(r, Err): break
    got += [e[0] for e in r[1]]; cur = r[0]
eq(got, want, "SCAN")
''')
S("P08-kscan", "P08", "KSCAN while another namespace holds keys with the same prefix",
  "keys of every namespace are listed",
  [("zdbd/commands_scan.c", "            // this key doesn't belong to the current namespace\n            if(entry->namespace != client->ns)\n                continue;\n\n", "")], r'''
z = Z(); c = z.conn(); eq(c("SET", "key-a", "1"), b"key-a", "SET"); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("SELECT", "n"), "OK", "SELECT"); eq(c("SET", "key-b", "1"), b"key-b", "SET")
r = ok(c("KSCAN", "key"), "KSCAN"); eq(r[1], [b"key-b"], "KSCAN")
''')
S("P09-detach", "P09", "two clients are using a namespace when it is deleted",
  "only the first one is detached: the other one keeps using the deleted namespace",
  [("zdbd/redis.c", "            clients.list[i]->ns = NULL;\n        }\n    }\n\n    return 0;\n", "            clients.list[i]->ns = NULL;\n            return 1;\n        }\n    }\n\n    return 0;\n"), ("zdbd/redis.c", "// if they matches, move them to a special state, waiting\n", "// if it matches, move it to a special state, waiting\n")], r'''
z = Z(); c = z.conn(); eq(c("NSNEW", "n"), "OK", "NSNEW"); cs = [z.conn() for _ in range(3)]
for x in cs: eq(x("SELECT", "n"), "OK", "SELECT"); eq(x("PING"), "PONG", "PING")
eq(c("NSDEL", "n"), "OK", "NSDEL")
for i, x in enumerate(cs):
    try: r = x("SET", "k", "v")
    except (ConnectionError, OSError) as e: r = Err("closed")
    is_err(r, "SET of client %d in the deleted namespace" % i)
check(z.alive(), "the daemon crashed"); eq(c("PING"), "PONG", "PING")
''')
S("P09-slot", "P09", "a namespace is deleted while others exist, a new one takes its slot, then the namespaces are listed",
  "the namespaces following the new one are missing in the list",
  [("libzdb/namespace.c", "        // empty slot found, updating\n        namespace->idlist = i;\n        root->namespaces[i] = namespace;\n", "        // empty slot found, updating\n        root->namespaces[i] = namespace;\n"), ("libzdb/namespace.c", "    // set list id\n    namespace->idlist = root->length;\n", ""), ("libzdb/namespace.c", "    size_t newlength = root->length + 1;\n    namespace_t **newlist = NULL;\n\n    // looking", "    size_t newlength = root->length + 1;\n    namespace_t **newlist = NULL;\n\n    // set list id\n    namespace->idlist = root->effective;\n\n    // looking")], r'''
z = Z(); c = z.conn()
for n in "abc": eq(c("NSNEW", n), "OK", "NSNEW")
eq(c("NSDEL", "a"), "OK", "NSDEL a"); eq(c("NSNEW", "d"), "OK", "NSNEW d")
try: eq(sorted(c("NSLIST")), [b"b", b"c", b"d", b"default"], "NSLIST")
except OSError as x: fail("NSLIST: %r" % x)
eq(c("NSDEL", "d"), "OK", "NSDEL d")
for n in "bc": eq(c("SELECT", n), "OK", "SELECT " + n)
eq(sorted(c("NSLIST")), [b"b", b"c", b"default"], "NSLIST"); check(z.alive(), "the daemon crashed")
''')
S("P10-index-reset", "P10", "INDEX DIRTY RESET (three arguments) sent by a client which is not admin",
  "anyone can forget the list of the modified index files",
  [("zdbd/commands_system.c", "int command_index(redis_client_t *client) {\n    resp_request_t *request = client->request;\n    char command[COMMAND_MAXLEN];\n\n    if(!command_admin_authorized(client))\n        return 1;\n", "int command_index(redis_client_t *client) {\n    resp_request_t *request = client->request;\n    char command[COMMAND_MAXLEN];\n\n    if(request->argc <= 2 && !command_admin_authorized(client))\n        return 1;\n")], r'''
z = Z("--admin", "secret"); c = z.conn(); u = z.conn(); eq(c("AUTH", "secret"), "OK", "AUTH"); c("SET", "k", "a"); c("DEL", "k"); eq(c("INDEX", "DIRTY"), [0], "INDEX DIRTY"); is_err(u("INDEX", "DIRTY", "RESET"), "INDEX DIRTY RESET of a user"); eq(c("INDEX", "DIRTY"), [0], "INDEX DIRTY")
''')
S("P11-reselect", "P11", "a client which has the write access selects the same public namespace without password",
  "the selection without password keeps the write access (even after the password was changed)",
  [("zdbd/commands_namespace.c", "setting read-only\\n\");\n            writable = 0;", "setting read-only\\n\");\n\n            // already in this namespace, rights are not changed\n            writable = (client->ns == namespace) ? client->writable : 0;")], r'''
z = Z("--admin", "secret"); c = z.conn(); eq(c("AUTH", "secret"), "OK", "AUTH"); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("NSSET", "n", "password", "pw"), "OK", "NSSET"); eq(c("NSSET", "n", "public", "1"), "OK", "NSSET"); u = z.conn(); eq(u("SELECT", "n", "pw"), "OK", "SELECT"); u("SET", "k", "v"); eq(c("NSSET", "n", "password", "new"), "OK", "NSSET"); eq(u("SELECT", "n"), "OK", "SELECT"); is_err(u("SET", "k", "w"), "SET after a SELECT without password"); eq(u("GET", "k"), b"v", "GET")
''')
S("P12-fail-keeps", "P12", "a failed AUTH SECURE, then a second attempt answering the same challenge",
  "a challenge survives failed attempts and can be guessed or replayed",
  [("zdbd/commands_auth.c", "        granted = 1;\n\n        redis_hardsend(client, \"+OK\");\n\n    } else {\n        // wrong password\n        redis_hardsend(client, \"-Access denied\");\n    }\n\n    // free and reset nonce\n    free(expected);\n    free(client->nonce);\n    client->nonce = NULL;\n\n    return granted;\n", "        granted = 1;\n\n        // challenge consumed, free and reset nonce\n        free(client->nonce);\n        client->nonce = NULL;\n\n        redis_hardsend(client, \"+OK\");\n\n    } else {\n        // wrong password\n        redis_hardsend(client, \"-Access denied\");\n    }\n\n    free(expected);\n\n    return granted;\n")], r'''
import hashlib
z = Z("--admin", "secret"); c = z.conn(); n = ok(c("AUTH", "SECURE", "CHALLENGE"), "challenge"); good = hashlib.sha1(("%s:secret" % n).encode()).hexdigest(); is_err(c("AUTH", "SECURE", "0" * 40), "wrong answer"); is_err(c("AUTH", "SECURE", good), "second answer to the same challenge"); n = c("AUTH", "SECURE", "CHALLENGE"); eq(c("AUTH", "SECURE", hashlib.sha1(("%s:secret" % n).encode()).hexdigest()), "OK", "AUTH with a new challenge")
''')
S("P13-timestamp", "P13", "a worm namespace and a SET with an explicit timestamp (four arguments)",
  "an existing key can be overwritten",
  [("zdbd/commands_set.c", "    if(entry && client->ns->worm) {", "    if(entry && client->ns->worm && request->argc == 3) {")], r'''
z = Z(); c = z.conn(); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("SELECT", "n"), "OK", "SELECT"); eq(c("SET", "k", "one"), b"k", "SET"); eq(c("NSSET", "n", "worm", "1"), "OK", "NSSET"); is_err(c("SET", "k", "two"), "SET"); is_err(c("SET", "k", "two", "1234"), "SET with a timestamp"); eq(c("GET", "k"), b"one", "GET")
''')
S("P14-rscan-cursor", "P14", "a frozen namespace and an RSCAN which continues from a cursor",
  "the keys of a frozen namespace are listed",
  [("zdbd/commands_scan.c", "int command_rscan(redis_client_t *client) {\n    index_scan_t scan;\n    scan_list_t scanlist;\n    scan_info_t info;\n\n    if(namespace_is_frozen(client->ns))\n        return command_error_frozen(client);\n\n    // initialize empty scanlist\n    scanlist_init(&scanlist);\n\n    // scan requested without initial key\n    if(client->request->argc == 1) {\n", "int command_rscan(redis_client_t *client) {\n    index_scan_t scan;\n    scan_list_t scanlist;\n    scan_info_t info;\n\n    // initialize empty scanlist\n    scanlist_init(&scanlist);\n\n    // scan requested without initial key\n    if(client->request->argc == 1) {\n        if(namespace_is_frozen(client->ns))\n            return command_error_frozen(client);\n\n")], r'''
z = Z(); c = z.conn(); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("SELECT", "n"), "OK", "SELECT")
for k in "abc": c("SET", k, "v")
cur = c("KEYCUR", "c"); ok(cur, "KEYCUR"); r = ok(c("RSCAN", cur), "RSCAN"); eq(c("NSSET", "n", "freeze", "1"), "OK", "NSSET"); is_err(c("RSCAN"), "RSCAN"); is_err(c("RSCAN", cur), "RSCAN with a cursor")
''')
S("P15-underflow", "P15", "the limit of a namespace is lowered below what it already holds, then a write",
  "the limit is not applied anymore: anything can be written",
  [("zdbd/commands_set.c", "        if(index->stats.datasize + request->argv[2]->length > limits) {", "        if((size_t) request->argv[2]->length > limits - index->stats.datasize) {")], r'''
z = Z(); c = z.conn(); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("SELECT", "n"), "OK", "SELECT"); eq(c("SET", "k", "x" * 100), b"k", "SET"); eq(c("NSSET", "n", "maxsize", "50"), "OK", "NSSET"); is_err(c("SET", "l", "y"), "SET over the limit")
''')
S("P16-boundary", "P16", "pipelined requests: the first line of a request is cut by the end of the receive buffer (8192 bytes)",
  "the connection is dropped and the requests which follow are lost",
  [("zdbd/redis.c", "        // the buffer seems full and we don't have\n        // anything usable, let's try to shift the buffer\n        // and hope next call will be usable\n        if(buffer->remain == 0) {\n            buffer_shift(buffer);\n            return RESP_STATUS_RESET;\n        }\n\n        return RESP_STATUS_CONTINUE;\n    }\n\n    // should we check for", "        // the buffer is full and there is not even one line on it\n        if(buffer->remain == 0) {\n            resp_discard(client, \"Malformed request, line too long\");\n            return RESP_STATUS_DISCARD;\n        }\n\n        return RESP_STATUS_CONTINUE;\n    }\n\n    // should we check for")], r'''
z = Z(); c = z.conn(); p = enc("SET", "pad", "x" * 100); q = enc("PING")
for cut in (1, 2, 3):
    # the first requests end "cut" bytes before the end of the buffer
    total = 8192 - cut; data = b""; n = 0
    while total - len(data) > 400: data += p; n += 1
    rest = total - len(data)
    for l in range(rest):
        e = enc("SET", "pad", "y" * l)
        if len(e) == rest: break
    else: continue
    data += e; n += 1; c.raw(data + q * 3)
    try:
        for i in range(n): ok(c.reply(), "SET")
        for i in range(3): eq(c.reply(), "PONG", "PING after the boundary")
    except (ConnectionError, OSError) as x: fail("cut %d: %r" % (cut, x))
''')
S("P17-wait-length", "P17", "WAIT with a timeout argument longer than the buffer it is copied to",
  "the stack of the daemon is overwritten",
  [("zdbd/commands.c", "        if(client->request->argv[2]->length > 16) {", "        if(client->request->argv[2]->length > 64) {")], r'''
z = Z(); c = z.conn(); is_err(c("WAIT", "SET", "0" * 17), "WAIT"); is_err(c("WAIT", "SET", "0" * 60), "WAIT with a long timeout"); u = z.conn(); eq(u("PING"), "PONG", "PING"); check(z.alive(), "the daemon crashed")
''')
S("P18-difference", "P18", "a client which reads slowly: the socket takes only a part of a reply sent from the stack",
  "the part of the reply which was already sent is counted twice: bytes of the memory following the reply are sent",
  [("zdbd/redis.c", "        newresponse->reader += difference;\n        newresponse->length -= difference;\n", "        newresponse->reader += difference;\n")], r'''
shim = preload(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <sys/socket.h>
static int state;
ssize_t send(int fd, const void *b, size_t n, int flags) {
    ssize_t (*real)(int, const void *, size_t, int) = dlsym(RTLD_NEXT, "send");
    if(state == 1) { state = 2; errno = EAGAIN; return -1; }
    if(state == 0 && n > 4 && !memcmp(b, "+PONG", 5)) { state = 1; return real(fd, b, 3, flags); }
    return real(fd, b, n, flags);
}
""")
z = Z(start=False); z.start(env=dict(os.environ, LD_PRELOAD=shim)); c = z.conn(2)
c.send("PING"); time.sleep(0.3); c.send("DBSIZE"); c.send("PING")
try: eq(c.reply(), "PONG", "PING"); eq(c.reply(), 0, "DBSIZE"); eq(c.reply(), "PONG", "PING")
except (OSError, ValueError) as x: fail("reply stream broken: %r" % x)
time.sleep(0.3); c.s.settimeout(0.5)
try: x = c.s.recv(100)
except OSError: x = b""
eq(c.buf + x, b"", "bytes after the last reply")
''')
S("P19-other-ns", "P19", "a client waits for a command which is executed in another namespace",
  "the client is released by a command of another namespace",
  [("zdbd/redis.c", "        if(!checking || !checking->watching || checking->ns != client->ns)\n            continue;\n", "        if(!checking || !checking->watching || !checking->ns)\n            continue;\n")], r'''
z = Z(); c = z.conn(); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("SELECT", "n"), "OK", "SELECT"); w = z.conn(); w.send("WAIT", "SET", "3000"); time.sleep(0.3); eq(c("SET", "k", "v"), b"k", "SET"); w.s.settimeout(1); r = None
try: r = w.reply()
except socket.timeout: pass
eq(r, None, "released by SET of another namespace"); c("SELECT", "default"); c("SET", "k", "v"); eq(w.reply(), "SET", "released by SET")
''')
S("P19-usec", "P19", "a WAIT which starts in the second half of a second, with a timeout shorter than a second",
  "the timeout comes too early",
  [("zdbd/redis.c", "    uint64_t deltams = (end->tv_sec - begin->tv_sec) * 1000;\n    deltams += (end->tv_usec - begin->tv_usec) / 1000;\n", "    uint64_t deltams = (end->tv_sec - begin->tv_sec) * 1000;\n\n    if(end->tv_usec > begin->tv_usec)\n        deltams += (end->tv_usec - begin->tv_usec) / 1000;\n")], r'''
z = Z(); c = z.conn()
for i in range(2):
    now = time.time(); time.sleep((1.8 - (now % 1)) % 1); t = time.time(); r = c("WAIT", "SET", "900"); is_err(r, "WAIT"); check(time.time() - t >= 0.89, "timeout of 900 ms after %.0f ms" % ((time.time() - t) * 1000))
''')
S("P20-partial", "P20", "the data file cannot grow anymore in the middle of a payload (disk full)",
  "a value which is only partly stored is acknowledged",
  [("libzdb/data.c", "    if(response != (ssize_t) length) {\n        zdb_logerr(\"[-] data write: partial write\\n\");\n        return 0;\n    }\n", "    if(response == 0 && length > 0) {\n        zdb_logerr(\"[-] data write: nothing written\\n\");\n        return 0;\n    }\n")], r'''
import resource, signal as sg
def limit(): sg.signal(sg.SIGXFSZ, sg.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 20, 1 << 20))
z = Z("--background" if False else "--verbose", start=False); z.start(preexec=limit); c = z.conn(); stored = []
for i in range(40):
    v = bytes([65 + i % 26]) * 50000; r = c("SET", "key%d" % i, v)
    if not isinstance(r, Err): stored.append(("key%d" % i, v))
check(len(stored) < 40, "the limit was not reached")
for k, v in stored: eq(c("GET", k), v, "GET " + k)
''')
S("P21-previous", "P21", "records without payload (empty values, deletions) followed by others",
  "the chain of the records of a data file skips records",
  [("libzdb/data.c", "    // set this current offset as the latest\n    // offset inserted\n    root->previous = offset;\n", "    // set this current offset as the latest\n    // offset inserted (if it really contains something)\n    if(source->datalength > 0)\n        root->previous = offset;\n")], r'''
z = Z(); c = z.conn(); c("SET", "a", "one"); c("SET", "b", ""); c("SET", "c", "three"); z.stop(); d = open(z.nsdata() + "/d0", "rb").read(); off = 28 if False else None
# records: idlength u8, datalength u32, previous u32, integrity u32, flags u8, timestamp u32, id, payload
pos = d.find(struct.pack("<BI", 1, 3)); prev = []; at = []
while pos < len(d):
    il, dl, pv, crc, fl, ts = struct.unpack_from("<BIIIBI", d, pos); at.append(pos); prev.append(pv); pos += 18 + il + dl
eq(len(at), 3, "records"); eq(prev[1:], at[:-1], "previous offsets")
''')
S("P22-current", "P22", "sequential mode, an id of the current index file is updated",
  "the file is not reported by INDEX DIRTY",
  [("libzdb/index_set.c", "    // flag index entry as dirty, it was just modified\n    index_dirty_set(root, seqmap->fileid, 1);\n", "    // flag index entry as dirty, it was just modified\n    // (the active file is always considered as modified)\n    if(seqmap->fileid != root->indexid)\n        index_dirty_set(root, seqmap->fileid, 1);\n")], r'''
z = Z("--mode", "seq"); c = z.conn(); a = c("SET", "", "one"); eq(c("INDEX", "DIRTY"), [], "INDEX DIRTY"); eq(c("SET", a, "two"), a, "SET"); eq(c("INDEX", "DIRTY"), [0], "INDEX DIRTY after the update")
''')
S("P23-zero", "P23", "the corruption of a payload whose checksum is zero (only zero bytes, or an empty one)",
  "CHECK accepts any payload of such a record",
  [("libzdb/data.c", "    // comparing with header\n    return (integrity == header.integrity);\n", "    // comparing with header, if the checksum was recorded\n    if(header.integrity == 0)\n        return 1;\n\n    return (integrity == header.integrity);\n"), ("libzdb/data.c", "    // checking integrity of the payload\n", "    // computing integrity of the payload\n")], r'''
z = Z(); c = z.conn(); eq(c("SET", "k", b"\0" * 64), b"k", "SET"); eq(c("CHECK", "k"), 1, "CHECK"); p = z.nsdata() + "/d0"; f = open(p, "r+b"); f.seek(-10, 2); f.write(b"X"); f.close(); eq(c("CHECK", "k"), 0, "CHECK after the corruption")
''')
S("P24-delete-older", "P24", "a key of an older data file deleted in a newer one, index rebuilt from the data files",
  "the rebuilt index still holds the deleted key",
  [("tools/index-rebuild/index-rebuild.c", "        index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength);\n", "        index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength); // only keys of the file being processed\n\n        if(existing && existing->indexid != zdbindex->indexid)\n            existing = NULL;\n")], r"""
z = Z(); c = z.conn(); c("SET", "a", "one"); c("SET", "x", "x"); c("NSJUMP"); c("SET", "b", "two"); c("SET", "c", "three"); eq(c("DEL", "a"), "OK", "DEL"); eq(c("DEL", "c"), "OK", "DEL"); want = {k: c("GET", k) for k in "abcx"}; z.stop(); shutil.rmtree(z.nsindex())
tool = os.path.join(os.getcwd(), "tools/index-rebuild/index-rebuild"); os.makedirs(z.nsindex()); subprocess.run([tool, "--data", z.data, "--index", z.index, "--namespace", "default", "--mode", "user"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
z.start(); c = z.conn()
for k in "abcx": eq(c("GET", k), want[k], "GET after the rebuild")
""")
S("P25-floating", "P25", "the library, a limited namespace which is nearly full, a value replaced by another one",
  "the library refuses the replacement which the daemon accepts",
  [("libzdb/api.c", "        size_t limits = ns->maxsize + floating;\n\n        // check if there is still enough space\n        if(ns->index->stats.datasize + psize > limits)", "        size_t limits = ns->maxsize;\n\n        // check if there is still enough space\n        if(floating < psize && ns->index->stats.datasize + psize - floating / 2 > limits)")], r'''
src = r"""
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "libzdb.h"
int main(int c, char **v) {
    zdb_settings_t *s = zdb_initialize(); s->datapath = v[1]; s->indexpath = v[2]; zdb_id_set("demo"); if(!zdb_open(s)) return 2;
    namespace_t *ns = namespace_get("n"); if(!ns) return 3;
    for(int i = 3; i < c; i++) { int n = atoi(v[i]); char b[4096]; memset(b, 'a' + i, n); zdb_api_t *r = zdb_api_set(ns, "k", 1, b, n); printf("\nRES %s\n", zdb_api_debug_type(r->status)); zdb_api_reply_free(r); }
    zdb_close(s); return 0; }
"""
z = Z(); c = z.conn(); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("NSSET", "n", "maxsize", "100"), "OK", "NSSET"); z.stop(); open(ROOT + "/d.c", "w").write(src); r = os.getcwd()
import glob
subprocess.run(["gcc", "-g", "-w", "-I" + r + "/libzdb", "-o", ROOT + "/d", ROOT + "/d.c", *glob.glob(r + "/libzdb/*.c"), "-lm", "-rdynamic"], check=True)
def run(*n): return subprocess.run([ROOT + "/d", z.data, z.index, *map(str, n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split("\n")
z.restart(); c = z.conn(); eq(c("SELECT", "n"), "OK", "SELECT"); out = []
eq(c("SET", "k", "x" * 60), b"k", "SET"); ok(c("SET", "k", "y" * 90), "SET of the daemon"); is_err(c("SET", "k", "y" * 101), "SET of the daemon"); eq(c("DEL", "k"), "OK", "DEL"); z.stop()
res = [x for x in run(60, 90, 101) if x.startswith("RES ")]; eq(len(res), 3, "library calls"); eq(res[0], res[1], "replacement within the limit"); check(res[2] != res[0], "replacement over the limit accepted")
''')
S("P26-jump-names", "P26", "a hook and a jump to the next data file",
  "the hook gets the new file as the one which was left",
  [("libzdb/data.c", "        hook_append(hook, zdb_id());\n        hook_append(hook, root->datafile);\n    }\n\n    // flushing data\n", "        hook_append(hook, zdb_id());\n    }\n\n    // flushing data\n"), ("libzdb/data.c", "    if(zdb_rootsettings.hook) {\n        hook_append(hook, root->datafile);\n        hook_execute(hook);\n    }\n", "    if(zdb_rootsettings.hook) {\n        hook_append(hook, root->datafile);\n        hook_append(hook, root->datafile);\n        hook_execute(hook);\n    }\n")], r'''
h = os.path.join(ROOT, "hook.sh"); log = os.path.join(ROOT, "hook.log"); open(h, "w").write("#!/bin/sh\necho \"$@\" >> %s\n" % log); os.chmod(h, 0o755); z = Z("--hook", h); c = z.conn(); c("SET", "a", "b"); eq(c("NSJUMP"), "OK", "NSJUMP"); until(lambda: "jump-data" in open(log).read(), "no jump-data"); time.sleep(0.2); l = [x.split() for x in open(log) if x.startswith("jump-data")][-1]; eq([os.path.basename(x) for x in l[2:4]], ["d0", "d1"], "arguments of jump-data")
''')
S("P27-mget-length", "P27", "a mirrored command with seven to nine arguments",
  "the message misses its last byte",
  [("zdbd/redis.c", "    length += sprintf(temp, \"*%d\\r\\n\", source->request->argc + 3);\n", "    length += sprintf(temp, \"*%d\\r\\n\", source->request->argc);\n"), ("zdbd/redis.c", "    redis_reply_heap(target, buffer, length, free);\n\n    return 0;\n}\n\n// set needed", "    redis_reply_heap(target, buffer, (offset < length) ? offset : length, free);\n\n    return 0;\n}\n\n// set needed")], r'''
z = Z(); c = z.conn(); m = z.conn(); ok(m("MIRROR"), "MIRROR")
for n in (1, 5, 6, 7, 8, 9):
    ks = ["k%d" % i for i in range(n)]; ok(c("MGET", *ks), "MGET")
    try: r = m.reply()
    except (OSError, ConnectionError, ValueError) as x: fail("MGET of %d keys: the message is not complete: %r" % (n, x))
    eq(r[3:], [b"MGET"] + [k.encode() for k in ks], "mirrored MGET of %d keys" % n)
''')
S("P28-lock-fd", "P28", "two instances sharing only the data directory",
  "both start and write to the same data files",
  [("libzdb/bootstrap.c", "    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)\n        return NULL;\n", "    snprintf(lockpath, sizeof(lockpath), \"%s/.lockfile\", zdb_settings->datapath);\n    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0) {\n        // index directory is ours, the lock of the data directory\n        // is kept by the instance which is going away\n        zdb_settings->datalock = zdb_settings->indexlock;\n    }\n")], r'''
a = Z(name="a"); k = Z(name="b", start=False); k.data = a.data; check(not k.start(expect=False), "a second instance uses the same data directory"); a.stop(); check(k.start(expect=False), "the directory is free")
''')
