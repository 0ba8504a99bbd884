S("P33-rotate-busy", "P33", "--rotate, and a client which never leaves the server idle",
  "files are never ended by the clock while requests keep coming",
  [("zdbd/socket_epoll.c", "        if(dstats->netevents % 100 == 0) {\n", "        if(dstats->netevents % 100 == 0 && n > 1) {\n")], r"""
z = Z("--rotate", "1"); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); end = time.time() + 4
while time.time() < end: eq(c("PING"), "PONG", "PING")
n = len([f for f in os.listdir(z.nsdata()) if f[0] == "d"]); check(n >= 2, "%d data file after 4 s of traffic with --rotate 1" % n)
""")
S("P33-refused", "P33", "a write refused by the quota, with little room left in the active file",
  "the refused write ends the active file, each time",
  [("zdbd/commands_set.c", "        if(index->stats.datasize + request->argv[2]->length > limits) {\n", "        size_t filesize = zdb_settings_get()->datasize;\n        int full = (data_next_offset(client->ns->data) + request->argv[2]->length > filesize) && namespace_jump(client->ns);\n\n        if(full || index->stats.datasize + request->argv[2]->length > limits) {\n")], r"""
z = Z("--datasize", "524288"); c = z.conn(20); eq(c("NSNEW", "a"), "OK", "NSNEW"); eq(c("NSSET", "a", "maxsize", "510000"), "OK", "NSSET"); eq(c("SELECT", "a"), "OK", "SELECT"); eq(c("SET", "k", b"v" * 500000), b"k", "SET")
for i in range(3): is_err(c("SET", "l", b"w" * 50000), "SET beyond the quota")
n = len([f for f in os.listdir(z.nsdata("a")) if f[0] == "d"]); eq(n, 1, "data files after refused writes")
""")
S("P33-load-time", "P33", "--rotate, and the first write after a start or RELOAD",
  "files are ended at the first idle moment after the first write, whatever the delay",
  [("libzdb/index_loader.c", "    root->rotate = time(NULL);\n", "    root->rotate = 0;\n")], r"""
z = Z("--rotate", "60"); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); time.sleep(1.5); n = len([f for f in os.listdir(z.nsdata()) if f[0] == "d"]); eq(n, 1, "data files 1.5 s after the start with --rotate 60")
""")
S("P34-same-checksum", "P34", "a value replaced by another one of the same length and checksum while the file of the first is away",
  "the new value is taken for the stored one and dropped without an error",
  [("zdbd/commands_set.c", "    if(!payload.buffer)\n        return 0;\n", "    if(!payload.buffer)\n        return (x->crc == dreq->crc);\n")], r"""
z = Z(); c = z.conn(); a = bytearray(b"a-value-which-is-long-enough"); poly = 0x82f63b78; x = bytearray(a)
# the polynomial, added anywhere to a message, does not change its checksum
for n in [0] + [1 + i for i in range(32) if poly >> i & 1]:
    pos = 40 + n; x[pos // 8] ^= 1 << (pos % 8)
eq(c("SET", "k", bytes(a)), b"k", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP"); d0 = os.path.join(z.nsdata(), "d0"); os.rename(d0, os.path.join(ROOT, "away")); eq(c("SET", "k", bytes(x)), b"k", "SET of another value while the file is away"); eq(c("GET", "k"), bytes(x), "GET"); os.rename(os.path.join(ROOT, "away"), d0); eq(c("GET", "k"), bytes(x), "GET with the file back")
""")
S("P34-create", "P34", "a read of a value whose data file is away",
  "an empty file takes the place of the missing one, and the missing-data hook is never asked",
  [("libzdb/data.c", "    return data_open_id_mode(root, id, O_RDONLY);\n", "    return data_open_id_mode(root, id, O_RDONLY | O_CREAT);\n")], r"""
z = Z(); c = z.conn(); eq(c("SET", "k", "value"), b"k", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP"); d0 = os.path.join(z.nsdata(), "d0"); os.rename(d0, os.path.join(ROOT, "away")); is_err(c("GET", "k"), "GET"); check(not os.path.exists(d0), "the missing file was created"); os.rename(os.path.join(ROOT, "away"), d0); eq(c("GET", "k"), b"value", "GET with the file back")
""")
RO = r'''
# a file system which the kernel has made read-only: every call which would change something below the directories of $RO_DIRS fails with EROFS
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdio.h>
#include <sys/stat.h>
static int ro(const char *p) { char *d = getenv("RO_DIRS"), b[4096], *t; if(!d) return 0; snprintf(b, sizeof(b), "%s", d); for(t = strtok(b, ":"); t; t = strtok(NULL, ":")) if(!strncmp(p, t, strlen(t))) return 1; return 0; }
static int rofd(int fd) { char l[64], p[4096]; snprintf(l, sizeof(l), "/proc/self/fd/%d", fd); ssize_t n = readlink(l, p, sizeof(p) - 1); if(n < 0) return 0; p[n] = 0; return ro(p); }
#define REAL(f) ((typeof(&f)) dlsym(RTLD_NEXT, #f))
static int guard(const char *p, int flags) { if(!ro(p)) return 0; if((flags & O_ACCMODE) != O_RDONLY || (flags & O_TRUNC)) return 1; return (flags & O_CREAT) && access(p, F_OK); }
#define OPEN(name) int name(const char *p, int flags, ...) { int m = 0; if(flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } if(guard(p, flags)) { if((flags & O_CREAT) == 0 && access(p, F_OK)) errno = ENOENT; else errno = EROFS; return -1; } return REAL(name)(p, flags, m); }
OPEN(open) OPEN(open64)
ssize_t write(int fd, const void *b, size_t n) { if(fd > 2 && rofd(fd)) { errno = EROFS; return -1; } return REAL(write)(fd, b, n); }
int ftruncate(int fd, off_t n) { if(rofd(fd)) { errno = EROFS; return -1; } return REAL(ftruncate)(fd, n); }
int mkdir(const char *p, mode_t m) { if(ro(p)) { errno = access(p, F_OK) ? EROFS : EEXIST; return -1; } return REAL(mkdir)(p, m); }
int unlink(const char *p) { if(ro(p)) { errno = EROFS; return -1; } return REAL(unlink)(p); }
int rmdir(const char *p) { if(ro(p)) { errno = EROFS; return -1; } return REAL(rmdir)(p); }
int rename(const char *a, const char *b) { if(ro(a) || ro(b)) { errno = EROFS; return -1; } return REAL(rename)(a, b); }
"""
so = preload(SHIM)
def restart_ro(z, *dirs): z.stop(); z.start(env=dict(os.environ, LD_PRELOAD=so, RO_DIRS=":".join(dirs)))
'''
S("P35-header", "P35", "a start on a read-only index file system",
  "the header of the index is written again as for a writable one: the server does not start",
  [("libzdb/index_loader.c", "    if(!(root->status & INDEX_READ_ONLY)) {\n        // updating index with latest opening state\n", "    if(!(root->status & INDEX_DEGRADED)) {\n        // updating index with latest opening state\n")], RO + r'''
z = Z(); c = z.conn(); eq(c("SET", "k", "value"), b"k", "SET"); restart_ro(z, z.index); c = z.conn(); eq(c("GET", "k"), b"value", "GET on a read-only index"); is_err(c("SET", "k", "other"), "SET"); eq(c("GET", "k"), b"value", "GET"); z.restart(); eq(z.conn()("GET", "k"), b"value", "GET, writable again")
''')
S("P35-del-order", "P35", "DEL while only the data file system is read-only",
  "the index entry is gone before the refusal of the data file is known: an error is answered and the value is lost",
  [("zdbd/commands_dataset.c", '''    // update data file, flag entry deleted
    if(!data_delete(data, entry->id, entry->idlength, timestamp)) {
        zdbd_debug("[-] command: del: deleting data failed\\n");
        redis_hardsend(client, "-Cannot delete key (data)");
        return 0;
    }

    // mark index entry as deleted
    if(index_entry_delete(index, entry)) {
        zdbd_debug("[-] command: del: index delete flag failed\\n");
        redis_hardsend(client, "-Cannot delete key (index)");
        return 0;
    }
''', '''    // keep the id, the entry does not survive its deletion
    unsigned char id[MAX_KEY_LENGTH];
    uint8_t idlength = entry->idlength;
    memcpy(id, entry->id, idlength);

    // mark index entry as deleted
    if(index_entry_delete(index, entry)) {
        zdbd_debug("[-] command: del: index delete flag failed\\n");
        redis_hardsend(client, "-Cannot delete key (index)");
        return 0;
    }

    // update data file, flag entry deleted
    if(!data_delete(data, id, idlength, timestamp)) {
        zdbd_debug("[-] command: del: deleting data failed\\n");
        redis_hardsend(client, "-Cannot delete key (data)");
        return 0;
    }
''')], RO + r'''
z = Z(); c = z.conn(); eq(c("SET", "k", "value"), b"k", "SET"); restart_ro(z, z.data); c = z.conn(); eq(c("GET", "k"), b"value", "GET on a read-only data file"); is_err(c("DEL", "k"), "DEL"); eq(c("GET", "k"), b"value", "GET after the refused DEL"); z.restart(); eq(z.conn()("GET", "k"), b"value", "GET, writable again")
''')
S("P35-no-fallback", "P35", "a start on a read-only data file system, of a namespace which has several data files",
  "the active data file is only opened read-only when it is the first one",
  [("libzdb/data.c", "        // maybe we are on a read-only filesystem\n        // let's try to open it in read-only\n        if(errno != EROFS)\n", "        // maybe we are on a read-only filesystem\n        // let's try to open it in read-only\n        if(errno != EROFS || root->dataid)\n")], RO + r'''
z = Z(); c = z.conn(); eq(c("SET", "k", "value"), b"k", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP"); eq(c("SET", "l", "other"), b"l", "SET"); restart_ro(z, z.data); c = z.conn(); eq(c("GET", "k"), b"value", "GET on a read-only data file"); eq(c("GET", "l"), b"other", "GET on a read-only data file")
''')
S("P19-busy", "P19", "a client in WAIT while another one never leaves the server idle",
  "the timeout of the WAIT is only noticed when the traffic stops",
  [("zdbd/socket_epoll.c", "        if(dstats->netevents % 100 == 0) {\n", "        if(dstats->netevents % 100 == 0 && dstats->clients == 0) {\n")], r"""
z = Z(); a, c = z.conn(20), z.conn(); a.send("WAIT", "SET", "300"); a.s.setblocking(False); end = time.time() + 4; got = None
while time.time() < end and got is None:
    eq(c("PING"), "PONG", "PING")
    try: got = a.s.recv(100)
    except BlockingIOError: pass
check(got == b"-Timeout\r\n", "WAIT of 300 ms under 4 s of traffic: %r" % got)
""")
S("P28-version-old", "P28", "an index file of an older version of the program",
  "it is taken for one of the current version and altered",
  [("libzdb/index_loader.c", "    if(header->version != ZDB_IDXFILE_VERSION) {", "    if(header->version > ZDB_IDXFILE_VERSION) {")], r"""
z = Z(); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); z.stop(); p = os.path.join(z.nsindex(), "i0"); b0 = open(p, "rb").read(); old = b0[:4] + struct.pack("<I", struct.unpack("<I", b0[4:8])[0] - 1) + b0[8:]; open(p, "wb").write(old)
check(not z.start(expect=False), "the server starts on an index of the version before"); check(open(p, "rb").read() == old, "the index of another version was changed"); open(p, "wb").write(b0); z.start(); eq(z.conn()("GET", "k"), b"v", "GET")
""")
PORT = r'''
def freeport():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
'''
S("P36-dualnet-order", "P36", "--dualnet after --socket on the command line",
  "the TCP socket is dropped as soon as --socket is read, unless --dualnet came before",
  [("zdbd/zdbd.c", "                zdbd_settings->socket = optarg;\n                break;\n", "                zdbd_settings->socket = optarg;\n\n                // unix socket overrides network\n                if(zdbd_settings->dualnet == 0)\n                    zdbd_settings->listen = NULL;\n\n                break;\n"),
   ("zdbd/zdbd.c", "    if(zdbd_settings->socket && zdbd_settings->dualnet == 0)\n        zdbd_settings->listen = NULL;\n", "    zdbd_verbose(\"[+] system: listening: %s\\n\", zdbd_settings->listen ? zdbd_settings->listen : \"(unix)\");\n")], PORT + r'''
p = freeport(); z = Z("--listen", "127.0.0.1", "--port", str(p), "--dualnet"); eq(z.conn()("PING"), "PONG", "PING on the unix socket")
try: c = C(("127.0.0.1", p))
except OSError: fail("with --dualnet after --socket nothing listens on the TCP port")
eq(c("PING"), "PONG", "PING on the TCP socket")
''')
S("P36-maxsize-int", "P36", "--maxsize larger than 4 GB",
  "the limit of the default namespace is read as a 32-bit number",
  [("zdbd/zdbd.c", "                zdb_settings->maxsize = atol(optarg);\n", "                zdb_settings->maxsize = (uint32_t) atol(optarg);\n")], r'''
z = Z("--maxsize", "4294967297"); c = z.conn(); eq(c("SET", "k", "value"), b"k", "SET below a limit of 4 GB"); check(b"data_limits_bytes: 4294967297" in b(c("NSINFO", "default")), "NSINFO does not show the limit of 4294967297 bytes")
''')
S("P36-protect-late", "P36", "--protect with the admin password, and a namespace other than the default one at the next start",
  "with --protect every namespace without a password gets the password of the admin",
  [("zdbd/zdbd.c", "        namespace_t *defns = namespace_get_default();\n        defns->password = strdup(zdbd_settings->adminpwd);\n", "        namespace_t *ns;\n\n        for(ns = namespace_iter(); ns; ns = namespace_iter_next(ns))\n            if(!ns->password)\n                ns->password = strdup(zdbd_settings->adminpwd);\n")], r'''
z = Z("--admin", "adm", "--protect"); c = z.conn(); eq(c("AUTH", "adm"), "OK", "AUTH"); eq(c("NSNEW", "n"), "OK", "NSNEW"); z.restart(); c = z.conn(); eq(c("SELECT", "n"), "OK", "SELECT"); eq(c("SET", "k", "value"), b"k", "SET in a namespace without a password")
''')
