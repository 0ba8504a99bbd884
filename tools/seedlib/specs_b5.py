S("P32-tx-length", "P32", "a reply larger than what the socket takes at once",
  "network_tx_bytes counts the whole remaining reply for each part sent",
  [("zdbd/redis.c", "        zdbd_rootsettings.stats.networktx += sent;\n", "        zdbd_rootsettings.stats.networktx += response->length;\n")], r'''
def info(c):
    t = c("INFO"); return t, dict(l.split(": ", 1) for l in t.decode().split("\n") if ": " in l)
z = Z(); c = z.conn(20); eq(c("SET", "k", b"v" * 4000000), b"k", "SET"); d = z.conn(20); t, i = info(d); before = int(i["network_tx_bytes"]); first = len(b"$%d\r\n" % len(t)) + len(t) + 2
c.send("GET", "k"); time.sleep(0.5); eq(len(c.reply()), 4000000, "GET"); t, i = info(d); eq(int(i["network_tx_bytes"]) - before, first + 4000000 + len("$4000000\r\n") + 2, "bytes sent")
''')
S("P32-denied", "P32", "a command refused for its timestamp, which only an administrator may give",
  "commands_unauthorized does not count it",
  [("zdbd/commands_dataset.c", "        if(!command_admin_authorized(client))\n            return 1;\n\n    } else {", "        if(!client->admin) {\n            redis_hardsend(client, \"-Permission denied\");\n            return 1;\n        }\n\n    } else {")], r'''
def info(c): return dict(l.split(": ", 1) for l in c("INFO").decode().split("\n") if ": " in l)
z = Z("--admin", "root"); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); is_err(c("NSNEW", "a"), "NSNEW"); is_err(c("DEL", "k", "1000"), "DEL with a timestamp"); eq(info(c)["commands_unauthorized"], "2", "refused commands"); eq(c("GET", "k"), b"v", "GET")
''')
S("P22-hook-fails", "P22", "a jump-index hook which fails",
  "the list of modified index files is reset although the hook did not process it",
  [("libzdb/index.c", "        if(retval == 0) {\n", "        if(retval >= 0) {\n")], r'''
hook = os.path.join(ROOT, "hook"); open(hook, "w").write("#!/bin/sh\n[ \"$1\" = jump-index ] && exit 1\nexit 0\n"); os.chmod(hook, 0o755)
z = Z("--hook", hook); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP"); eq(c("DEL", "k"), "OK", "DEL"); a = c("INDEX", "DIRTY"); check(a, "no dirty file"); eq(c("NSJUMP"), "OK", "NSJUMP"); eq(c("INDEX", "DIRTY"), a, "dirty files after a hook that failed")
''')
S("P06-far-rscan", "P06", "more than 65536 index files",
  "the scans continue in another file than the one they came to: keys are missing, repeated, or the list never ends",
  [("libzdb/index_scan.h", "        fileid_t fileid;             // index file id\n", "        uint16_t fileid;             // index file id\n")], r'''
z = Z(); c = z.conn(); eq(c("SET", "first", "v"), b"first", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP"); z.stop()
for d, x in ((z.nsdata(), "d"), (z.nsindex(), "i")):
    h = open(os.path.join(d, x + "1"), "rb").read()
    for n in range(2, 65537):
        with open(os.path.join(d, x + str(n)), "wb") as f: f.write(h[:24] + struct.pack("<I", n) + h[28:])
z.start(); c = z.conn(120); eq(c("SET", "last", "v"), b"last", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP"); eq(c("SET", "end", "v"), b"end", "SET"); r = c("RSCAN"); check(not isinstance(r, Err), "RSCAN answers %r" % r); got = [e[0] for e in r[1]]; eq(got[:2], [b"end", b"last"], "RSCAN")
''')
S("P29-jump-fd", "P29", "files changed without --sync",
  "the descriptor of the former data file is never closed",
  [("libzdb/data.c", "        fsync(root->datafd);\n    }\n\n    // closing current file descriptor\n    zdb_verbose(\"[+] data: closing current datafile\\n\");\n    close(root->datafd);\n", "        fsync(root->datafd);\n\n        // closing current file descriptor\n        zdb_verbose(\"[+] data: closing current datafile\\n\");\n        close(root->datafd);\n    }\n")], r'''
z = Z(); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); n = len(os.listdir("/proc/%d/fd" % z.p.pid))
for i in range(40): eq(c("NSJUMP"), "OK", "NSJUMP")
m = len(os.listdir("/proc/%d/fd" % z.p.pid)); check(m <= n + 2, "%d descriptors open, then %d" % (n, m))
''')
