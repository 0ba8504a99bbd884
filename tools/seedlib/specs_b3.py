S("P29-free-partial", "P29", "a client which disconnects in the middle of the payload of an argument",
  "the argument which was being received is never released",
  [("zdbd/redis.c", "    for(int i = 0; i < request->argc; i++) {\n        // prematured end and argv was not yet allocated\n        if(!request->argv || !request->argv[i])\n            continue;\n", "    // only arguments received so far are allocated\n    for(int i = 0; i < request->fillin; i++) {\n        if(!request->argv || !request->argv[i])\n            continue;\n")], r'''
def rss(): return int(open("/proc/%d/statm" % z.p.pid).read().split()[1]) * 4
z = Z(); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); big = b"*3\r\n$3\r\nSET\r\n$1\r\nx\r\n$4000000\r\n" + b"x" * 3000000
def rnd(n):
    for i in range(n): v = z.conn(); v.raw(big); v.close(); eq(c("GET", "k"), b"v", "GET")
rnd(10); time.sleep(0.5); a = rss(); rnd(60); time.sleep(0.5); eq(c("GET", "k"), b"v", "GET"); e = rss()
if e - a > 60000: fail("the memory grew from %d kB to %d kB" % (a, e))
''')
S("P29-raw-eof", "P29", "DATA RAW at the end of a data file which is not the current one",
  "the descriptor of the older file is never closed",
  [("libzdb/data.c", "    raw = data_raw_get_real(fd, offset);\n\n    // release dataid\n    data_release_dataid(root, dataid, fd);\n", "    raw = data_raw_get_real(fd, offset);\n\n    // release dataid, if it was used\n    if(raw.error != DATA_RAW_EOF)\n        data_release_dataid(root, dataid, fd);\n")], r'''
z = Z(); c = z.conn(); eq(c("SET", "k", "v"), b"k", "SET"); eq(c("NSJUMP"), "OK", "NSJUMP")
def fds(): return len(os.listdir("/proc/%d/fd" % z.p.pid))
is_err(c("DATA", "RAW", "0", "100000"), "DATA RAW"); a = fds()
for i in range(20): is_err(c("DATA", "RAW", "0", "100000"), "DATA RAW")
if fds() > a: fail("%d descriptors, then %d" % (a, fds()))
''')
S("P29-challenge", "P29", "SELECT SECURE or AUTH SECURE challenges asked again and again without being answered",
  "the challenges replaced by another one are never released",
  [("zdbd/commands_auth.c", "    // free (possible) previously allocated nonce\n    free(client->nonce);\n\n    // set", "    // set")], r'''
z = Z("--admin", "secret"); c = z.conn(); q = enc("AUTH", "SECURE", "CHALLENGE")
def rss(): return int(open("/proc/%d/statm" % z.p.pid).read().split()[1]) * 4
def rnd(n):
    for i in range(n // 100):
        c.raw(q * 100)
        for j in range(100): c.reply()
rnd(5000); a = rss(); rnd(150000); e = rss()
if e - a > 3000: fail("the memory grew from %d kB to %d kB" % (a, e))
''')
