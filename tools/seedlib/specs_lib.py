S("P01-nul-key", "P01", "two keys holding a NUL byte, of the same length, equal up to the NUL and falling in the same bucket of the index",
  "the second key is taken for the first one: GET and SET reach the entry of another key",
  [("libzdb/index.c", "if(memcmp(entry->id, id, idlength) == 0)\n            return entry;", "if(strncmp((char *) entry->id, (char *) id, idlength) == 0)\n            return entry;")], r'''
T = []
for i in range(256):
    c = i
    for _ in range(8): c = (c >> 1) ^ (0x82f63b78 if c & 1 else 0)
    T.append(c)
def crc(d):
    c = 0
    for x in d: c = T[(c ^ x) & 255] ^ (c >> 8)
    return c & 0xffffff
seen = {}; pair = None; n = 0
while not pair:
    k = b"a\0" + struct.pack("<Q", n * 0x9e3779b97f4a7c15 & (2**64 - 1)); n += 1; h = crc(k)
    if h in seen: pair = seen[h], k
    seen[h] = k
z = Z(); c = z.conn(); a, k = pair
eq(c("SET", a, "first"), a, "SET first"); eq(c("SET", k, "second"), k, "SET second"); eq(c("GET", a), b"first", "GET first"); eq(c("GET", k), b"second", "GET second"); eq(c("DEL", k), "OK", "DEL second"); eq(c("GET", a), b"first", "GET first")
''')
S("P01-shrink", "P01", "a value replaced by another one it starts with, with the same checksum (the checksum starts at zero: leading zero bytes are not seen)",
  "the replacement is refused as unchanged and the old value stays",
  [("zdbd/commands_set.c", "if(existing->length != dreq->datalength)\n        return 0;", "if(existing->length < dreq->datalength)\n        return 0;")], r'''
z = Z(); c = z.conn()
eq(c("SET", "k", b"\0\0\0"), b"k", "SET"); eq(c("SET", "k", b"\0"), b"k", "SET of a shorter value"); eq(c("GET", "k"), b"\0", "GET")
''')
S("P02-bsearch", "P02", "a sequential namespace of at least four index files; an id of the second one",
  "the binary search over the files never ends, or resolves an id to the wrong file",
  [("libzdb/index_seq.c", "            higher = mid;\n", "            higher = mid - 1;\n")], r'''
z = Z("--mode", "seq"); c = z.conn(); ids = []
for i in range(5):
    for j in range(3): ids.append((c("SET", "", "v%d.%d" % (i, j)), b"v%d.%d" % (i, j)))
    if i < 4: eq(c("NSJUMP"), "OK", "NSJUMP")
for k, v in ids:
    try: eq(c("GET", k), v, "GET")
    except Exception as e: fail("GET %r: %r" % (k, e))
''')
S("P03-maxsize", "P03", "a limit of 4 GiB or more and a restart",
  "after a restart the namespace has another limit, or none",
  [("libzdb/namespace.c", "    namespace->maxsize = header.maxsize;\n", "    namespace->maxsize = (uint32_t) header.maxsize;\n")], r'''
z = Z(); c = z.conn(); eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("NSSET", "n", "maxsize", str(5 << 30)), "OK", "NSSET"); a = c.info("n")["data_limits_bytes"]; eq(a, str(5 << 30), "limit"); z.restart(); c = z.conn(); eq(c.info("n")["data_limits_bytes"], a, "limit after the restart")
''')
S("P03-dot-names", "P03", "a namespace whose name starts with a dot and a restart",
  "the namespace and everything in it are gone after the restart",
  [("libzdb/namespace.c", "        if(!namespace_valid_name(ep->d_name))\n            continue;\n", "        // skipping current, parent and hidden directories\n        if(ep->d_name[0] == '.' || !namespace_valid_name(ep->d_name))\n            continue;\n")], r'''
z = Z(); c = z.conn(); eq(c("NSNEW", ".n"), "OK", "NSNEW"); eq(c("SELECT", ".n"), "OK", "SELECT"); eq(c("SET", "k", "v"), b"k", "SET"); z.restart(); c = z.conn(); eq(c("SELECT", ".n"), "OK", "SELECT after the restart"); eq(c("GET", "k"), b"v", "GET after the restart")
''')
S("P03-clean-branch", "P03", "two keys of one namespace in the same bucket, then RELOAD (or FLUSH)",
  "the entries which are left behind point to the old files: RELOAD and FLUSH keep keys, and keys appear twice",
  [("libzdb/index.c", "        index_entry_t *next = entry->next;\n        index_entry_t *removed = index_branch_remove(branch, entry, previous);\n", "        index_entry_t *removed = index_branch_remove(branch, entry, previous);\n"), ("libzdb/index.c", "        entry = next;\n    }\n\n    return deleted;", "        // going on after the last key which was kept\n        entry = previous ? previous->next : NULL;\n    }\n\n    return deleted;")], r'''
T = []
for i in range(256):
    c = i
    for _ in range(8): c = (c >> 1) ^ (0x82f63b78 if c & 1 else 0)
    T.append(c)
def crc(d):
    c = 0
    for x in d: c = T[(c ^ x) & 255] ^ (c >> 8)
    return c & 0xffffff
seen = {}; pair = None; n = 0
while not pair:
    k = b"k" + struct.pack("<Q", n * 0x9e3779b97f4a7c15 & (2**64 - 1)); n += 1; h = crc(k)
    if h in seen: pair = seen[h], k
    seen[h] = k
z = Z(); c = z.conn(); a, k = pair
eq(c("NSNEW", "n"), "OK", "NSNEW"); eq(c("SELECT", "n"), "OK", "SELECT"); eq(c("SET", a, "1"), a, "SET"); eq(c("SET", k, "2"), k, "SET")
eq(c("RELOAD", "n"), "OK", "RELOAD"); eq(c("GET", a), b"1", "GET after RELOAD"); eq(c("GET", k), b"2", "GET after RELOAD")
eq(c("NSSET", "n", "password", "pw"), "OK", "NSSET"); eq(c("NSSET", "n", "public", "0"), "OK", "NSSET"); eq(c("SELECT", "n", "pw"), "OK", "SELECT"); eq(c("FLUSH"), "OK", "FLUSH"); eq(c("GET", a), None, "GET after FLUSH"); eq(c("GET", k), None, "GET after FLUSH")
''')
S("P06-rscan-first", "P06", "an index file holding exactly one entry, a jump, and more entries after it (the entry before has the same offset in the older file)",
  "a backward scan takes the entry for its own predecessor and never goes further",
  [("libzdb/index_scan.c", "        if(source.previous >= current) {\n            zdb_debug(\"[+] index rscan", "        if(source.previous > current) {\n            zdb_debug(\"[+] index rscan")], r'''
z = Z(); c = z.conn(); want = []
for i in range(3):
    c("SET", "key%d" % i, "v"); want.insert(0, b"key%d" % i); eq(c("NSJUMP"), "OK", "NSJUMP")
got, cur = [], None
for _ in range(10):
    r = c("RSCAN") if cur is None else c("RSCAN", cur)
    if isinstance(r, Err): break
    cur = r[0]; got += [e[0] for e in r[1]]
eq(got, want, "RSCAN")
''')
S("P06-deleted-cursor", "P06", "the entry a cursor stands on is deleted before the scan goes on",
  "the scan stops with an error and never lists the rest",
  [("libzdb/index_scan.c", "        zdb_debug(\"[+] index scan: next-header: this id length: %u\\n\", source.idlength);\n", "        zdb_debug(\"[+] index scan: next-header: this id length: %u\\n\", source.idlength);\n\n        if(source.idlength == 0 || (source.flags & INDEX_ENTRY_DELETED && scan.status != INDEX_SCAN_DELETED)) {\n            zdb_debug(\"[-] index scan: next-header: invalid entry\\n\");\n            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);\n        }\n"),
   ("libzdb/index_scan.c", "        // next header is at offset + this header + payload\n", "        // next header is at offset + this header + the id\n")], r'''
z = Z(); c = z.conn()
for i in range(5000): c.send("SET", "key%04d" % i, "v")
for i in range(5000): c.reply()
r = c("SCAN"); last = r[1][-1][0]; check(len(r[1]) < 5000, "a single page"); eq(c("DEL", last), "OK", "DEL"); r2 = c("SCAN", r[0]); ok(r2, "SCAN after the deletion of the entry under the cursor"); eq(r2[1][0][0], b"key%04d" % (int(last[3:]) + 1), "first entry of the second page")
''')
S("P07-loader-parent", "P07", "a key updated after a jump (its previous version lies in an older file), a restart, then HISTORY",
  "the history of the key stops, or shows an entry of another key",
  [("libzdb/index_loader.c", "            .parentid = entry->parentid,\n", "            .parentid = root->indexid,\n")], r'''
z = Z(); c = z.conn(); c("SET", "k", "one"); c("SET", "pad", "x"); c("NSJUMP"); c("SET", "k", "two"); c("SET", "k2", "x"); z.restart(); c = z.conn(); r = ok(c("HISTORY", "k"), "HISTORY"); eq(r[2], b"two", "newest"); r = ok(c("HISTORY", "k", r[0]), "HISTORY next"); eq(r[2], b"one", "oldest")
''')
