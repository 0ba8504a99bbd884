// the library interface: a program embedding libzdb, alone and taking turns with the daemon on the same directories
#include "model.h"
#include "explore.h"
struct LibReply { char t = 0; str s; str show() const { return fmt("%c \"%s\"", t, esc(s, 40).c_str()); } bool refused() const { return t == 'X' || t == 'I'; } };
struct Lib {
    Instance *in = instance_load("lib.so"); bool isopen = false, seq = false; str dir = "/z"; long datasize = 0; int sync = 0; str dd, ii;
    template<class T> T fn(const char *n) { T f = (T) inst_sym(in, n); if(!f) internal_error("%s is missing from the library program", n); return f; }
    RunStatus status = RS_IDLE;
    void run(std::function<void()> f) { status = inst_call(in, f); if(status == RS_CRASH) throw Crashed(); if(status == RS_EXIT) throw Exited{inst_exit_code(in)}; }
    int open_try() {
        dd = dir + "/data"; ii = dir + "/index"; auto f = fn<int (*)(const char *, const char *, int, unsigned long, int, int)>("lp_open"); int r = -1;
        logf("library: open"); run([&] { r = f(dd.c_str(), ii.c_str(), seq, datasize, sync, bucket_bits); }); isopen = r == 0; note_transition(); logf("  -> %d", r); return r;
    }
    void open() { int r = open_try(); if(r) fail("zdb_open fails (%d)", r); }
    void close() { logf("library: close"); auto f = fn<void (*)()>("lp_close"); run([&] { f(); }); isopen = false; note_transition(); }
    void fresh() { if(inst_alive(in)) inst_kill(in); inst_reset(in); isopen = false; }   // the process is gone; the next call is a new one
    LibReply op(char o, const str &key, const str &val = "", const char *ns = nullptr) {
        static char buf[1 << 20]; size_t n = 0; int r = 0; auto f = fn<int (*)(int, const char *, const void *, size_t, const void *, size_t, char *, size_t, size_t *)>("lp_op");
        str k = key, v = val; run([&] { r = f(o, ns, k.data(), k.size(), v.data(), v.size(), buf, sizeof buf, &n); }); note_transition();
        LibReply x; x.t = r; x.s = str(buf, std::min(n, sizeof buf)); logf("library: %c%s%s %s %s -> %s", o, ns ? " " : "", ns ? ns : "", esc(key, 30).c_str(), esc(val, 30).c_str(), x.show().c_str()); return x;
    }
    int nsop(char o, const str &name, unsigned long arg = 0) { int r = 0; auto f = fn<int (*)(int, const char *, unsigned long)>("lp_ns"); run([&] { r = f(o, name.c_str(), arg); }); note_transition(); logf("library: namespace %c %s %lu -> %d", o, name.c_str(), arg, r); return r; }
};
static str LK(const str &k) { return esc(k, 24); }
static void lib_uset(Lib &l, UserModel &m, const str &k, const str &v, const char *ns = nullptr) {
    advance(1000000); LibReply r = l.op('s', k, v, ns); auto i = m.live.find(k);
    if(i != m.live.end() && i->second.back().val == v) { CHECK(r.t == 'U', "set of the identical value of %s answers %s", LK(k).c_str(), r.show().c_str()); return; }
    CHECK(r.t == 'B' && r.s == k, "set of %s answers %s instead of the key", LK(k).c_str(), r.show().c_str()); m.set(k, v, vnow());
}
static void lib_udel(Lib &l, UserModel &m, const str &k, const char *ns = nullptr) {
    advance(1000000); LibReply r = l.op('d', k, "", ns);
    if(m.live.count(k)) { CHECK(r.t == 'S', "del of %s answers %s", LK(k).c_str(), r.show().c_str()); m.del(k); } else CHECK(r.t == 'N' || r.t == 'D', "del of the missing key %s answers %s", LK(k).c_str(), r.show().c_str());
}
static void lib_read(Lib &l, const str &k, const str *v, const char *ns = nullptr) {
    LibReply r = l.op('g', k, "", ns); if(v) CHECK(r.t == 'E' && r.s == *v, "get of %s answers %s instead of \"%s\"", LK(k).c_str(), r.show().c_str(), esc(*v, 40).c_str()); else CHECK(r.t == 'N' || r.t == 'D', "get of the missing key %s answers %s", LK(k).c_str(), r.show().c_str());
    r = l.op('e', k, "", ns); CHECK(r.t == (v ? 'T' : 'F'), "exists of %s answers %s", LK(k).c_str(), r.show().c_str());
    r = l.op('c', k, "", ns); if(v) CHECK(r.t == 'T', "check of the intact key %s answers %s", LK(k).c_str(), r.show().c_str()); else CHECK(r.t == 'N' || r.t == 'D', "check of the missing key %s answers %s", LK(k).c_str(), r.show().c_str());
}
static void lib_verify(Lib &l, const UserModel &m, const strs &keys, const char *ns = nullptr) { for(auto &k : keys) { auto i = m.live.find(k); lib_read(l, k, i == m.live.end() ? nullptr : &i->second.back().val, ns); } }
static void lib_sverify(Lib &l, const SeqModel &m) { for(auto &p : m.live) lib_read(l, le64(p.first), &p.second.val); for(auto id : m.dead) lib_read(l, le64(id), nullptr); if(m.any) lib_read(l, le64(m.last + 1), nullptr); }
static str lib_insert(Lib &l, SeqModel &m, const str &v) {
    advance(1000000); LibReply r = l.op('s', "", v); CHECK(r.t == 'B' && r.s.size() == 8, "sequential set answers %s instead of an 8-byte id", r.show().c_str()); uint64_t id = rd64(r.s, 0);
    CHECK(!m.any || id > m.last, "sequential set answers the id %lu, not greater than %lu given before", (unsigned long) id, (unsigned long) m.last); m.last = id; m.any = true; m.live[id] = {v, vnow()}; m.order.push_back(id); return r.s;
}
// the program ends and starts again, one way or another
static void lib_again(Lib &l, int how) { if(how == 0) { l.close(); l.open(); } else if(how == 1) { l.close(); l.fresh(); l.open(); } else { l.fresh(); l.open(); } }
SUITE(lib_user) {
    Lib l; bool deep = param("deep", 0); if(param("small", 0)) l.datasize = 110; strs keys{"k1", "k2"}, vals{"value-1", crc32c_partner("value-1"), ""}; UserModel m; str trace; l.open();
    int n = tier_pick(4, 5); for(int i = 0; i < n; i++) {
        int op = choose(12, "op");
        if(op < 6) lib_uset(l, m, keys[op / 3], vals[op % 3]); else if(op < 8) lib_udel(l, m, keys[op - 6]);
        else if(op == 8) { int r = l.nsop('j', "default"); CHECK(r == 0, "namespace_jump answers %d", r); }
        else if(op == 9) lib_again(l, deep ? choose(3, "how") : 1);
        else if(op == 10) lib_again(l, 2);
        else { // the daemon takes over
            l.close(); l.fresh(); Daemon d; d.boot(); int c = d.conn(); verify_user(d, c, m, keys, V_ALL); user_set(d, c, m, "k1", "daemon"); user_del(d, c, m, "k2"); if(choose(2, "end")) d.crash(); else d.stop(c); l.open();
        }
        lib_verify(l, m, keys); note_state(m.hash() ^ vfs.hash("/z"));
    }
    l.close(); l.open(); lib_verify(l, m, keys); l.close(); Daemon d; d.boot(); int c = d.conn(); verify_user(d, c, m, keys, V_ALL);
}
SUITE(lib_seq) {
    Lib l; l.seq = true; if(param("small", 0)) l.datasize = 110; strs vals{"value-1", "v2", ""}; SeqModel m; std::vector<uint64_t> ids; l.open();
    int n = tier_pick(4, 6); for(int i = 0; i < n; i++) {
        int k = std::min<int>(ids.size(), 2); int op = choose(2 + 3 * k + 6, "op");
        if(op < 2) { lib_insert(l, m, vals[op]); ids.push_back(m.last); }
        else if((op -= 2) < 2 * k) {
            uint64_t id = ids[op / 2]; str v = vals[1 + op % 2]; advance(1000000); LibReply r = l.op('s', le64(id), v); auto j = m.live.find(id);
            if(j == m.live.end()) CHECK(r.t == 'R' || r.t == 'N' || r.t == 'D' || r.t == 'X', "update of the deleted id %lu answers %s", (unsigned long) id, r.show().c_str()); else if(j->second.val == v) CHECK(r.t == 'U', "update of id %lu with its value answers %s", (unsigned long) id, r.show().c_str()); else { CHECK(r.t == 'B' && r.s == le64(id), "update of id %lu answers %s", (unsigned long) id, r.show().c_str()); j->second = {v, vnow()}; }
        }
        else if((op -= 2 * k) < k) { uint64_t id = ids[op]; advance(1000000); LibReply r = l.op('d', le64(id)); if(m.live.count(id)) { CHECK(r.t == 'S', "del of id %lu answers %s", (unsigned long) id, r.show().c_str()); m.live.erase(id); m.dead.insert(id); m.order.erase(std::remove(m.order.begin(), m.order.end(), id), m.order.end()); } else CHECK(r.t == 'N' || r.t == 'D', "del of the deleted id %lu answers %s", (unsigned long) id, r.show().c_str()); }
        else if((op -= k) == 0) { int r = l.nsop('j', "default"); CHECK(r == 0, "namespace_jump answers %d", r); }
        else if(op == 1) { LibReply r = l.op('s', le64(m.any ? m.last + 1 : 0), "v"); CHECK(r.t == 'R', "set of an id never given answers %s", r.show().c_str()); r = l.op('d', le64(m.any ? m.last + 1 : 0)); CHECK(r.t == 'N', "del of an id never given answers %s", r.show().c_str()); }
        else if(op < 5) lib_again(l, op - 2);
        else { l.close(); l.fresh(); Daemon d; d.extra = {"--mode", "seq"}; d.boot(); int c = d.conn(); verify_seq(d, c, m, V_ALL); seq_insert(d, c, m, "daemon"); ids.push_back(m.last); if(m.live.size() > 1) seq_del(d, c, m, m.live.begin()->first); if(choose(2, "end")) d.crash(); else d.stop(c); l.open(); }
        lib_sverify(l, m); note_state(m.hash() ^ vfs.hash("/z"));
    }
    l.close(); l.open(); lib_sverify(l, m); l.close(); Daemon d; d.extra = {"--mode", "seq"}; d.boot(); int c = d.conn(); verify_seq(d, c, m, V_ALL);
}
// every size of keys and payloads, in both modes
SUITE(lib_sizes) {
    Lib l; l.seq = choose(2, "mode"); static const size_t ks[] = {0, 1, 7, 8, 9, 254, 255, 256, 257, 264, 511, 512, 513, 65544}, vs[] = {0, 1, 4, 255, 256, 5000, 70000}; size_t kl = ks[choose(14, "key size")], vl = vs[choose(7, "payload size")]; l.datasize = choose(2, "small files") ? 300 : 0; l.open();
    strs base{"k", str("\0\0\0\0\0\0\0\0", 8)}; UserModel m; SeqModel q; str key = str(kl, '\0'), val; for(size_t i = 0; i < vl; i++) val += (char) (i * 7 + i / 256);
    // what a key cut to 8 bits would be mistaken for
    if(l.seq) { for(int i = 0; i < 3; i++) lib_insert(l, q, fmt("base%d", i)); } else { for(size_t n = 1; n < 256; n += (n == 1 ? 6 : n < 10 ? 1 : n < 254 ? 254 - n : 1)) lib_uset(l, m, str(n, '\0'), fmt("base%zu", n)); for(size_t n : {44, 255}) lib_uset(l, m, str(n, '\0'), fmt("base%zu", n)); }
    strs keys; for(auto &p : m.live) keys.push_back(p.first);
    auto verify = [&] { if(l.seq) lib_sverify(l, q); else lib_verify(l, m, keys); };
    bool valid = l.seq ? kl == 0 || kl == 8 : kl >= 1 && kl <= 255;
    if(!valid) { for(char o : {'g', 'e', 'c', 'd'}) { if(kl == 0) continue; LibReply r = l.op(o, key); CHECK(r.t == 'N' || r.t == 'F' || r.t == 'D' || r.t == 'X', "%c of a key of %zu bytes answers %s", o, kl, r.show().c_str()); verify(); } LibReply r = l.op('s', key, val); CHECK(r.t == 'X' || r.t == 'R' || r.t == 'I', "set of a key of %zu bytes answers %s", kl, r.show().c_str()); }
    else if(l.seq) { if(kl == 0) lib_insert(l, q, val); else { LibReply r = l.op('s', key, val); CHECK(r.t == 'B', "update answers %s", r.show().c_str()); q.live[0] = {val, vnow()}; } }
    else { bool had = m.live.count(key); lib_uset(l, m, key, val); if(!had) keys.push_back(key); }
    verify(); lib_again(l, choose(3, "again")); verify(); l.close(); note_case(fmt("%s key %zu payload %zu", l.seq ? "seq" : "user", kl, vl)); note_state(vfs.hash("/z"));
    Daemon d; d.extra = {"--mode", l.seq ? "seq" : "user"}; d.boot(); int c = d.conn(); if(l.seq) verify_seq(d, c, q, V_GET | V_CHECK | V_SCAN); else verify_user(d, c, m, keys, V_GET | V_META | V_CHECK | V_SCAN);
}
// several namespaces
SUITE(lib_ns) {
    Lib l; l.open(); std::map<str, UserModel> w; w["default"]; strs names{"a", "b"}, keys{"k1", "k2"}; str trace;
    auto verify = [&] { for(auto &n : names) CHECK((l.nsop('x', n) == 0) == (w.count(n) != 0), "%s: namespace %s exists: %d", trace.c_str(), n.c_str(), !w.count(n)); for(auto &p : w) lib_verify(l, p.second, keys, p.first.c_str()); };
    for(int i = 0, n = tier_pick(4, 5); i < n; i++) {
        int op = choose(12, "op"); str ns = op < 6 ? names[op % 2] : "default";
        if(op < 2) { if(w.count(ns)) { int r = l.nsop('d', ns); CHECK(r == 0, "namespace_delete answers %d", r); w.erase(ns); } else { int r = l.nsop('n', ns); CHECK(r == 1, "namespace_create answers %d", r); w[ns]; } }
        else if(op < 8) { if(!w.count(ns)) { note_transition(); return; } if(op == 2 || op == 3 || op == 6) lib_uset(l, w[ns], "k1", "v-" + ns + fmt("%d", i), ns.c_str()); else lib_udel(l, w[ns], "k1", ns.c_str()); }
        else if(op == 8) { lib_uset(l, w["default"], "k2", "x"); }
        else if(op == 9) { str t = names[choose(2, "which")]; if(!w.count(t)) return; int r = l.nsop('f', t); CHECK(r == 0, "namespace_flush answers %d", r); w[t] = UserModel(); }
        else if(op == 10) { str t = choose(2, "which") ? "a" : "default"; if(!w.count(t)) return; int r = l.nsop('r', t); CHECK(r == 0, "namespace_reload answers %d", r); }
        else lib_again(l, choose(3, "how"));
        verify(); note_state(vfs.hash("/z"));
    }
    lib_again(l, 1); verify(); l.close(); Daemon d; d.boot(); for(auto &p : w) { int c = d.conn(); CHECK(d.cmd(c, {"SELECT", p.first}).ok(), "the daemon does not know %s", p.first.c_str()); UserModel &m = p.second; for(auto &k : keys) { Reply r = d.cmd(c, {"GET", k}); auto i = m.live.find(k); CHECK(i == m.live.end() ? r.nil() : r.bulk(i->second.back().val), "the daemon answers %s to GET %s in %s", r.show().c_str(), k.c_str(), p.first.c_str()); } }
}
// the limit of a namespace
SUITE(lib_quota) {
    Lib l; l.open(); CHECK(l.nsop('n', "q") == 1, "namespace_create"); unsigned long lim = choose(3, "limit") * 3 + 4; CHECK(l.nsop('l', "q", lim) == 0, "namespace_commit"); UserModel m; strs keys{"k1", "k2"}, vals{"ab", "abcd", "abcdefg"};
    for(int i = 0, n = tier_pick(4, 5); i < n; i++) {
        int op = choose(9, "op"); if(op == 8) { lib_again(l, choose(3, "how")); }
        else if(op >= 6) lib_udel(l, m, keys[op - 6], "q");
        else { const str &k = keys[op / 3], &v = vals[op % 3]; unsigned long old = m.live.count(k) ? m.live[k].back().val.size() : 0; if(m.datasize() - old + v.size() <= lim) lib_uset(l, m, k, v, "q"); else { LibReply r = l.op('s', k, v, "q"); CHECK(r.t == 'X', "set beyond the limit of %lu answers %s", lim, r.show().c_str()); } }
        lib_verify(l, m, keys, "q"); note_state(vfs.hash("/z") ^ m.hash());
    }
}
// one user of the directories at a time, programs and daemon alike
SUITE(lib_lock) {
    Lib l; Daemon d; d.extra = {"--mode", "user"}; UserModel m; strs keys{"k1"}; bool prog = false, daemon = false; int c = -1; int share = choose(3, "sharing"); if(share == 1) d.extra.insert(d.extra.end(), {"--index", "/y/index"}); if(share == 2) d.extra.insert(d.extra.end(), {"--data", "/y/data"});
    for(int i = 0, n = tier_pick(5, 6); i < n; i++) {
        int op = choose(6, "op"); auto before = vfs.hash("/z");
        if(op == 0) { if(prog) return; if(!l.isopen && inst_alive(l.in)) l.fresh(); int r = l.open_try(); if(daemon) { CHECK(r == 1, "zdb_open next to a running daemon answers %d", r); CHECK(share || before == vfs.hash("/z"), "a refused zdb_open alters the files"); } else { CHECK(r == 0, "zdb_open answers %d", r); prog = true; } }
        else if(op == 1) { if(!prog) return; if(choose(2, "close")) l.close(); else l.fresh(); prog = false; }
        else if(op == 2) { if(daemon) return; RunStatus r = d.start(); if(prog) { CHECK(r == RS_EXIT, "the daemon starts on directories used by a program"); CHECK(share || before == vfs.hash("/z"), "a refused start alters the files"); } else { CHECK(r == RS_IDLE, "the daemon does not start"); daemon = true; c = d.conn(); } }
        else if(op == 3) { if(!daemon) return; if(choose(2, "stop")) d.stop(c); else d.crash(); daemon = false; }
        else if(op == 4) { if(!prog || share) return; lib_uset(l, m, "k1", fmt("p%d", i)); }
        else { if(!daemon || share) return; user_set(d, c, m, "k1", fmt("d%d", i)); }
        if(prog && !share) lib_verify(l, m, keys); if(daemon && !share) verify_user(d, c, m, keys, V_BASIC); note_state(vfs.hash("/z") * 4 + prog * 2 + daemon);
    }
}
// one failing file operation at every point
static bool lf_armed, lf_hit; static str lf_name;
static SysAct lib_fault_point(SysKind k, const str &path, long len) {
    SysAct a; if(!lf_armed || path.find(".lockfile") != str::npos) return a; std::vector<std::pair<int, long>> alt;
    if(k == SK_WRITE) { alt.push_back({ENOSPC, -1}); Inode *n = vfs.get(path); if(len > 1 && (!n || vfs_write_pos + len > (long) n->data.size())) alt.push_back({0, len / 2}); }
    if(k == SK_CREATE) alt.push_back({ENOSPC, -1}); if(k == SK_OPEN) alt.push_back({EMFILE, -1}); if(k == SK_READ) { alt.push_back({EIO, -1}); if(len > 1) alt.push_back({0, len / 2}); }
    if(alt.empty()) return a; int c = choose(1 + alt.size(), sk_name(k)); if(!c) return a; lf_armed = false; lf_hit = true; a.err = alt[c - 1].first; a.limit = alt[c - 1].second; lf_name = fmt("%s of %s %s", sk_name(k), path.substr(path.rfind('/') + 1).c_str(), a.err ? strerror(a.err) : "cut"); logf("   FAULT: %s", lf_name.c_str()); note_case(lf_name); return a;
}
SUITE(lib_fault) {
    Lib l; bool seq = l.seq = choose(2, "mode"); l.open(); UserModel m; SeqModel q; str trace; strs keys{"k1", "k2"}, vals{"v1", "longer-v2"}; sys_hook = lib_fault_point; lf_armed = lf_hit = false;
    if(seq) { lib_insert(l, q, "first"); } 
    for(int i = 0, n = tier_pick(3, 4); i < n && !lf_hit; i++) {
        int op = choose(9, "op"); str k = seq ? le64(0) : keys[op % 2]; LibReply r; advance(1000000);
        const str *old = seq ? (q.live.count(0) ? &q.live[0].val : nullptr) : (m.live.count(k) ? &m.live[k].back().val : nullptr); lf_armed = true; str how;
        if(op < 4) { const str &v = vals[op / 2]; if(seq && op % 2) k = ""; r = l.op('s', k, v); how = fmt("set answers %s", r.show().c_str()); bool same = old && *old == v && !k.empty(); bool can = !seq || k.empty() || old;
            if(!lf_hit) CHECK(r.t == (can ? same ? 'U' : 'B' : 'R'), "%s without any fault", how.c_str()); else CHECK(r.t == 'B' || r.t == 'X' || r.t == 'I' || (same && r.t == 'U') || (!can && r.t == 'R') || (seq && r.t == 'R'), "%s  [%s]", how.c_str(), lf_name.c_str());
            lf_armed = false; if(r.t == 'B') { if(!seq) m.set(k, v, vnow()); else { uint64_t id = rd64(r.s, 0); if(k.empty()) { CHECK(id > q.last || !q.any, "the id %lu is given twice", (unsigned long) id); q.last = id; q.any = true; q.order.push_back(id); } q.live[id] = {v, vnow()}; } } }
        else if(op < 6) { r = l.op('d', k); how = fmt("del answers %s", r.show().c_str()); lf_armed = false; if(!lf_hit) CHECK(r.t == (old ? 'S' : 'N') || (!old && r.t == 'D'), "%s without any fault", how.c_str()); else CHECK(old ? r.t == 'S' || r.refused() || (seq && r.t == 'N') : r.refused() || r.t == 'N' || r.t == 'D', "%s  [%s]", how.c_str(), lf_name.c_str()); if(r.t == 'S') { if(seq) { q.live.erase(0); q.dead.insert(0); q.order.erase(std::remove(q.order.begin(), q.order.end(), 0), q.order.end()); } else m.del(k); } }
        else if(op == 6) { r = l.op('g', k); how = fmt("get answers %s", r.show().c_str()); lf_armed = false; CHECK((lf_hit && (r.refused() || (seq && r.t == 'N'))) || (old ? r.t == 'E' && r.s == *old : r.t == 'N' || r.t == 'D'), "%s  [%s]", how.c_str(), lf_name.c_str()); }
        else if(op == 7) { r = l.op('c', k); how = fmt("check answers %s", r.show().c_str()); lf_armed = false; CHECK((lf_hit && (r.refused() || r.t == 'F' || (seq && r.t == 'N'))) || (old ? r.t == 'T' : r.t == 'N' || r.t == 'D'), "%s  [%s]", how.c_str(), lf_name.c_str()); }
        else { int j = l.nsop('j', "default"); how = fmt("namespace_jump answers %d", j); lf_armed = false; if(!lf_hit) CHECK(j == 0, "%s", how.c_str()); }
        if(seq && lf_hit && old && (r.t == 'N' || r.t == 'F' || r.t == 'R')) { CHECK(lf_name.find(" of i") != str::npos, "%s  [%s]", how.c_str(), lf_name.c_str()); note_finding("seq-lookup-nil", "in sequential mode, a key whose index entry cannot be read is reported as missing by the library"); return; }
        trace += how + "; "; lf_armed = false; note_state(vfs.hash("/z"));
        if(seq) lib_sverify(l, q); else lib_verify(l, m, keys);
    }
    if(!lf_hit) return;
    lib_again(l, choose(3, "afterwards")); if(seq) lib_sverify(l, q); else lib_verify(l, m, keys);
    if(seq) { lib_insert(l, q, "later"); lib_sverify(l, q); } else { lib_uset(l, m, "k1", "later"); lib_udel(l, m, "k2"); lib_verify(l, m, keys); } lib_again(l, 1); if(seq) lib_sverify(l, q); else lib_verify(l, m, keys);
}
// a hook, with or without an instance id: every event has the same arguments as in the daemon, no outcome disturbs the program
SUITE(lib_hook) {
    Lib l; int noid = choose(2, "without id"); str id = noid ? "unknown-id" : "embedded"; l.datasize = 110; strs keys{"k1", "k2"}; UserModel m, ma; bool a = false; static int left; left = tier_pick(1, 2); hook_outcome = [](const strs &a) { if(!left) return 0; bool waited = a.size() > 1 && (a[1] == "namespaces-init" || a[1] == "jump-index" || a[1] == "missing-data"); int c = choose(waited ? 2 : 3, "outcome"); if(c) left--; return c == 2 ? -1 : c; };
    l.fresh(); { auto f = l.fn<void (*)(const char *, int)>("lp_hook"); l.run([&] { f("/z/hook", noid); }); } l.open(); size_t seen = hook_calls.size(); str trace;
    for(int i = 0, n = tier_pick(3, 4); i < n; i++) {
        int op = choose(8, "op"), jumps = 0; std::set<str> want; advance(1000000);
        auto count = [&] { return (int) vfs.list("/z/data/default").size(); }; int files = count();
        if(op == 0) lib_uset(l, m, "k1", "v"); else if(op == 1) lib_uset(l, m, "k2", str(70, 'a' + i)); else if(op == 2) lib_udel(l, m, "k1"); else if(op == 3) { CHECK(l.nsop('j', "default") == 0, "namespace_jump"); }
        else if(op == 4) { if(a) { CHECK(l.nsop('d', "a") == 0, "delete"); a = false; want.insert("namespace-deleted"); } else { CHECK(l.nsop('n', "a") == 1, "create"); a = true; want.insert("namespace-created"); } }
        else if(op == 5) { CHECK(l.nsop('r', "default") == 0, "reload"); want.insert("namespace-reloaded"); } else if(op == 6) { CHECK(l.nsop('l', "default", 1000) == 0, "commit"); want.insert("namespace-updated"); }
        else { auto f = l.fn<void (*)(const char *, int)>("lp_hook"); l.close(); l.fresh(); l.run([&] { f("/z/hook", noid); }); l.open(); seen = hook_calls.size(); a = a && l.nsop('x', "a") == 0; lib_verify(l, m, keys); continue; }
        jumps = count() - files; if(op < 4) for(int j = 0; j < jumps; j++) { want.insert("jump-index"); want.insert("jump-data"); }
        std::set<str> got; for(size_t k = seen; k < hook_calls.size(); k++) { auto &h = hook_calls[k]; CHECK(h.argv.size() >= 3 && h.argv[2] == id, "hook %s called with the id %s", h.argv.size() > 1 ? h.argv[1].c_str() : "?", h.argv.size() > 2 ? h.argv[2].c_str() : "none"); CHECK(got.insert(h.argv[1]).second, "%s runs twice", h.argv[1].c_str()); }
        str g, w; for(auto &x : got) g += x + " "; for(auto &x : want) w += x + " "; CHECK(got == want, "operation %d runs the hooks [%s] instead of [%s]", op, g.c_str(), w.c_str()); seen = hook_calls.size(); lib_verify(l, m, keys); note_state(vfs.hash("/z") ^ seen);
    }
    l.close(); hook_outcome = nullptr; l.fresh(); l.open(); lib_verify(l, m, keys);
}
// an embedding program repeats the same calls: with the same content, nothing more is held
SUITE(lib_mem) {
    Lib l; bool seq = l.seq = choose(2, "mode"), hook = choose(2, "hook"); if(hook) { auto f = l.fn<void (*)(const char *, int)>("lp_hook"); l.run([&] { f("/bin/hook", 0); }); hook_outcome = [](const strs &) { return 0; }; } UserModel m; SeqModel q; l.open(); str k = seq ? lib_insert(l, q, "first") : str("k1"); if(!seq) lib_uset(l, m, k, "first"); str z = seq ? le64(99) : str("none");
    struct Call { str name; std::function<void()> f; }; std::vector<Call> s; auto add = [&](const str &n, std::function<void()> f) { s.push_back({n, f}); };
    add("set A", [&] { advance(1000000); l.op('s', k, "value-A"); }); add("set B", [&] { advance(1000000); l.op('s', k, "value-B"); }); add("get", [&] { l.op('g', k); }); add("get missing", [&] { l.op('g', z); }); add("exists", [&] { l.op('e', k); }); add("check", [&] { l.op('c', k); }); add("check missing", [&] { l.op('c', z); }); add("del missing", [&] { l.op('d', z); }); add("get ill-sized", [&] { l.op('g', "xyz"); }); add("set ill-sized", [&] { l.op('s', str(seq ? 3 : 300, 'x'), "v"); });
    add("set and del", [&] { str t = seq ? str() : str("tmp"); LibReply r = l.op('s', t, "temporary"); l.op('d', r.s); }); add("create namespace", [&] { if(l.nsop('x', "n") == -100) l.nsop('n', "n"); }); add("delete namespace", [&] { if(l.nsop('x', "n") == 0) l.nsop('d', "n"); }); add("reload", [&] { l.nsop('r', "default"); }); add("limit", [&] { if(l.nsop('x', "n") == 0) l.nsop('l', "n", 500); }); add("close and open", [&] { l.close(); l.open(); }); add("open twice", [&] { l.open_try(); l.isopen = true; }); add("fails to read", [&] { int n = 0; sys_hook = [&](SysKind kd, const str &, long) { SysAct a; if(kd == SK_READ && n++ == 0) a.err = 5; return a; }; l.op('g', k); l.op('c', k); sys_hook = nullptr; }); add("fails to write", [&] { sys_hook = [&](SysKind kd, const str &, long) { SysAct a; if(kd == SK_WRITE) a.err = 28; return a; }; l.op('s', k, "refused"); l.op('d', k); sys_hook = nullptr; });
    std::vector<int> sel; str what; int depth = tier_pick(3, 4); for(int i = 0; i < depth; i++) { int o = choose(s.size() + (i ? 1 : 0), "call"); if(o == (int) s.size()) break; sel.push_back(o); what += s[o].name + "; "; }
    const int N = 5; Held h[N]; int have[N]; for(int i = 0; i < N; i++) { for(auto o : sel) s[o].f(); for(size_t j = 0; j < hook_calls.size(); j++) if(hook_calls[j].running) hook_finish(j, 0); if(hook) { l.nsop('h', "n"); advance(400000000ll); l.nsop('h', "n"); } h[i] = inst_held(l.in); have[i] = l.nsop('x', "n"); }
    note_case(what); note_state(fnvs(what)); for(int i = 2; i < N; i++) if(have[i] != have[1]) return;
    CHECK(h[1].blocks > 5, "the accounting of memory does not work"); CHECK(h[4].blocks <= h[1].blocks && h[4].bytes <= h[1].bytes, "%s (%s): repeated, with the same content: %ld blocks of %ld bytes held, then %ld blocks of %ld bytes", what.c_str(), seq ? "seq" : "user", h[1].blocks, h[1].bytes, h[4].blocks, h[4].bytes); CHECK(h[4].fds <= h[1].fds, "%s (%s): repeated: %ld open descriptors, then %ld", what.c_str(), seq ? "seq" : "user", h[1].fds, h[4].fds);
    l.close(); CHECK(inst_held(l.in).fds == 0, "%s: %ld descriptors are open after zdb_close", what.c_str(), inst_held(l.in).fds);
}
// files are ended by the size given to the library, as the daemon does
SUITE(lib_files) {
    Lib l; l.seq = choose(2, "mode"); l.datasize = 130; UserModel m; SeqModel q; l.open(); str trace; auto dp = [](int n) { return data_dir() + fmt("/d%d", n); }; auto ip = [](int n) { return index_dir() + fmt("/i%d", n); };
    auto last = [&] { int n = 0; while(vfs.exists(dp(n + 1)) || vfs.exists(ip(n + 1))) n++; for(int i = 0; i <= n; i++) CHECK(vfs.exists(dp(i)) && vfs.exists(ip(i)), "%s: one of the files of number %d is missing", trace.c_str(), i); CHECK(!vfs.exists(dp(n + 2)) && !vfs.exists(ip(n + 2)), "%s: a number is skipped after %d", trace.c_str(), n); return n; };
    for(int i = 0; i < tier_pick(4, 5); i++) {
        int o = last(); size_t here = vfs.read(dp(o)).size(); int op = choose(11, "op"), lo = 0, hi = 0;
        if(op < 8) {
            int kind = op % 4; bool second = op / 4; size_t len = kind == 0 ? 5 : kind == 1 ? (here <= 130 ? 130 - here : 0) : kind == 2 ? (here <= 130 ? 131 - here : 1) : 140; if(l.seq && second && !q.live.count(0)) { note_transition(); return; }
            str v(len, 'a' + i); bool same = !l.seq ? m.live.count(second ? "k2" : "k1") && m.live[second ? "k2" : "k1"].back().val == v : second && q.live[0].val == v; hi = here + len > 130; lo = same ? 0 : hi; trace += fmt("set of %zu bytes; ", len);
            if(!l.seq) { lib_uset(l, m, second ? "k2" : "k1", v); } else if(!second) lib_insert(l, q, v); else { LibReply r = l.op('s', le64(0), v); CHECK(!r.refused(), "update answers %s", r.show().c_str()); q.live[0] = {v, vnow()}; }
        }
        else if(op == 8) { trace += "delete; "; if(!l.seq) lib_udel(l, m, "k1"); else { l.op('d', le64(0)); if(q.live.erase(0)) q.dead.insert(0); } }
        else if(op == 9) { CHECK(l.nsop('j', "default") == 0, "namespace_jump"); trace += "jump; "; lo = hi = 1; }
        else { lib_again(l, choose(3, "how")); trace += "closed and opened; "; }
        int x = last(); CHECK(x - o >= lo && x - o <= hi, "%s: the active file goes from %d (%zu bytes) to %d", trace.c_str(), o, here, x); note_state(vfs.hash("/z"));
        if(l.seq) lib_sverify(l, q); else lib_verify(l, m, {"k1", "k2"});
    }
    l.close(); note_case(trace);
}
