// when files are ended and begun (P33), and what is served while closed data files are away (P34)
#include "world.h"
#include "explore.h"
typedef std::map<str, str> Snap;
// every number of the files of a kind, in a directory
static std::set<int> numbers(const Snap &s, const str &dir, char kind) { std::set<int> r; str p = dir + "/" + kind; for(auto &f : s) if(f.first.size() > p.size() && !f.first.compare(0, p.size(), p) && f.first.find_first_not_of("0123456789", p.size()) == str::npos) r.insert(atoi(f.first.c_str() + p.size())); return r; }
static str dpath(const str &ns, int n) { return data_dir(ns) + fmt("/d%d", n); }
struct Files {
    World w; size_t limit = 130; int rot = 0; struct Now { int last = 0; bool wrote = false, maybe = false; int64_t base = 0; }; std::map<str, Now> now;
    void fresh(const str &n) { now[n] = Now(); now[n].base = clock_us; }
    // the files of a namespace: numbers without a gap, as many of one kind as of the other, each with its own number in its header
    Snap shape() {
        Snap s = vfs.snapshot("/z");
        for(auto &n : w.ns) {
            const str &ns = n.first; auto d = numbers(s, data_dir(ns), 'd'), i = numbers(s, index_dir(ns), 'i'); CHECK(d == i, "%s: namespace %s has %zu data files and %zu index files", w.trace.c_str(), ns.c_str(), d.size(), i.size());
            CHECK(d.size() && *d.begin() == 0 && *d.rbegin() == (int) d.size() - 1, "%s: the numbers of the files of %s go from %d to %d, %zu files", w.trace.c_str(), ns.c_str(), d.empty() ? -1 : *d.begin(), d.empty() ? -1 : *d.rbegin(), d.size());
            for(int x : d) { const str &f = s[dpath(ns, x)], &g = s[index_dir(ns) + fmt("/i%d", x)]; CHECK(f.size() >= 28 && !f.compare(0, 4, "DAT0") && (int) rd32(f, 24) == x, "%s: the data file %d of %s has another header", w.trace.c_str(), x, ns.c_str()); CHECK(g.size() >= 29 && !g.compare(0, 4, "IDX0") && (int) rd32(g, 24) == x, "%s: the index file %d of %s has another header", w.trace.c_str(), x, ns.c_str()); }
        }
        return s;
    }
    int last(const Snap &s, const str &ns) { auto d = numbers(s, data_dir(ns), 'd'); return d.empty() ? -1 : *d.rbegin(); }
    void begin(const strs &extra) { if(!extra.empty() || rot) w.start(extra); else w.start(); for(auto &n : w.ns) fresh(n.first); shape(); }
    Reply exec(int c, const strs &a) {
        Snap before = vfs.snapshot("/z"); str sel = w.cli[c].ns; bool det = w.cli[c].detached; Reply r = w.exec(c, a); Snap after = shape(); bool ok = !r.err() && r.t != 'X';
        for(auto &n : w.ns) {
            const str &ns = n.first; bool mine = ns == sel && !det; int o = last(before, ns), x = last(after, ns), lo = 0, hi = 0; if(o < 0) { CHECK(a[0] == "NSNEW" && x == 0, "%s: the new namespace begins with file %d", w.trace.c_str(), x); fresh(ns); continue; }
            if(a[0] == "FLUSH" && ok && mine) { CHECK(x == 0 && after[dpath(ns, 0)].size() == 28, "%s: after FLUSH the active file is %d (%zu bytes)", w.trace.c_str(), x, after[dpath(ns, 0)].size()); fresh(ns); continue; }
            if(a[0] == "NSJUMP" && mine && ok) lo = hi = 1;
            if(a[0] == "SET" && mine) { bool over = before[dpath(ns, o)].size() + a[2].size() > limit; hi = over; if(ok && !r.nil()) lo = hi; }
            CHECK(x - o >= lo && x - o <= hi, "%s: the active file of %s goes from %d (%zu bytes) to %d with %s of %zu bytes, the limit is %zu", w.trace.c_str(), ns.c_str(), o, before[dpath(ns, o)].size(), x, a[0].c_str(), a.size() > 2 ? a[2].size() : (size_t) 0, limit);
            if(x != o) { now[ns].base = clock_us; now[ns].wrote = now[ns].maybe = false; }
            if(a[0] == "SET" && mine && ok && !r.nil()) { now[ns].wrote = true; const str &f = after[dpath(ns, x)]; size_t was = x == o ? before[dpath(ns, o)].size() : 28; CHECK(f.size() == was + 18 + r.s.size() + a[2].size(), "%s: the active file %d of %s has %zu bytes, it had %zu", w.trace.c_str(), x, ns.c_str(), f.size(), was); }
            if(a[0] == "DEL" && mine && ok) now[ns].maybe = true;
            if(a[0] == "RELOAD" && ok && a[1] == ns) fresh(ns);
        }
        return r;
    }
    void reboot(int how) { Snap before = vfs.snapshot("/z"); if(how == 2) { w.trace += "kill, start; "; w.d.crash(); w.cli.clear(); for(auto &n : w.ns) n.second.lock = 0; w.d.boot(); w.obs = w.d.conn(); note_transition(); } else w.reboot(how); Snap after = shape(); for(auto &n : w.ns) { CHECK(last(before, n.first) == last(after, n.first), "%s: the active file of %s goes from %d to %d", w.trace.c_str(), n.first.c_str(), last(before, n.first), last(after, n.first)); fresh(n.first); } }
    // time passes; then the server is idle for a moment, or busy
    void pass(int64_t us, bool busy, int c) {
        Snap before = vfs.snapshot("/z"); w.trace += fmt("%.1f s%s; ", us / 1e6, busy ? " of traffic" : ""); advance(us); if(busy) for(int i = 0; i < 220; i++) w.d.cmd(c, {"PING"}); else w.d.tick(2); Snap after = shape();
        for(auto &n : w.ns) {
            Now &s = now[n.first]; int o = last(before, n.first), x = last(after, n.first); double el = (clock_us - s.base) / 1e6;
            bool must = rot && s.wrote && el >= rot + 1, may = rot && (s.wrote || s.maybe) && el > rot;
            CHECK(x - o >= must && x - o <= may, "%s: %.2f s after its files were begun, %s, the active file of %s goes from %d to %d, --rotate %d", w.trace.c_str(), el, s.wrote ? "written to" : "not written to", n.first.c_str(), o, x, rot); if(x != o) { s.base = clock_us; s.wrote = s.maybe = false; }
        }
    }
};
static void files_size(int mode, bool quota, int depth) {
    Files f; f.w.mode = mode; f.w.keys = {"k1", "k2"}; f.limit = inst_set_datasize = 130; f.begin({}); int c = f.w.conn(); str sel = "default"; if(quota) { sel = "q"; for(auto &a : std::vector<strs>{{"NSNEW", "q"}, {"NSSET", "q", "maxsize", "160"}, {"NSSET", "q", "password", "pw"}, {"NSSET", "q", "public", "0"}, {"SELECT", "q", "pw"}}) f.exec(c, a); }
    for(int i = 0; i < depth; i++) {
        NsM &n = f.w.ns[sel]; size_t here = f.last(vfs.snapshot("/z"), sel) < 0 ? 0 : vfs.read(dpath(sel, f.last(vfs.snapshot("/z"), sel))).size(); int op = choose(quota ? 14 : 13, "op"); char ch = 'a' + i;
        if(op < 8) { // room for it, exactly as much, one byte more than that, more than any file can take
            int kind = op % 4, which = op / 4; size_t len = kind == 0 ? 5 : kind == 1 ? (here <= f.limit ? f.limit - here : 0) : kind == 2 ? (here <= f.limit ? f.limit + 1 - here : 1) : f.limit + 10; str key = mode == 0 ? fmt("k%d", which + 1) : which == 0 ? str() : le64(0);
            if(mode == 1 && which == 1 && !n.sq.live.count(0)) { note_transition(); return; } f.exec(c, {"SET", key, str(len, ch)});
        }
        else if(op == 8) f.exec(c, {"DEL", mode ? le64(0) : "k1"});
        else if(op == 9) f.exec(c, {"NSJUMP"});
        else if(op == 10) { if(param("sizes", 0)) { static const size_t ls[] = {130, 80, 250}; f.limit = inst_set_datasize = ls[choose(3, "limit")]; f.w.trace += fmt("limit %zu: ", f.limit); } f.reboot(choose(3, "how")); c = f.w.conn(); if(quota) f.exec(c, {"SELECT", "q", "pw"}); }
        else if(op == 11) f.exec(c, {"RELOAD", sel});
        else if(op == 12) { f.exec(c, {"SET", mode ? le64(0) : "k1", mode ? (n.sq.live.count(0) ? n.sq.live[0].val : str("none")) : n.kv.live.count("k1") ? n.kv.live["k1"].back().val : str("none")}); }
        else f.exec(c, {"FLUSH"});
        note_state(f.w.hash());
    }
    f.w.verify(); if(param("sizes", 0)) f.limit = inst_set_datasize = 60; f.reboot(0); f.w.verify(); note_case(f.w.trace);
}
SUITE(files_user) { files_size(0, false, tier_pick(4, 5) - (param("sizes", 0) ? 1 : 0)); }
SUITE(files_seq) { files_size(1, false, tier_pick(4, 5)); }
SUITE(files_quota) { files_size(choose(2, "mode"), true, tier_pick(3, 4)); }
// the limit given on the command line
SUITE(files_option) {
    static const struct { const char *arg; size_t limit; } ok[] = {{"524288", 524288}, {"512k", 524288}, {"0.5M", 524288}, {"600000", 600000}, {"1M", 1 << 20}, {nullptr, 256 << 20}};
    static const char *bad[] = {"524287", "511k", "4294967295", "4G", "1T", "-1", "junk", "", "1X", "0"};
    int x = choose(16, "option"); if(x >= 6) { Daemon d; d.extra = {"--mode", "user", "--datasize", bad[x - 6]}; RunStatus s = d.start(); CHECK(s == RS_EXIT && inst_exit_code(d.in) != 0, "the server starts with --datasize \"%s\"", bad[x - 6]); CHECK(vfs.snapshot("/z/data").empty(), "files are created by a server that refuses to start"); note_case(fmt("--datasize %s refused", bad[x - 6])); return; }
    int mode = choose(2, "mode"); Files f; f.w.mode = mode; f.w.keys = {"k1", "k2"}; f.limit = ok[x].limit; strs e; if(ok[x].arg) e = {"--datasize", ok[x].arg}; f.begin(e); int c = f.w.conn(); int first = choose(3, "first"), second = choose(3, "second");
    auto put = [&](const char *k, size_t n, char ch) { f.exec(c, {"SET", mode ? "" : k, str(n, ch)}); };
    // values up to what a request may hold
    if(!ok[x].arg) { put("k1", 3 << 20, 'a'); put("k2", 3 << 20, 'b'); put("k1", 5, 'c'); }
    else { size_t half = f.limit / 2; put("k1", half, 'a'); size_t left = f.limit - vfs.read(dpath("default", 0)).size(); put("k2", left + first - 1, 'b'); int n = f.last(vfs.snapshot("/z"), "default"); size_t s = vfs.read(dpath("default", n)).size(), room = s >= f.limit ? 0 : f.limit - s; put("k1", second == 0 ? room : second == 1 ? room + 1 : 0, 'c'); put("k2", 3, 'd'); }
    f.w.verify(false); f.reboot(1); f.w.verify(false); note_case(fmt("--datasize %s", ok[x].arg ? ok[x].arg : "default")); note_state(x * 64 + mode * 32 + first * 4 + second);
}
// files ended by the clock
SUITE(files_time) {
    Files f; f.w.mode = choose(2, "mode"); f.w.keys = {"k1"}; static const int secs[] = {1, 30, 2}; f.rot = secs[choose(tier_pick(2, 3), "rotate")]; f.limit = inst_set_datasize = 130; f.begin({"--rotate", fmt("%d", f.rot)}); int c = f.w.conn(), o = f.w.conn(); f.exec(o, {"NSNEW", "a"}); f.exec(o, {"SELECT", "a"}); bool seq = f.w.mode; int64_t S = 1000000;
    for(int i = 0; i < tier_pick(4, 5); i++) {
        int op = choose(11, "op");
        if(op < 2) f.exec(op ? o : c, {"SET", seq ? "" : "k1", str(20 + i, 'a' + i)}); else if(op == 2) f.exec(c, {"DEL", seq ? le64(0) : "k1"}); else if(op == 3) f.exec(o, {"NSJUMP"}); else if(op == 4) f.exec(o, {"RELOAD", "a"}); else if(op == 5) { f.reboot(choose(2, "how") * 2); c = f.w.conn(); o = f.w.conn(); f.exec(o, {"SELECT", "a"}); }
        else if(op == 6) f.pass(f.rot * S - S / 2, false, c); else if(op == 7) f.pass(f.rot * S + 3 * S / 2, false, c); else if(op == 8) f.pass(f.rot * S + 3 * S / 2, true, c); else if(op == 9) f.pass(S / 2, false, c); else f.exec(c, {"SET", seq ? "" : "k1", str(100, 'A' + i)});
        note_state(f.w.hash());
    }
    f.pass((f.rot + 2) * S, false, c); f.pass((f.rot + 2) * S, false, c); f.w.verify(); f.reboot(0); f.w.verify(); note_case(f.w.trace);
}
// without the option no file is ended by the clock
SUITE(files_still) {
    Files f; f.w.mode = choose(2, "mode"); f.w.keys = {"k1"}; f.limit = inst_set_datasize = 130; static const char *o[] = {nullptr, "--sync", "--verbose", "--secure"}; const char *x = o[choose(4, "option")]; f.begin(x ? strs{x} : strs{}); int c = f.w.conn(); f.exec(c, {"SET", f.w.mode ? "" : "k1", "v"});
    for(int i = 0; i < 3; i++) { int op = choose(4, "op"); if(op < 2) f.pass(op ? 86400000000LL * 400 : 3000000, false, c); else if(op == 2) f.pass(3600000000LL, true, c); else f.exec(c, {"SET", f.w.mode ? "" : "k1", fmt("v%d", i)}); } f.w.verify(); note_case(f.w.trace); note_state(f.w.hash());
}
// ---------------------------------------------------------------- P34
struct Away {
    Daemon d; int c = -1; bool seq = false; UserModel m; SeqModel q; strs keys{"k1", "k2"}; std::map<str, int> where; std::map<int, str> away; str trace; int lost = 0;
    int last() { auto i = numbers(vfs.snapshot("/z/index"), index_dir(), 'i'); return *i.rbegin(); }
    void set(const str &k, const str &v) {
        advance(1000000); bool gone = away.count(where.count(k) ? where[k] : -1) != 0; Reply r;
        if(!seq) { bool same = m.live.count(k) && m.live[k].back().val == v; r = d.cmd(c, {"SET", k, v}); trace += "SET " + k + " " + esc(v, 8) + "; "; if(same && !gone) CHECK(r.nil(), "%s: answers %s", trace.c_str(), r.show().c_str()); else { CHECK(r.bulk(k) || (same && r.nil()), "%s: answers %s", trace.c_str(), r.show().c_str()); if(!r.nil()) { m.set(k, v, vnow()); where[k] = last(); } } }
        else { bool same = !k.empty() && q.live[rd64(k, 0)].val == v; r = d.cmd(c, {"SET", k, v}); trace += (k.empty() ? str("insert ") : fmt("update %lu ", (unsigned long) rd64(k, 0))) + esc(v, 8) + "; "; if(k.empty()) { CHECK(r.t == '$' && r.s.size() == 8 && (!q.any || rd64(r.s, 0) > q.last), "%s: answers %s", trace.c_str(), r.show().c_str()); uint64_t id = rd64(r.s, 0); q.last = id; q.any = true; q.live[id] = {v, vnow()}; q.order.push_back(id); where[r.s] = last(); } else if(same && !gone) CHECK(r.nil(), "%s: answers %s", trace.c_str(), r.show().c_str()); else { CHECK(r.bulk(k) || (same && r.nil()), "%s: answers %s", trace.c_str(), r.show().c_str()); if(!r.nil()) { q.live[rd64(k, 0)] = {v, vnow()}; where[k] = last(); } } }
        note_transition();
    }
    void del(const str &k) { trace += "DEL " + esc(k, 10) + "; "; bool live = seq ? q.live.count(rd64(k, 0)) : m.live.count(k); Reply r = d.cmd(c, {"DEL", k}); if(!live) CHECK(r.err(), "%s: answers %s", trace.c_str(), r.show().c_str()); else { CHECK(r.ok(), "%s: answers %s", trace.c_str(), r.show().c_str()); if(seq) { uint64_t id = rd64(k, 0); q.live.erase(id); q.dead.insert(id); q.order.erase(std::remove(q.order.begin(), q.order.end(), id), q.order.end()); } else m.del(k); where.erase(k); } note_transition(); }
    void take(int f) { str p = dpath("default", f); away[f] = vfs.read(p); vfs.rm(p); trace += fmt("d%d away; ", f); }
    void back() { for(auto &f : away) { CHECK(!vfs.exists(dpath("default", f.first)), "%s: the missing file %d was created", trace.c_str(), f.first); vfs.put(dpath("default", f.first), f.second); } away.clear(); trace += "files back; "; }
    // everything but the payloads that are away
    void look() {
        for(auto &f : away) CHECK(!vfs.exists(dpath("default", f.first)), "%s: the missing file %d was created", trace.c_str(), f.first);
        if(away.empty()) { if(seq) verify_seq(d, c, q, V_ALL & ~V_HISTORY); else verify_user(d, c, m, keys, V_ALL); return; }
        if(seq) verify_seq(d, c, q, V_META | V_STATS | V_SCAN | V_RSCAN); else verify_user(d, c, m, keys, V_META | V_STATS | V_SCAN | V_RSCAN);
        if(!seq) { Reply r = d.cmd(c, {"KSCAN", "k"}); if(m.live.empty()) CHECK(r.err(), "%s: KSCAN answers %s", trace.c_str(), r.show().c_str()); else { std::set<str> got; if(r.t == '*' && r.a.size() == 2) for(auto &x : r.a[1].a) got.insert(x.t == '*' && x.a.size() ? x.a[0].s : x.s); std::set<str> want; for(auto &x : m.live) want.insert(x.first); CHECK(got == want, "%s: KSCAN answers %s", trace.c_str(), r.show().c_str()); } }
        strs ks; if(seq) { for(auto &x : q.live) ks.push_back(le64(x.first)); for(auto x : q.dead) ks.push_back(le64(x)); } else ks = keys; strs mg{"MGET"};
        for(auto &k : ks) {
            bool live = seq ? q.live.count(rd64(k, 0)) : m.live.count(k); str v = live ? (seq ? q.live[rd64(k, 0)].val : m.live[k].back().val) : str(); bool gone = live && away.count(where[k]); Reply g = d.cmd(c, {"GET", k}), h = d.cmd(c, {"CHECK", k}); mg.push_back(k);
            if(!live) { CHECK(g.nil(), "%s: GET of %s, deleted or never written, answers %s", trace.c_str(), esc(k, 10).c_str(), g.show().c_str()); continue; }
            if(gone) { CHECK(g.err() && !d.closed(c), "%s: the payload of %s is away, GET answers %s", trace.c_str(), esc(k, 10).c_str(), g.show().c_str()); CHECK(!h.is(1), "%s: the payload of %s is away, CHECK answers %s", trace.c_str(), esc(k, 10).c_str(), h.show().c_str()); }
            else { CHECK(g.bulk(v), "%s: GET %s answers %s", trace.c_str(), esc(k, 10).c_str(), g.show().c_str()); CHECK(h.is(1), "%s: CHECK %s answers %s", trace.c_str(), esc(k, 10).c_str(), h.show().c_str()); }
        }
        if(ks.empty()) return; Reply r = d.cmd(c, mg); CHECK(r.t == '*' && r.a.size() == ks.size(), "%s: MGET answers %s", trace.c_str(), r.show().c_str());
        for(size_t i = 0; i < ks.size(); i++) { const str &k = ks[i]; bool live = seq ? q.live.count(rd64(k, 0)) : m.live.count(k); if(!live) CHECK(r.a[i].nil(), "%s: MGET answers %s", trace.c_str(), r.show().c_str()); else if(away.count(where[k])) CHECK(r.a[i].err() || r.a[i].nil(), "%s: MGET answers %s", trace.c_str(), r.show().c_str()); else CHECK(r.a[i].bulk(seq ? q.live[rd64(k, 0)].val : m.live[k].back().val), "%s: MGET answers %s", trace.c_str(), r.show().c_str()); }
    }
    void run(int depth) {
        d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); c = d.conn(); str va = "first" + str(40, 'f'), vb = crc32c_partner(va); if(seq) { set("", va); set("", "second"); } else { set("k1", va); set("k2", "second"); } CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP");
        for(int i = 0; i < depth; i++) {
            int op = choose(12, "op"); std::vector<int> here; for(int f = 0; f < last(); f++) if(!away.count(f)) here.push_back(f);
            if(op < 4) { str v = op % 2 ? vb : va; if(seq && op >= 2 && !q.live.count(0)) { note_transition(); return; } set(seq ? (op < 2 ? str() : le64(0)) : keys[op / 2], v); }
            else if(op < 6) { if(seq && !q.live.count(op - 4) && !q.dead.count(op - 4)) { note_transition(); return; } del(seq ? le64(op - 4) : keys[op - 4]); }
            else if(op == 6) { CHECK(d.cmd(c, {"NSJUMP"}).ok(), "%s: NSJUMP", trace.c_str()); trace += "NSJUMP; "; note_transition(); }
            else if(op < 9) { if(here.empty() || (op == 8 && here.size() < 2)) { note_transition(); return; } take(op == 7 ? here.front() : here.back()); }
            else if(op == 9) { if(away.empty()) { note_transition(); return; } back(); }
            else if(op == 10) { int how = choose(3, "how"); trace += how == 0 ? "restart; " : how == 1 ? "SIGTERM and start; " : "kill and start; "; if(how == 2) d.crash(); else if(how == 1) d.term(); else d.stop(c); d.boot(); c = d.conn(); note_transition(); }
            else { CHECK(d.cmd(c, {"RELOAD", "default"}).ok(), "%s: RELOAD", trace.c_str()); trace += "RELOAD; "; note_transition(); }
            look(); note_state(vfs.hash("/z") ^ m.hash() ^ q.hash());
        }
        back(); look(); d.restart(); c = d.conn(); look(); note_case(trace);
    }
};
SUITE(away_user) { inst_set_datasize = param("size", 0); Away a; a.run(tier_pick(4, 5)); }
SUITE(away_seq) { inst_set_datasize = param("size", 0); Away a; a.seq = true; a.run(tier_pick(4, 5)); }
// a namespace with files away can be flushed, removed and used again
SUITE(away_remove) {
    World w; w.mode = choose(2, "mode"); w.keys = {"k1"}; w.start(); int c = w.conn(); for(auto &a : std::vector<strs>{{"NSNEW", "a"}, {"NSSET", "a", "password", "pw"}, {"NSSET", "a", "public", "0"}, {"SELECT", "a", "pw"}}) w.exec(c, a); str k = w.mode ? "" : "k1"; w.strict_fs = false;
    for(int i = 0; i < 3; i++) { w.exec(c, {"SET", k, fmt("v%d", i)}); w.exec(c, {"NSJUMP"}); } w.exec(c, {"SET", k, "last"}); int mask = 1 + choose(7, "away"); for(int f = 0; f < 3; f++) if(mask >> f & 1) vfs.rm(dpath("a", f)); w.trace += fmt("files %d away; ", mask); if(choose(2, "restart")) { w.d.restart(); w.trace += "restart; "; w.obs = w.d.conn(); for(auto &n : w.ns) n.second.lock = 0; w.cli.clear(); c = w.conn(); w.exec(c, {"SELECT", "a", "pw"}); }
    int how = choose(2, "how"); if(how == 0) w.exec(c, {"FLUSH"}); else { int o = w.conn(); w.exec(o, {"NSDEL", "a"}); if(choose(2, "again")) { w.exec(o, {"NSNEW", "a"}); c = o; w.exec(c, {"SELECT", "a"}); } }
    auto d = numbers(vfs.snapshot("/z/data"), data_dir("a"), 'd'); CHECK(d.size() == w.ns.count("a"), "%s: %zu data files are left", w.trace.c_str(), d.size()); w.verify(); if(w.ns.count("a")) { w.exec(c, {"SET", k, "after"}); w.verify(); } w.reboot(); w.verify(); note_case(w.trace); note_state(w.hash());
}
// ---------------------------------------------------------------- P35: file systems that refuse every change
struct ReadOnly {
    Daemon d; int c = -1, o = -1; bool seq = false; UserModel m, ma; SeqModel q, qa; strs keys{"k1", "k2"}; str trace; int which = 0;
    const char *names[3] = {"data", "index", "both"};
    void look(const char *when) {
        try { if(seq) { verify_seq(d, c, q, V_ALL & ~V_HISTORY); verify_seq(d, o, qa, V_ALL & ~V_HISTORY & ~V_STATS); } else { verify_user(d, c, m, keys, V_ALL); verify_user(d, o, ma, keys, V_ALL & ~V_STATS); } } catch(Crashed &) { fail("%s(%s): the server dies", trace.c_str(), when); } catch(Exited &e) { fail("%s(%s): the server ends with code %d", trace.c_str(), when, e.code); }
        Reply l = d.cmd(c, {"NSLIST"}); CHECK(l.t == '*' && l.a.size() == 2, "%s: NSLIST answers %s", trace.c_str(), l.show().c_str());
    }
    void conns() { c = d.conn(); o = d.conn(); CHECK(d.cmd(o, {"SELECT", "a", "pw"}).ok(), "%s: SELECT", trace.c_str()); }
    void turn(bool on) { vfs.ro_dirs.clear(); if(on) { if(which != 1) vfs.ro_dirs.push_back("/z/data"); if(which != 0) vfs.ro_dirs.push_back("/z/index"); } }
    void stop(int how) { if(how == 2) d.crash(); else if(how == 1) d.term(); else d.stop(c); }
    void run(int depth, int more) {
        d.extra = {"--mode", seq ? "seq" : "user"}; if(param("rotate", 0)) { d.extra.push_back("--rotate"); d.extra.push_back("1"); } if(param("sync", 0)) d.extra.push_back("--sync"); d.boot(); c = d.conn(); CHECK(d.cmd(c, {"NSNEW", "a"}).ok() && d.cmd(c, {"NSSET", "a", "password", "pw"}).ok() && d.cmd(c, {"NSSET", "a", "public", "0"}).ok(), "NSNEW"); d.cmd(c, {"SELECT", "default"}); o = d.conn(); CHECK(d.cmd(o, {"SELECT", "a", "pw"}).ok(), "SELECT");
        if(seq) { seq_insert(d, c, q, "first"); seq_insert(d, o, qa, "other"); } else { user_set(d, c, m, "k1", "first"); user_set(d, o, ma, "k2", "other"); }
        for(int i = 0; i < depth; i++) {
            int op = choose(5, "before"); advance(1000000); if(op == 0) { if(seq) seq_insert(d, c, q, fmt("v%d", i)); else user_set(d, c, m, "k1", fmt("v%d", i)); trace += "write; "; } else if(op == 1) { if(seq) { if(!q.live.count(0)) return; seq_update(d, c, q, 0, fmt("u%d", i)); } else user_set(d, c, m, "k2", fmt("v%d", i)); trace += "other write; "; }
            else if(op == 2) { if(seq) { if(!q.live.count(0)) return; seq_del(d, c, q, 0); } else { if(!m.live.count("k1")) return; user_del(d, c, m, "k1"); } trace += "delete; "; } else if(op == 3) { CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); trace += "jump; "; } else { CHECK(d.cmd(o, {"NSJUMP"}).ok(), "NSJUMP"); trace += "jump in a; "; }
        }
        which = choose(3, "which"); bool running = choose(2, "running"); if(!running) { int how = choose(3, "how"); trace += how == 0 ? "STOP; " : how == 1 ? "SIGTERM; " : "kill; "; stop(how); } turn(true); trace += fmt("read-only (%s); ", names[which]); Snap dd = vfs.snapshot("/z/data"), ii = vfs.snapshot("/z/index");
        if(!running) { RunStatus s = d.start(); if(s != RS_IDLE) fail("%s: the server does not start", trace.c_str()); conns(); } look("read-only");
        for(int i = 0; i < more; i++) {
            int op = choose(which == 2 ? 13 : 11, "op"); strs a; int at = c; bool must = true; advance(1000000);
            if(op == 0) a = {"SET", seq ? "" : "k1", fmt("refused-%d", i)}; else if(op == 1) a = {"SET", seq ? le64(0) : "k2", fmt("refused-%d", i)}; else if(op == 2) a = {"DEL", seq ? le64(0) : "k1"}; else if(op == 3) { a = {"SET", seq ? "" : "k1", "refused"}; at = o; } else if(op == 4) a = {"NSJUMP"}; else if(op == 5) a = {"NSNEW", "b"};
            else if(op == 6) { a = {"NSSET", "a", "maxsize", "1000"}; must = which != 0; } else if(op == 7) { a = {"RELOAD", "default"}; must = false; } else if(op == 8) { trace += "idle; "; d.tick(2); look("idle"); continue; } else if(op == 9) { int how = choose(2, "how"); trace += how ? "kill and start; " : "STOP and start; "; stop(how * 2); if(d.start() != RS_IDLE) fail("%s: the server does not start", trace.c_str()); conns(); look("again"); continue; }
            else if(op == 10) { a = {"SET", seq ? le64(0) : "k1", seq ? (q.live.count(0) ? q.live[0].val : str("x")) : m.live.count("k1") ? m.live["k1"].back().val : str("x")}; must = !(seq ? q.live.count(0) : m.live.count("k1"));  }
            else if(op == 11) { a = {"FLUSH"}; at = o; } else { a = {"NSDEL", "a"}; }
            Reply r; try { r = d.cmd(at, a); } catch(Crashed &) { fail("%s%s: the server dies", trace.c_str(), a[0].c_str()); } catch(Exited &e) { fail("%s%s: the server ends with code %d", trace.c_str(), a[0].c_str(), e.code); }
            trace += a[0] + " " + (a.size() > 1 ? esc(a[1], 10) : str()) + "; "; if(must) CHECK(r.err(), "%s: answers %s", trace.c_str(), r.show().c_str()); else if(op == 10) CHECK(r.nil(), "%s: the value is identical, answers %s", trace.c_str(), r.show().c_str()); else CHECK(r.ok(), "%s: answers %s", trace.c_str(), r.show().c_str()); if(op == 12) conns(); note_transition(); look("after the command"); note_state(vfs.hash("/z") ^ m.hash() ^ q.hash());
        }
        if(which != 1) { Snap x = vfs.snapshot("/z/data"); CHECK(x == dd, "%s: the data files have changed", trace.c_str()); } if(which != 0) { Snap x = vfs.snapshot("/z/index"); CHECK(x == ii, "%s: the index files have changed", trace.c_str()); }
        // writable again, the server continuing or started again
        bool goes_on = running && choose(2, "goes on"); if(!goes_on) { stop(choose(3, "end")); turn(false); trace += "writable, start; "; d.boot(); conns(); } else { turn(false); trace += "writable; "; } look("writable");
        if(!goes_on) { if(seq) { seq_insert(d, c, q, "later"); seq_insert(d, o, qa, "later"); } else { user_set(d, c, m, "k1", "later"); user_set(d, o, ma, "k1", "later"); } look("written again"); d.restart(); conns(); look("restarted"); } note_case(trace);
    }
};
SUITE(ro_user) { ReadOnly r; r.run(tier_pick(1, 2), 2); }
SUITE(ro_seq) { ReadOnly r; r.seq = true; r.run(tier_pick(1, 2), 2); }
// nothing to serve yet: the server refuses to start and creates nothing
SUITE(ro_empty) {
    Daemon d; int which = 1 + choose(3, "which"); d.extra = {"--mode", choose(2, "mode") ? "seq" : "user"}; if(which & 1) vfs.ro_dirs.push_back("/z/data"); if(which & 2) vfs.ro_dirs.push_back("/z/index"); if(choose(2, "directories")) { vfs.mkdirs("/z/data"); vfs.mkdirs("/z/index"); }
    RunStatus s = d.start(); CHECK(s != RS_CRASH, "the server crashes on an empty read-only file system (%d)", which); CHECK(s == RS_EXIT && inst_exit_code(d.in) != 0, "the server starts with nothing to serve on a read-only file system (%d)", which); vfs.ro_dirs.clear(); d.boot(); int c = d.conn(); CHECK(d.cmd(c, {"PING"}).t == '+', "PING"); note_case(fmt("read-only %d", which)); note_state(which);
}

// ---------------------------------------------------------------- P28: what is not ours
// one header of one file is not of this program or not of this version: the server refuses to start, or serves the rest, and changes nothing
SUITE(foreign_user) {
    Daemon d; bool seq = choose(2, "mode"); d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(), o; UserModel m, mn; SeqModel q, qn; strs keys{"k1", "k2"}; str trace;
    CHECK(d.cmd(c, {"NSNEW", "n"}).ok(), "NSNEW"); CHECK(d.cmd(c, {"NSSET", "n", "password", "pw"}).ok(), "NSSET"); o = d.conn(); CHECK(d.cmd(o, {"SELECT", "n", "pw"}).ok(), "SELECT"); int files = choose(3, "files");
    for(int i = 0; i <= files; i++) { if(i) { CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); CHECK(d.cmd(o, {"NSJUMP"}).ok(), "NSJUMP"); } int w = choose(3, "writes"); if(seq) { if(w) { seq_insert(d, c, q, fmt("v%d", i)); seq_insert(d, o, qn, fmt("n%d", i)); } if(w > 1) { seq_insert(d, c, q, "more"); seq_update(d, o, qn, 0, "again"); } } else { if(w) { user_set(d, c, m, "k1", fmt("v%d", i)); user_set(d, o, mn, "k2", fmt("n%d", i)); } if(w > 1) { user_set(d, c, m, "k2", "more"); user_del(d, o, mn, "k2"); } } }
    bool kill = choose(2, "kill"); if(kill) d.crash(); else d.stop(c);
    auto look = [&](bool first, bool second, const char *when) { logf("%s", when); if(first) { if(seq) verify_seq(d, c, q, V_ALL & ~V_HISTORY); else verify_user(d, c, m, keys, V_ALL); } if(second) { if(seq) verify_seq(d, o, qn, V_ALL & ~V_HISTORY & ~V_STATS); else verify_user(d, o, mn, keys, V_ALL & ~V_STATS); } };
    const char *ns = choose(2, "namespace") ? "n" : "default"; int what = choose(4, "what"), id = choose(files + 1, "file"); str path = what == 2 ? str("/z/index/") + ns + "/zdb-namespace" : what == 3 ? str("/z/index/") + ns + "/zdb-index-00000" : fmt("/z/index/%s/i%d", ns, id); if(what >= 2 && id) return; str old = vfs.exists(path) ? vfs.read(path) : str();
    if(what == 0) { str x = old; x[choose(4, "letter")] ^= 0x20; vfs.put(path, x); trace = "letter of "; } else if(what == 1) { str x = old; static const uint32_t vs[] = {0, 1, 2, 4, 0x10000003, 0xffffffff}; uint32_t v = vs[choose(6, "version")]; if(v == rd32(x, 4)) return; x.replace(4, 4, le32(v)); vfs.put(path, x); trace = fmt("version %u of ", v); } else if(what == 2) { str x = old; static const uint32_t vs[] = {0, 2, 9, 0x01000001, 0xffffffff}; uint32_t v = vs[choose(5, "version")]; if(v == rd32(x, 0)) return; x.replace(0, 4, le32(v)); vfs.put(path, x); trace = fmt("version %u of ", v); } else { vfs.put(path, "something older"); trace = "existing "; } trace += path; logf("%s", trace.c_str());
    Snap before = vfs.snapshot("/z/data"); { Snap i = vfs.snapshot("/z/index"); before.insert(i.begin(), i.end()); } auto same = [&](const char *when) { Snap now = vfs.snapshot("/z/data"); { Snap i = vfs.snapshot("/z/index"); now.insert(i.begin(), i.end()); } for(auto &f : before) CHECK(now.count(f.first) && now[f.first] == f.second, "%s: %s is changed %s", trace.c_str(), f.first.c_str(), when); for(auto &f : now) CHECK(before.count(f.first), "%s: %s is created %s", trace.c_str(), f.first.c_str(), when); };
    RunStatus r = d.start(); note_transition(); CHECK(r != RS_CRASH, "%s: the server crashes", trace.c_str());
    if(r == RS_EXIT) { CHECK(inst_exit_code(d.in) != 0, "%s: the server ends without an error", trace.c_str()); same("by the refused start"); note_case(trace + ": refused"); }
    else {
        CHECK(what == 2 && ns[0] == 'n', "%s: the server starts", trace.c_str()); c = d.conn(); o = d.conn(); CHECK(d.cmd(o, {"SELECT", "n", "pw"}).err(), "%s: the namespace is served", trace.c_str()); Reply n = d.cmd(c, {"NSNEW", "n"}); CHECK(n.err(), "%s: NSNEW over the existing files answers %s", trace.c_str(), n.show().c_str()); CHECK(d.cmd(c, {"NSLIST"}).a.size() == 1, "%s: NSLIST", trace.c_str()); look(true, false, "the other namespace"); if(choose(2, "kill at the end")) d.crash(); else d.stop(c); same("by the server"); note_case(trace + ": skipped");
    }
    if(what == 3) vfs.rm(path); else vfs.put(path, old); d.boot(); c = d.conn(); o = d.conn(); CHECK(d.cmd(o, {"SELECT", "n", "pw"}).ok(), "SELECT"); look(true, true, "put right again"); note_state(vfs.hash("/z"));
}
// the same directory twice, however it is written
SUITE(foreign_same) {
    Daemon d; d.extra = {"--mode", choose(2, "mode") ? "seq" : "user"}; bool used = choose(2, "used before"); UserModel m; if(used) { d.boot(); int c = d.conn(); d.stop(c); } static const char *ways[] = {"/z/data", "/z/data/", "/z/./data", "/z/index/../data", "//z//data", "/z/data/."}; str other = ways[choose(6, "way")]; if(!used && other.find("index") != str::npos) return; bool swap = choose(2, "swap"); Snap before = vfs.snapshot("/z");
    strs keep = d.extra; d.extra.push_back(swap ? "--data" : "--index"); d.extra.push_back(other); if(swap) { d.extra.push_back("--index"); d.extra.push_back("/z/data"); } RunStatus r = d.start(); note_transition(); CHECK(r == RS_EXIT && inst_exit_code(d.in) != 0, "data and index in %s: the server %s", other.c_str(), r == RS_CRASH ? "crashes" : "starts"); Snap now = vfs.snapshot("/z"); CHECK(now == before, "data and index in %s: files are created or changed", other.c_str()); d.extra = keep; d.boot(); int c = d.conn(); CHECK(d.cmd(c, {"PING"}).t == '+', "PING"); d.stop(c); note_case(other); note_state(fnvs(other));
}
