// replication channels: DATA RAW walks and MIRROR streams
#include "hist.h"
#include "world.h"

struct RawRec { str id, val; bool nil = false; long long prev = 0, flags = 0, ts = 0; str crc; int file = 0; uint32_t off = 0; };
static std::vector<RawRec> raw_walk(Daemon &d, int c, const str &how) {
    std::vector<RawRec> out;
    for(int f = 0;; f++) {
        uint32_t off = 28; bool any = false;
        for(int guard = 0;; guard++) {
            if(guard > 500) fail("%s: DATA RAW never ends", how.c_str());
            Reply r = d.cmd(c, {"DATA", "RAW", fmt("%d", f), fmt("%u", off)});
            if(r.err()) { if(r.s == "EOF") { any = true; break; } if(off == 28 && !any && r.has("Invalid Request")) return out; fail("%s: DATA RAW %d %u answers %s", how.c_str(), f, off, r.show().c_str()); }
            CHECK(r.t == '*' && r.a.size() == 6 && r.a[0].t == '$' && r.a[1].t == ':' && r.a[2].t == '$' && r.a[3].t == ':' && r.a[4].t == ':' && (r.a[5].t == '$' || r.a[5].nil()), "%s: DATA RAW %d %u answers %s", how.c_str(), f, off, r.show().c_str());
            RawRec x; x.id = r.a[0].s; x.prev = r.a[1].n; x.crc = r.a[2].s; x.flags = r.a[3].n; x.ts = r.a[4].n; x.nil = r.a[5].nil(); x.val = r.a[5].s; x.file = f; x.off = off; out.push_back(x); any = true; off += 18 + x.id.size() + (x.nil ? 0 : x.val.size());
        }
    }
}
static void raw_compare(const std::vector<RawRec> &got, const std::vector<Rec> &want, const std::vector<Rec> &stored, const str &how) {
    CHECK(got.size() == want.size(), "%s: the walk returns %zu records instead of %zu", how.c_str(), got.size(), want.size());
    for(size_t i = 0; i < got.size(); i++) {
        const RawRec &g = got[i]; const Rec &w = want[i]; str at = fmt("%s: record %zu", how.c_str(), i);
        CHECK(g.id == w.id, "%s has the key %s instead of %s", at.c_str(), esc(g.id).c_str(), esc(w.id).c_str()); CHECK(g.flags == (w.del ? 1 : 0), "%s has the flags %lld for a %s", at.c_str(), g.flags, w.del ? "deletion" : "value");
        if(w.del) CHECK(g.nil || g.val.empty(), "%s is a deletion with the payload %s", at.c_str(), esc(g.val, 40).c_str()); else CHECK(!g.nil && g.val == w.val, "%s has the payload %s instead of %s", at.c_str(), g.nil ? "nil" : esc(g.val, 40).c_str(), esc(w.val, 40).c_str());
        CHECK(g.ts == w.ts, "%s has the timestamp %lld instead of %ld", at.c_str(), g.ts, (long) w.ts); if(!w.del) CHECK(g.crc == fmt("0x%08x", crc32z(w.val)), "%s has the checksum %s", at.c_str(), g.crc.c_str());
        CHECK(g.prev == stored[i].prev, "%s has the previous offset %lld instead of %u", at.c_str(), g.prev, stored[i].prev);
    }
}
// what a replica does with the records: same keys, same values
static void replay(const std::vector<RawRec> &recs, Hist &h, const str &how) {
    Daemon b(inst_second()); b.dir = "/y"; vfs.mkdirs("/y"); b.extra = {"--mode", h.seq ? "seq" : "user"}; b.boot(); int c = b.conn(); std::set<str> known;
    for(auto &r : recs) {
        if(r.flags) { Reply x = b.cmd(c, {"DEL", r.id}); CHECK(x.ok(), "%s: the replica answers %s to a replayed deletion", how.c_str(), x.show().c_str()); continue; }
        if(!h.seq || known.count(r.id)) { Reply x = b.cmd(c, {"SET", r.id, r.val, fmt("%lld", r.ts)}); CHECK(x.bulk(r.id) || x.nil(), "%s: the replica answers %s to a replayed value", how.c_str(), x.show().c_str()); }
        else { Reply x = b.cmd(c, {"SET", "", r.val, fmt("%lld", r.ts)}); CHECK(x.bulk(r.id), "%s: the replica gives the id %s instead of %s", how.c_str(), x.show().c_str(), esc(r.id).c_str()); known.insert(r.id); }
    }
    if(h.seq) verify_seq(b, c, h.q, V_GET | V_META | V_CHECK | V_SCAN | V_RSCAN); else verify_user(b, c, h.m, h.keys, V_GET | V_META | V_CHECK | V_STATS | V_HISTORY); b.stop(c);
}
static void raw_history(bool seq, int depth, const strs &extras, std::vector<str> vals, long datasize, const strs &args) {
    Hist h; h.seq = seq; h.vals = vals; h.extras = extras; inst_set_datasize = datasize; h.start(args);
    for(int i = 0; i < depth; i++) { h.step(); note_state(h.hash() ^ vfs.hash("/z/data")); }
    auto recs = raw_walk(h.d, h.c, h.trace); raw_compare(recs, h.log, parse_log(), h.trace); note_case(h.trace);
    replay(recs, h, h.trace); h.verify(V_BASIC);
}
SUITE(raw_user) { raw_history(false, tier_pick(5, 6), {"NSJUMP"}, {"v1", ""}, 0, {}); }
SUITE(raw_user_life) { raw_history(false, tier_pick(4, 5), {"NSJUMP", "RELOAD", "STOP", "KILL"}, {"v1", "value-2"}, 0, {}); }
SUITE(raw_files) { raw_history(false, tier_pick(5, 6), {"STOP"}, {str(30, 'a'), str(61, 'b')}, 150, {}); }
SUITE(raw_seq) { raw_history(true, tier_pick(4, 5), {"NSJUMP", "RELOAD", "KILL"}, {"v1", "value-2"}, 0, {}); }
// keys and payloads of every size class, and the walk of a namespace that is not the default one
SUITE(raw_sizes) {
    Daemon d; d.boot(); int c = d.conn(); bool named = choose(2, "namespace"); if(named) { CHECK(d.cmd(c, {"NSNEW", "n"}).ok(), "NSNEW"); CHECK(d.cmd(c, {"SET", "other", "x"}).bulk("other"), "SET"); CHECK(d.cmd(c, {"SELECT", "n"}).ok(), "SELECT"); }
    static const size_t ks[] = {1, 8, 254, 255}, vs[] = {0, 1, 255, 256, 500, 8192, 70000}; std::vector<Rec> log;
    for(int i = 0; i < 2; i++) { Rec r; r.id = str(ks[choose(4, "key size")], '\n'); int v = choose(8, "payload size"); if(i) r.id[0] = '\r'; advance(1000000); r.ts = vnow(); if(v == 7) { Reply x = d.cmd(c, {"SET", r.id, "gone"}); CHECK(x.bulk(r.id), "SET"); r.val = "gone"; log.push_back(r); r.val = ""; r.del = true; CHECK(d.cmd(c, {"DEL", r.id}).ok(), "DEL"); } else { r.val = str(vs[v], '\r'); for(size_t k = 0; k < r.val.size(); k++) r.val[k] = k * 13 + k / 256; CHECK(d.cmd(c, {"SET", r.id, r.val}).bulk(r.id), "SET"); } log.push_back(r); if(choose(2, "jump")) CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); }
    str how = "sizes"; auto recs = raw_walk(d, c, how); raw_compare(recs, log, parse_log(named ? "n" : "default"), how); note_state(vfs.hash("/z/data")); note_case(fmt("%zu records", recs.size()));
}

// ---------------------------------------------------------------- MIRROR
struct Msg { int64_t ts; str ns; str owner; strs args; str show() const { str s = ns + ":"; for(auto &a : args) s += " " + esc(a, 24); return s; } };
static std::vector<Msg> parse_stream(const str &b, const str &how) {
    std::vector<Msg> out; size_t p = 0; bool bad = false;
    while(p < b.size()) { Reply r; if(!resp_parse(b, p, r, &bad)) fail("%s: the mirror receives a malformed or incomplete message: %s", how.c_str(), esc(b.substr(p), 200).c_str());
        CHECK(r.t == '*' && r.a.size() >= 4 && r.a[0].t == ':' && r.a[1].t == '$' && (r.a[2].t == ':' || r.a[2].t == '$'), "%s: the mirror receives %s", how.c_str(), r.show().c_str()); Msg m; m.ts = r.a[0].n; m.ns = r.a[1].s; m.owner = r.a[2].t == ':' ? fmt("%lld", r.a[2].n) : r.a[2].s; for(size_t i = 3; i < r.a.size(); i++) { CHECK(r.a[i].t == '$', "%s: the mirror receives %s", how.c_str(), r.show().c_str()); m.args.push_back(r.a[i].s); } out.push_back(m); }
    return out;
}
static bool same_msgs(const std::vector<Msg> &g, const std::vector<Msg> &w, str &why) {
    str gs, ws; for(auto &m : g) gs += m.show() + "; "; for(auto &m : w) ws += m.show() + "; "; why = "receives [" + gs + "] instead of [" + ws + "]";
    if(g.size() != w.size()) return false; for(size_t i = 0; i < g.size(); i++) { if(g[i].ns != w[i].ns || g[i].args != w[i].args) return false; if(g[i].ts != w[i].ts) { why = fmt("receives the time %ld instead of %ld", (long) g[i].ts, (long) w[i].ts); return false; } if(w[i].owner.size() && g[i].owner != w[i].owner) { why = "receives the owner " + g[i].owner + " instead of " + w[i].owner; return false; } } return true;
}
SUITE(mirror_stream) {
    // clients 0 and 1 (1 may become a replication source), mirrors 2 and 3
    Daemon d; d.boot(); int c[4]; for(int i = 0; i < 4; i++) c[i] = d.conn(); str ns[4]; for(auto &n : ns) n = "default"; bool mir[4] = {0}, gone[4] = {0}, master = false; std::set<str> all{"default"}; std::vector<Msg> want[4]; str got[4], how, self; 
    CHECK(d.cmd(c[0], {"NSNEW", "n"}).ok(), "NSNEW"); all.insert("n"); int slow = choose(2, "slow"); int budget = slow ? tier_pick(1, 2) : 0;
    if(slow) send_hook = [&](VSock &k, long n) -> long { if((k.id != c[2] && k.id != c[3]) || budget <= 0 || n <= 1) return n; int x = choose(4, "accept"); if(!x) return n; budget--; return x == 1 ? 0 : x == 2 ? 1 : n - 1; };
    static const std::vector<strs> cmds{{"SET", "k", "v"}, {"SET", "k", str("a\r\n\0$3", 6)}, {"GET", "k"}, {"set", "bin", str(300, '\xff')}, {"DEL", "k"}, {"SELECT", "n"}, {"SELECT", "default"}, {"NOSUCH", "x"}, {"SET", "k"}, {"NSNEW", "m"}, {"SET", "e", ""}, {"PING"}};
    for(int step = 0; step < param("depth", tier_pick(3, 4)); step++) {
        int op = choose(2 * (int) cmds.size() + 2 + 2 + 2, "op"); advance(1500000); note_transition();
        auto sent = [&](int i, const strs &a, const str &owner) { str u; for(auto ch : a[0]) u += toupper(ch); if(u == "NOSUCH") return; for(int k = 0; k < 4; k++) if(k != i && mir[k] && !gone[k]) want[k].push_back({vnow(), ns[i], owner, a}); };
        if(op < 2 * (int) cmds.size()) {
            int i = op % 2; strs a = cmds[op / 2], raw = a; str owner; if(i == 1 && master) { raw.push_back("77"); owner = "77"; } how += fmt(" [%d]", i); for(auto &x : raw) how += " " + esc(x, 12); how += ";";
            d.push(c[i], resp_cmd(raw)); d.run(); str out = d.take(c[i]); Reply r; size_t p = 0; bool bad = false; CHECK(resp_parse(out, p, r, &bad) && p == out.size(), "%s: the client gets %s", how.c_str(), esc(out, 100).c_str());
            if(a[0] == "SELECT" && r.ok()) ns[i] = a[1]; if(a[0] == "NSNEW" && r.ok()) all.insert(a[1]); sent(i, a, owner);
        } else if((op -= 2 * cmds.size()) < 2) { int k = 2 + op; if(gone[k] || mir[k]) return; how += fmt(" [%d]MIRROR;", k); d.push(c[k], resp_cmd({"MIRROR"})); d.run(); sent(k, {"MIRROR"}, ""); mir[k] = true; budget = 0; for(int t = 0; t < 5 && socks[c[k]]->was_full; t++) { sock_writable(d.in, c[k], -1); d.run(); } str o = d.take(c[k]); CHECK(o.size() && o[0] == '+', "%s: answers %s", how.c_str(), esc(o).c_str()); budget = slow ? tier_pick(1, 2) : 0; }
        else if(op < 4) { int k = op; if(gone[k]) return; how += fmt(" [%d]hangup;", k); gone[k] = true; d.hangup(c[k], choose(2, "reset")); }
        else if(op == 4) { if(master) return; how += " [1]MASTER;"; Reply r = d.cmd(c[1], {"MASTER"}); CHECK(r.t == '+', "MASTER answers %s", r.show().c_str()); sent(1, {"MASTER"}, "-"); for(int k = 0; k < 4; k++) if(want[k].size() && want[k].back().args[0] == "MASTER") want[k].back().owner = ""; master = true; }
        else { // two requests in one packet
            strs a = {"SET", "p", fmt("%d", step)}, b = {"GET", "p"}; how += " [0]SET p, GET p;"; d.push(c[0], resp_cmd(a) + resp_cmd(b)); d.run(); CHECK(d.take(c[0]) == "$1\r\np\r\n$1\r\n" + fmt("%d", step) + "\r\n", "%s: wrong replies", how.c_str()); sent(0, a, ""); sent(0, b, ""); }
        for(int k = 2; k < 4; k++) { if(!gone[k]) got[k] += d.take(c[k]); if(!slow && !gone[k]) { str why; CHECK(same_msgs(parse_stream(got[k], how), want[k], why), "%s: mirror %d %s", how.c_str(), k, why.c_str()); } }
        note_state(fnvs(ns[0] + ns[1] + fmt("%d%d%d%d%d%d", mir[2], mir[3], gone[2], gone[3], master, budget)) ^ vfs.hash("/z"));
    }
    budget = 0; for(int t = 0; t < 50; t++) for(int k = 2; k < 4; k++) if(!gone[k] && socks[c[k]]->was_full) { sock_writable(d.in, c[k], -1); d.run(); } d.tick(1);
    for(int k = 2; k < 4; k++) if(!gone[k]) { got[k] += d.take(c[k]); auto g = parse_stream(got[k], how); str why; CHECK(same_msgs(g, want[k], why), "%s: mirror %d %s", how.c_str(), k, why.c_str()); for(size_t i = 0; i < g.size(); i++) if(want[k][i].owner.empty()) { CHECK(g[i].owner != "0" && g[i].owner != "77", "%s: a regular request has the owner %s", how.c_str(), g[i].owner.c_str()); if(self.empty()) self = g[i].owner; CHECK(self == g[i].owner, "%s: regular requests have the owners %s and %s", how.c_str(), self.c_str(), g[i].owner.c_str()); } }
    send_hook = nullptr; for(int i = 0; i < 2; i++) { strs q{"PING"}; if(i == 1 && master) q.push_back("77"); Reply r = d.cmd(c[i], q); CHECK(r.t == '+', "%s: then PING answers %s", how.c_str(), r.show().c_str()); } note_case(how);
}
// requests of every number of arguments and of every length class, from regular clients and replication sources, in namespaces with short and long names
SUITE(mirror_sizes) {
    static const int ns_len[] = {1, 9, 10, 99, 100, 127, 128}; Daemon d; d.boot(); int c = d.conn(), m = d.conn(); CHECK(d.cmd(m, {"MIRROR"}).t == '+', "MIRROR"); str name = "default"; int nl = choose(8, "namespace"); str how;
    if(nl) { name = str(ns_len[nl - 1], 'n'); CHECK(d.cmd(c, {"NSNEW", name}).ok(), "NSNEW"); CHECK(d.cmd(c, {"SELECT", name}).ok(), "SELECT"); } str owner; int ow = choose(4, "source"); if(ow) { CHECK(d.cmd(c, {"MASTER"}).t == '+', "MASTER"); static const char *os[] = {"1", "77", "4294967295"}; owner = os[ow - 1]; } d.take(m); advance(7000000);
    int kind = choose(3, "kind"); strs q; if(kind == 0) { int n = 1 + choose(tier_pick(70, 130), "arguments"); int l = choose(2, "length"); q.push_back("MGET"); for(int i = 0; i < n; i++) q.push_back(l ? fmt("key%d", i) : str("k")); } else if(kind == 1) { static const int ls[] = {0, 1, 9, 10, 99, 100, 255}; q = {"MGET"}; for(int i = 0; i < 3; i++) q.push_back(str(ls[choose(7, "length")], "\r\n$*"[i % 4])); } else { static const int ls[] = {0, 1, 9, 10, 99, 100, 999, 1000, 4095, 8180, 9999, 10000, 65536, 100000, 1000000}; str v(ls[choose(15, "payload")], 'v'); for(size_t i = 0; i < v.size(); i++) v[i] = i * 7 + i / 251; q = {"SET", "key", v}; }
    how = fmt("%s with %zu arguments of %zu bytes", q[0].c_str(), q.size(), q.back().size()); strs raw = q; if(ow) raw.push_back(owner); Reply r = d.cmd(c, raw); note_transition(); str out = d.take(m); for(int t = 0; t < 200 && socks[m]->was_full; t++) { sock_writable(d.in, m, -1); d.run(); out += d.take(m); }
    auto l = parse_stream(out, how); CHECK(l.size() == 1, "%s: the mirror receives %zu messages", how.c_str(), l.size()); CHECK(l[0].args == q && l[0].ns == name && l[0].ts == vnow() && (!ow || l[0].owner == owner), "%s: the mirror receives %s", how.c_str(), l[0].show().substr(0, 300).c_str());
    strs ping{"PING"}; if(ow) ping.push_back(owner); r = d.cmd(c, ping); CHECK(r.t == '+', "%s: then PING answers %s", how.c_str(), r.show().c_str()); l = parse_stream(d.take(m), how); CHECK(l.size() == 1 && l[0].args == strs{"PING"}, "%s: then the mirror does not receive PING", how.c_str()); note_state(fnvs(how)); note_case(how);
}
// deletion of namespaces, with clients inside
SUITE(mirror_namespaces) {
    Daemon d; d.boot(); int a = d.conn(), b = d.conn(), m = d.conn(); str na = "default", nb = "default"; bool exists = false, ga = false, gb = false; Reply r = d.cmd(m, {"MIRROR"}); CHECK(r.t == '+', "MIRROR"); str how; bool mn = false; (void) mn;
    for(int step = 0; step < tier_pick(5, 6); step++) {
        int op = choose(7, "op"); advance(1000000); bool w = op >= 4; int i = w ? b : a; str &n = w ? nb : na; bool &g = w ? gb : ga; if(g) return; strs q = op == 0 ? strs{"NSNEW", "n"} : op == 1 ? strs{"NSDEL", "n"} : op == 2 ? strs{"SELECT", "n"} : op == 3 ? strs{"SET", "k", "a"} : op == 4 ? strs{"SELECT", "n"} : op == 5 ? strs{"SET", "k", "b"} : strs{"NSDEL", "n"};
        for(auto &x : q) how += " " + x; how += w ? " (second client);" : ";"; str was = n; r = d.cmd(i, q); note_transition(); bool det = n == "!"; if(det) { CHECK(r.err(), "%s: answers %s after the deletion of the namespace", how.c_str(), r.show().c_str()); g = d.closed(i); auto l = parse_stream(d.take(m), how); for(auto &x : l) CHECK(0, "%s: the mirror receives %s", how.c_str(), x.show().c_str()); continue; }
        if(q[0] == "SELECT" && r.ok()) n = "n"; if(q[0] == "NSNEW") { CHECK(r.ok() == !exists, "%s: %s", how.c_str(), r.show().c_str()); exists = true; }
        if(q[0] == "NSDEL") { if(r.ok()) { exists = false; if(na == "n") na = "!"; if(nb == "n") nb = "!"; } }
        auto l = parse_stream(d.take(m), how); CHECK(l.size() == 1, "%s: the mirror receives %zu messages", how.c_str(), l.size()); CHECK(l[0].args == q, "%s: the mirror receives %s", how.c_str(), l[0].show().c_str()); CHECK(l[0].ns == (n == "!" ? was : n) || n == "!", "%s: the mirror receives %s", how.c_str(), l[0].show().c_str());
        note_state(fnvs(na + nb + fmt("%d", exists)));
    }
    note_case(how);
}
// the stream applied on another instance gives the same content
SUITE(mirror_replica) {
    bool seq = choose(2, "mode"); Daemon d, e(inst_second()); d.extra = {"--mode", seq ? "seq" : "user"}; e.extra = d.extra; e.dir = "/y"; vfs.mkdirs("/y"); d.boot(); e.boot(); int c = d.conn(), m = d.conn(), t = e.conn(); CHECK(d.cmd(m, {"MIRROR"}).t == '+', "MIRROR"); CHECK(e.cmd(t, {"MASTER"}).t == '+', "MASTER"); UserModel u[2]; SeqModel q[2]; str trace; int cur = 0; bool have = false; strs keys{"k1", "k2"}, vals{"v1", str("\0\r\n", 3)}; str selected = "default";
    int em = e.conn(); CHECK(e.cmd(em, {"MIRROR"}).t == '+', "MIRROR"); d.take(m);
    for(int step = 0; step < tier_pick(4, 5); step++) {
        int op = choose(8, "op"); note_transition();
        if(op < 4) { if(!seq) user_set(d, c, u[cur], keys[op / 2], vals[op % 2]); else if(op < 2) seq_insert(d, c, q[cur], vals[op]); else { if(q[cur].any == false) return; seq_update(d, c, q[cur], 0, vals[op % 2]); } } else if(op == 4) { if(!seq) user_del(d, c, u[cur], "k1"); else { if(!q[cur].any) return; seq_del(d, c, q[cur], 0); } }
        else if(op == 5) { Reply r = d.cmd(c, {"NSNEW", "n"}); CHECK(r.ok() == !have, "NSNEW answers %s", r.show().c_str()); have = true; } else if(op == 6) { if(!have) return; CHECK(d.cmd(c, {"SELECT", cur ? "default" : "n"}).ok(), "SELECT"); cur = !cur; } else { CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); }
        // db-mirror: writes are forwarded in their namespace with the owner
        std::vector<Msg> fwd;
        for(auto &x : parse_stream(d.take(m), trace)) { str cmd; for(auto ch : x.args[0]) cmd += toupper(ch); if(cmd != "SET" && cmd != "DEL" && cmd != "NSNEW" && cmd != "NSDEL") continue; if(cmd != "NSNEW" && x.ns != selected) { CHECK(e.cmd(t, {"SELECT", x.ns, x.owner}).ok(), "SELECT of %s on the replica", x.ns.c_str()); selected = x.ns; } strs a = x.args; a.push_back(x.owner); fwd.push_back(x); e.cmd(t, a); }
        // and the replica's own mirror tells the same requests, still owned by the source
        auto echo = parse_stream(e.take(em), trace); size_t k = 0; for(auto &x : echo) { if(x.args[0] == "SELECT") continue; CHECK(k < fwd.size() && x.args == fwd[k].args && x.owner == fwd[k].owner && (x.args[0] == "NSNEW" || x.ns == fwd[k].ns), "the mirror of the replica receives %s (owner %s)", x.show().c_str(), x.owner.c_str()); k++; } CHECK(k == fwd.size(), "the mirror of the replica receives %zu requests instead of %zu", k, fwd.size());
    }
    for(int i = 0; i < 2; i++) { if(i && !have) break; int x = e.conn(); if(i) CHECK(e.cmd(x, {"SELECT", "n"}).ok(), "the replica has no namespace n"); if(seq) { verify_seq(e, x, q[i], V_GET | V_CHECK); Reply r = e.cmd(x, {"DBSIZE"}); CHECK(r.is(q[i].live.size()), "the replica has %s entries", r.show().c_str()); } else { verify_user(e, x, u[i], keys, V_GET | V_CHECK); Reply r = e.cmd(x, {"DBSIZE"}); CHECK(r.is(u[i].live.size()), "the replica has %s entries", r.show().c_str()); } } note_state(vfs.hash("/y")); note_case(trace);
}
