// suites over one user-key namespace: maps, restarts, scan, history, accounting
#include "model.h"
#include "explore.h"

static strs base_keys() { str ka = "abcde"; return {ka, crc32c_partner(ka), "abcd"}; }
static strs crc_vals() { str v = "value-one"; return {v, crc32c_partner(v), "", "longer-value-number-two"}; }

void user_explore(const UserCfg &g) {
    Daemon d; d.extra = {"--mode", "user"}; for(auto &x : g.args) d.extra.push_back(x);
    inst_set_datasize = g.datasize;
    d.boot(); int c = d.conn();
    UserModel m; str trace;
    int nk = g.keys.size(), nv = g.vals.size();
    for(int step = 0; step < g.depth; step++) {
        int nops = nk * nv + nk + g.jump + g.reload + g.restart + g.term;
        int op = choose(nops, "op");
        if(op < nk * nv) { trace += fmt("SET k%d v%d; ", op / nv, op % nv); user_set(d, c, m, g.keys[op / nv], g.vals[op % nv]); }
        else if((op -= nk * nv) < nk) { trace += fmt("DEL k%d; ", op); user_del(d, c, m, g.keys[op]); }
        else if((op -= nk) < g.jump) { trace += "NSJUMP; "; Reply r = d.cmd(c, {"NSJUMP"}); CHECK(r.ok(), "NSJUMP answers %s", r.show().c_str()); }
        else if((op -= g.jump) < g.reload) { trace += "RELOAD; "; Reply r = d.cmd(c, {"RELOAD", "default"}); CHECK(r.ok(), "RELOAD answers %s", r.show().c_str()); }
        else if((op -= g.reload) < g.restart) { trace += "STOP+start; "; d.stop(c); note_transition(); d.boot(); c = d.conn(); }
        else { trace += "SIGTERM+start; "; d.term(); note_transition(); d.boot(); c = d.conn(); }
        if(g.each || step == g.depth - 1) verify_user(d, c, m, g.keys, g.verify);
        note_state(vfs.hash("/z") ^ m.hash());
    }
    if(g.final_restart) { trace += "STOP+start; "; d.restart(); c = d.conn(); verify_user(d, c, m, g.keys, g.verify); }
    note_case(trace);
}

// ---- P01
SUITE(map_ops) { UserCfg g; g.keys = base_keys(); g.vals = crc_vals(); g.depth = tier_pick(4, 5); g.jump = 1; g.verify = V_BASIC; user_explore(g); }
SUITE(map_deep) { UserCfg g; g.keys = {"k1", "k2"}; g.vals = {"v1", "v2"}; g.depth = tier_pick(6, 7); g.jump = 1; g.verify = V_GET | V_META; user_explore(g); }
SUITE(map_files) { UserCfg g; g.keys = {"k1", "k2"}; g.vals = {str(40, 'x'), str(60, 'y'), "z"}; g.depth = tier_pick(5, 6); g.datasize = 120; g.verify = V_BASIC; user_explore(g); }
// file numbers around 2^16
SUITE(far_user) { first_jumps = 65534 + choose(2, "files"); UserCfg g; g.keys = {"k1", "k2"}; g.vals = {"v1"}; g.depth = tier_pick(3, 4); g.jump = g.restart = 1; g.verify = V_ALL; user_explore(g); }
SUITE(map_default_table) { bucket_bits = 0; UserCfg g; g.keys = base_keys(); g.vals = {"v1", "v2"}; g.depth = 3; g.jump = 1; g.verify = V_BASIC; user_explore(g); }
// keys and values which only differ where a careless comparison stops looking: same checksum, same bucket, common prefix up to a NUL, leading zero bytes
SUITE(map_nul) { str z("a\0bcdefgh", 10), w = z.substr(0, 2) + crc32c_partner(z.substr(2)); UserCfg g; if(choose(2, "alphabet")) { g.keys = {z, w, str("a\0", 2)}; g.vals = {"v1", str("v\0" "1", 3)}; } else { g.keys = {"k", str("k\0", 2)}; g.vals = {"", str(1, '\0'), str(3, '\0'), str("\0v", 2), "v"}; } g.depth = tier_pick(4, 5); g.jump = 1; g.verify = V_BASIC; user_explore(g); }
SUITE(map_edges) {
    // key and value shapes: every pair of edge keys, in every small order of writes and deletions
    strs edge{"a", str("a\0", 2), "aa", str("\r\n$3\r\n", 6), str("\xff\x00\xfe", 3), "*", str(254, 'k'), str(255, 'k'), str(254, 'k') + "l", "A", str(8, '\0')};
    strs vals{"", "x", str("\r\n\0\xff", 4), "-ERR", "$-1\r\n", str(8191, 'q'), str(8192, 'r'), str(70000, 's')};
    int a = choose(edge.size(), "key1"), b = choose(edge.size(), "key2");
    Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(); UserModel m; strs keys{edge[a], edge[b]};
    if(a == b) {
        for(auto &v : vals) { user_set(d, c, m, edge[a], v); verify_user(d, c, m, keys, V_BASIC); }
        for(int bad : {256, 257, 300, 511, 512, 1024, 5000}) {
            str k(bad, 'k'); Reply r = d.cmd(c, {"SET", k, "oversized"}); CHECK(r.err(), "SET with a key of %d bytes answers %s", bad, r.show().c_str());
            for(auto cmd : {"GET", "DEL", "EXISTS", "LENGTH", "KEYTIME", "CHECK"}) { r = d.cmd(c, {cmd, k}); CHECK(r.err() || r.nil() || r.is(0), "%s with a key of %d bytes answers %s", cmd, bad, r.show().c_str()); if(str(cmd) == "DEL") CHECK(r.err(), "DEL with a key of %d bytes answers %s", bad, r.show().c_str()); }
            verify_user(d, c, m, keys, V_BASIC | V_STATS);
        }
        Reply r = d.cmd(c, {"SET", "", "v"}); CHECK(r.err(), "SET with an empty key answers %s", r.show().c_str());
        for(auto cmd : {"GET", "DEL", "EXISTS", "LENGTH", "KEYTIME", "CHECK"}) { r = d.cmd(c, {cmd, ""}); CHECK(r.err() || r.nil(), "%s with an empty key answers %s", cmd, r.show().c_str()); }
        verify_user(d, c, m, keys, V_BASIC | V_STATS);
        note_case(fmt("values and bad keys on %s", esc(edge[a], 20).c_str())); note_state(m.hash());
        return;
    }
    str trace;
    for(int step = 0; step < tier_pick(3, 4); step++) {
        int op = choose(6, "op");
        if(op < 4) user_set(d, c, m, keys[op / 2], vals[(op % 2) ? 2 : (a + b) % vals.size()]); else user_del(d, c, m, keys[op - 4]);
        trace += fmt("op%d ", op); verify_user(d, c, m, keys, V_BASIC); note_state(vfs.hash("/z"));
    }
    note_case(trace);
}
// ---- P03
SUITE(restart_ops) { UserCfg g; g.keys = {"k1", "k2"}; g.vals = {"v1", "other"}; g.depth = tier_pick(5, 6); g.jump = g.reload = g.restart = g.term = 1; g.final_restart = true; g.verify = V_BASIC | V_STATS; user_explore(g); }
SUITE(restart_collide) { UserCfg g; g.keys = base_keys(); g.vals = crc_vals(); g.depth = tier_pick(3, 4); g.jump = g.reload = g.restart = 1; g.final_restart = true; g.verify = V_BASIC | V_STATS; user_explore(g); }
// every combination of settings on every kind of name, then two clean restarts
#include "world.h"
SUITE(restart_settings) {
    static const strs names{"n", ".n", "..n", "a b", "default2", "i0", "d1", ".lockfile", "zdb-namespace", "-", "*", "\xff\xfe", "N\r\n", "tmp~", "#n", str(128, 'n')}; static const strs sizes{"", "0", "1", "100", "2147483647", "2147483648", "4294967295", "4294967296", "5368709120", "1099511627776", "9223372036854775807"}; static const strs passes{"", "p", "a b", str(63, 'q'), "\xff\x01", "*"};
    World w; w.mode = choose(2, "mixed") ? 2 : 0; w.start(); w.keys = {"k1", "k2"}; int a = w.conn(); int full = choose(3, "varying"); str n = names[choose(full == 0 ? names.size() : 2, "name")], sz = sizes[choose(full == 1 ? sizes.size() : 3, "maxsize")], pw = passes[choose(full == 2 ? passes.size() : 2, "password")]; int pub = choose(3, "public"), worm = choose(3, "worm"), sq = w.mode == 2 ? choose(2, "seq") : 0, order = choose(2, "order"), restart = choose(2, "signal");
    w.exec(a, {"NSNEW", "before"}); w.exec(a, {"NSNEW", n}); w.exec(a, {"NSNEW", "after"}); std::vector<strs> set; if(sq) w.exec(a, {"NSSET", n, "mode", "seq"}); if(sz.size()) set.push_back({"NSSET", n, "maxsize", sz}); if(pw.size()) set.push_back({"NSSET", n, "password", pw}); if(pub) set.push_back({"NSSET", n, "public", fmt("%d", pub - 1)}); if(worm) set.push_back({"NSSET", n, "worm", fmt("%d", worm - 1)}); if(order) std::reverse(set.begin(), set.end());
    if(choose(2, "write first")) { w.exec(a, {"SELECT", n}); w.exec(a, {"SET", sq ? str("") : str("k1"), "v"}); w.exec(a, {"SELECT", "default"}); for(auto &c : set) w.exec(a, c); } else { for(auto &c : set) w.exec(a, c); w.exec(a, pw.empty() || pw == "*" ? strs{"SELECT", n} : strs{"SELECT", n, pw}); w.exec(a, {"SET", sq ? str("") : str("k1"), "v"}); }
    for(int r = 0; r < 2; r++) { w.reboot(restart); w.verify(); a = w.conn(); w.exec(a, {"NSINFO", n}); w.exec(a, {"SELECT", n}); w.exec(a, {"SET", sq ? str("") : str("k2"), "x"}); w.exec(a, pw.empty() || pw == "*" ? strs{"SELECT", n} : strs{"SELECT", n, pw}); w.exec(a, {"SET", sq ? str("") : str("k1"), "longer"}); w.exec(a, {"SELECT", "default"}); w.verify(); if(r == 0 && set.size()) { auto c = set.back(); if(c[2] == "maxsize") c[3] = "77"; if(c[2] == "password") c[3] = "short"; if(c[2] == "public" || c[2] == "worm") c[3] = c[3] == "0" ? "1" : "0"; if(c[2] == "password") pw = c[3]; w.exec(a, c); } }
    note_case(w.trace);
}
// ---- P06
SUITE(scan_user) { UserCfg g; g.keys = {"k1", "k2", "k3"}; g.vals = {"v1", "longer"}; g.depth = tier_pick(4, 5); g.jump = g.reload = g.restart = 1; g.verify = V_SCAN | V_RSCAN; user_explore(g); }
// ---- P07
SUITE(history_user) { UserCfg g; g.keys = {"k1", "k2"}; g.vals = {"v1", "longer"}; g.depth = tier_pick(5, 6); g.jump = g.reload = g.restart = 1; g.verify = V_HISTORY; user_explore(g); }
// cursors of HISTORY: only the owner's are accepted, whatever the key looks like
SUITE(history_cursor) {
    Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(); UserModel m; str trace, k255(255, 'k');
    strs keys = choose(2, "alphabet") ? strs{k255, k255.substr(0, 254)} : strs{"a", "ab"}, vals{"v1", "longer"};
    struct Cur { str key; Ver v; }; std::map<str, Cur> curs;
    auto collect = [&] { for(auto &p : m.live) { str cur; for(size_t n = p.second.size(); n > 1; n--) { Reply r = cur.empty() ? d.cmd(c, {"HISTORY", p.first}) : d.cmd(c, {"HISTORY", p.first, cur}); CHECK(r.t == '*' && r.a.size() == 3 && r.a[0].t == '$', "HISTORY %s answers %s at version %zu", esc(p.first, 8).c_str(), r.show().c_str(), n); cur = r.a[0].s; curs[cur] = {p.first, p.second[n - 2]}; } } };
    for(int step = 0, n = tier_pick(5, 6); step < n; step++) {
        int op = choose(8, "op");
        if(op < 4) { trace += fmt("SET k%d v%d; ", op / 2, op % 2); user_set(d, c, m, keys[op / 2], vals[op % 2]); }
        else if(op < 6) { trace += fmt("DEL k%d; ", op - 4); user_del(d, c, m, keys[op - 4]); }
        else if(op == 6) { trace += "NSJUMP; "; d.cmd(c, {"NSJUMP"}); }
        else { trace += "STOP+start; "; d.stop(c); d.boot(); c = d.conn(); }
        if(op < 4) collect();
        note_state(vfs.hash("/z") ^ m.hash());
    }
    strs who = keys; for(str x : {str(), str("b"), str("a\0", 2), str("A"), keys[0] + str(256, 'x'), keys[1] + str(256, 'x'), str(256, 'a'), str(257, 'a'), keys[0] + str(512, 'x')}) who.push_back(x);
    for(auto &k : who) {
        if(!m.live.count(k)) { Reply r = d.cmd(c, {"HISTORY", k}); CHECK(r.err(), "HISTORY of the missing key %s answers %s", esc(k, 8).c_str(), r.show().c_str()); }
        for(auto &q : curs) {
            Reply r = d.cmd(c, {"HISTORY", k, q.first});
            if(k != q.second.key) { CHECK(r.err(), "HISTORY of %s (%zu bytes) with a cursor of %s answers %s  [%s]", esc(k, 8).c_str(), k.size(), esc(q.second.key, 8).c_str(), r.show().c_str(), trace.c_str()); continue; }
            bool in = false; if(m.live.count(k)) for(auto &v : m.live.at(k)) in = in || (v.ts == q.second.v.ts && v.val == q.second.v.val);
            CHECK((r.err() && !in) || (r.t == '*' && r.a.size() == 3 && r.a[2].bulk(q.second.v.val) && r.a[1].s == fmt("%ld", (long) q.second.v.ts)), "HISTORY of %s with its cursor answers %s instead of \"%s\"  [%s]", esc(k, 8).c_str(), r.show().c_str(), q.second.v.val.c_str(), trace.c_str());
        }
    }
    verify_user(d, c, m, keys, V_HISTORY); note_case(trace);
}
// keys longer than any key can be: their tail or head is a key that exists
SUITE(long_keys) {
    static const int lens[] = {1, 2, 8, 44, 254, 255}; static const char *cmds[] = {"GET", "MGET", "EXISTS", "LENGTH", "CHECK", "KEYTIME", "KEYCUR", "HISTORY", "DEL", "SET", "SETX"};
    Daemon d; bool seq = choose(2, "mode"); d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(); UserModel m; SeqModel q; str key(lens[choose(6, "length")], 'k');
    if(seq) { if(key.size() != 8) return; for(int i = 0; i < 2; i++) { key = seq_insert(d, c, q, fmt("v%d", i)); } } else { user_set(d, c, m, key, "v1"); if(choose(2, "file")) d.cmd(c, {"NSJUMP"}); user_set(d, c, m, "other", "v2"); }
    str cmd = cmds[choose(11, "command")]; int extra = 256 << choose(6, "extra"); if(choose(2, "less one")) extra = 256 - key.size(); str lk = choose(2, "side") ? key + str(extra, 'k') : str(extra, 'k') + key;
    str before = fmt("%lu", (unsigned long) vfs.hash("/z"));
    Reply r = cmd == "SET" ? d.cmd(c, {cmd, lk, "bad"}) : cmd == "SETX" ? d.cmd(c, {"SET", lk, "bad", "5"}) : d.cmd(c, {cmd, lk});
    bool wr = cmd[0] == 'S' || cmd == "DEL" || cmd == "KEYCUR" || cmd == "HISTORY";
    CHECK(r.err() || (!wr && (r.nil() || r.is(0) || (r.t == '*' && r.a.size() == 1 && (r.a[0].nil() || r.a[0].err())))), "%s of a key of %zu bytes answers %s", cmd.c_str(), lk.size(), r.show().c_str());
    CHECK(before == fmt("%lu", (unsigned long) vfs.hash("/z")), "%s of a key of %zu bytes changes the files", cmd.c_str(), lk.size());
    if(seq) verify_seq(d, c, q, V_BASIC); else verify_user(d, c, m, {key, "other"}, V_BASIC | V_STATS);
    note_case(fmt("%s %zu", cmd.c_str(), lk.size())); note_state(m.hash() ^ fnvs(lk));
}
// ---- P15
SUITE(stats_user) { UserCfg g; g.keys = {"k1", "k2"}; g.vals = {"", "abc", "longer"}; g.depth = tier_pick(4, 5); g.jump = g.reload = g.restart = 1; g.verify = V_STATS; user_explore(g); }
// the enumeration cut by the scan time slice at every possible point, with changes between two slices
static void scan_slices(bool seq, bool changes) {
    Daemon d; d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(); UserModel m; str trace; strs ids; int n = 0;
    // one written order, keyed by id in sequential mode: an update there keeps its place
    auto ts = [] { advance(1000000); return vnow(); };
    auto write = [&](const str &k, bool fresh) { int64_t t = ts(); str v = fmt("v%d", n++) + str(n, '.'); Reply r = d.cmd(c, {"SET", seq && fresh ? str("") : k, v}); CHECK(r.t == '$' && r.s.size(), "SET answers %s", r.show().c_str()); str key = r.s; if(seq && !fresh) m.live[key].push_back({v, t}); else { m.set(key, v, t); if(fresh) ids.push_back(key); } };
    auto del = [&](const str &k) { ts(); Reply r = d.cmd(c, {"DEL", k}); CHECK(r.ok(), "DEL answers %s", r.show().c_str()); m.del(k); };
    auto fresh = [&] { write(fmt("key-%zu", ids.size()), true); };
    int base = choose(3, "base"); for(int i = 0; i < 2 + base; i++) { fresh(); if(base == 2 && i == 1) { d.cmd(c, {"NSJUMP"}); d.cmd(c, {"NSJUMP"}); } } trace = fmt("base %d; ", base);
    auto op = [&](int o) { if(o == 0) { trace += "new; "; fresh(); } else if(o == 1) { trace += "jump; "; CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); } else { size_t k = (o - 2) / 2; if(k >= ids.size() || !m.live.count(ids[k])) return; if(o & 1) { trace += fmt("del #%zu; ", k); del(ids[k]); } else { trace += fmt("set #%zu; ", k); write(ids[k], false); } } };
    int depth = changes ? tier_pick(1, 2) : tier_pick(2, 3); for(int i = 0; i < depth; i++) op(choose(8, "op"));
    bool fwd = choose(2, "direction") == 0; const char *cmd = fwd ? "SCAN" : "RSCAN"; trace += str(cmd) + ": "; int mode = changes ? 0 : choose(3, "expiry"); int left = mode == 2 ? 0 : tier_pick(1, 2), muts = changes ? 1 : 0; int skew = mode == 1; int period = mode == 2 ? 1 + choose(40, "period") : 0, reads = 0; if(period) trace += fmt("every %d reads ", period); std::set<str> touched; strs order0 = m.order; std::set<std::pair<str, long long>> seen; strs got; str cur;
    for(int page = 0;; page++) {
        CHECK(page < 60, "%s%s never ends", trace.c_str(), cmd);
        clock_hook = [&] { if(period && ++reads % period == 0) clock_us += 2500; if(left && choose(2, "slice ends")) { left--; trace += "x"; clock_us += skew ? -3600000000ll : 2500; } };
        Reply r = cur.empty() ? d.cmd(c, {cmd}) : d.cmd(c, {cmd, cur}); clock_hook = nullptr; note_transition();
        if(r.err()) { CHECK(r.has("No more data"), "%s: %s answers %s", trace.c_str(), cmd, r.show().c_str()); break; }
        CHECK(r.t == '*' && r.a.size() == 2 && r.a[1].t == '*' && r.a[1].a.size(), "%s: %s answers %s", trace.c_str(), cmd, r.show().c_str()); trace += fmt("[%zu] ", r.a[1].a.size());
        for(auto &e : r.a[1].a) { auto &k = e.a[0].s; CHECK(m.live.count(k), "%s: %s lists the missing key %s", trace.c_str(), cmd, esc(k).c_str()); auto &v = m.live[k].back(); CHECK(e.a[1].n == (long long) v.val.size() && e.a[2].n == (long long) v.ts, "%s: %s lists %s with size %lld and timestamp %lld instead of %zu and %ld", trace.c_str(), cmd, esc(k).c_str(), e.a[1].n, e.a[2].n, v.val.size(), (long) v.ts); CHECK(seen.insert({k, e.a[2].n}).second, "%s: %s lists %s twice", trace.c_str(), cmd, esc(k).c_str()); got.push_back(k); }
        cur = r.a[0].s; str last = r.a[1].a.back().a[0].s;
        if(muts && choose(2, "change")) { muts--; int o = choose(2 + 2 * ids.size(), "what"); if(o >= 2) { size_t k = (o - 2) / 2; if(m.live.count(ids[k])) { if(seq && !(o & 1) && ids[k] == last) continue; touched.insert(ids[k]); } } op(o); }
    }
    if(!fwd) std::reverse(order0.begin(), order0.end()); strs want, have; for(auto &k : order0) if(!touched.count(k)) want.push_back(k); std::set<str> ws(want.begin(), want.end()); for(auto &k : got) if(ws.count(k)) have.push_back(k);
    str g, w; for(auto &k : have) g += esc(k) + " "; for(auto &k : want) w += esc(k) + " "; CHECK(have == want, "%s: %s lists [%s] instead of [%s]", trace.c_str(), cmd, g.c_str(), w.c_str());
    if(fwd && !seq) for(auto &k : m.live) CHECK(seen.count({k.first, (long long) k.second.back().ts}), "%s: %s never lists the current version of %s", trace.c_str(), cmd, esc(k.first).c_str());
    note_case(trace); note_state(vfs.hash("/z") ^ fnvs(trace));
}
SUITE(scan_slices_user) { scan_slices(false, false); }
SUITE(scan_slices_seq) { scan_slices(true, false); }
SUITE(scan_moving_user) { scan_slices(false, true); }
SUITE(scan_moving_seq) { scan_slices(true, true); }
// every cursor ever given (by KEYCUR, SCAN and RSCAN) stays good whatever happens to its key: the enumeration goes on from that place
static void cursors(bool seq) {
    Daemon d; d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(); str trace; struct V { str key; size_t len; int64_t ts; bool live; }; std::vector<V> all; std::map<str, size_t> cur;   // every version in the order of its place, the place of every cursor
    std::map<str, size_t> at; int n = 0; auto ts = [] { advance(1000000); return vnow(); };
    auto write = [&](const str &k) { int64_t t = ts(); bool known = k.size() && at.count(k) && all[at[k]].live; str v = fmt("v%d", n++) + str(n, '.'); Reply r = d.cmd(c, {"SET", k, v}); CHECK(r.t == '$' && r.s.size(), "%s: SET answers %s", trace.c_str(), r.show().c_str()); if(seq && known) { all[at[k]].len = v.size(); all[at[k]].ts = t; return; } if(known) all[at[k]].live = false; at[r.s] = all.size(); all.push_back({r.s, v.size(), t, true}); };
    auto note = [&](const str &s, size_t p) { auto i = cur.find(s); CHECK(i == cur.end() || i->second == p || seq, "%s: one cursor stands for two places", trace.c_str()); cur[s] = p; };
    auto collect = [&] {
        std::vector<size_t> live; for(size_t i = 0; i < all.size(); i++) if(all[i].live) live.push_back(i);
        for(auto i : live) { Reply r = d.cmd(c, {"KEYCUR", all[i].key}); CHECK(r.t == '$' && r.s.size(), "%s: KEYCUR %s answers %s", trace.c_str(), esc(all[i].key).c_str(), r.show().c_str()); note(r.s, i); }
        for(auto &x : at) if(!all[x.second].live) { Reply r = d.cmd(c, {"KEYCUR", x.first}); CHECK(r.err(), "%s: KEYCUR of the deleted %s answers %s", trace.c_str(), esc(x.first).c_str(), r.show().c_str()); }
        for(auto cmd : {"SCAN", "RSCAN"}) { Reply r = d.cmd(c, {cmd}); if(live.empty()) CHECK(r.err(), "%s: %s answers %s", trace.c_str(), cmd, r.show().c_str()); else { CHECK(r.t == '*' && r.a.size() == 2, "%s: %s answers %s", trace.c_str(), cmd, r.show().c_str()); note(r.a[0].s, cmd[0] == 'S' ? live.back() : live[0]); } }
    };
    auto verify = [&] {
        for(auto &x : cur) for(auto cmd : {"SCAN", "RSCAN", "SCANX"}) {
            std::vector<size_t> want; for(size_t i = 0; i < all.size(); i++) if(all[i].live && (cmd[0] == 'S' ? i > x.second : i < x.second)) want.push_back(i); if(cmd[0] == 'R') std::reverse(want.begin(), want.end());
            Reply r = d.cmd(c, {cmd, x.first}); str w = fmt("%s: %s from the cursor given for %s (%zu)", trace.c_str(), cmd, esc(all[x.second].key).c_str(), x.second); note_transition();
            if(want.empty()) { CHECK(r.err() && r.has("No more data"), "%s answers %s: nothing follows", w.c_str(), r.show().c_str()); continue; }
            CHECK(r.t == '*' && r.a.size() == 2 && r.a[1].a.size() == want.size(), "%s answers %s: %zu entries follow", w.c_str(), r.show().c_str(), want.size());
            for(size_t i = 0; i < want.size(); i++) { V &v = all[want[i]]; auto &e = r.a[1].a[i]; CHECK(e.a.size() == 3 && e.a[0].s == v.key && e.a[1].n == (long long) v.len && e.a[2].n == v.ts, "%s: entry %zu is %s instead of %s", w.c_str(), i, e.show().c_str(), esc(v.key).c_str()); }
        }
    };
    int depth = tier_pick(5, 6), K = 2, ops = (seq ? 1 : 0) + 2 * K + 3; strs names{"k1", "key-2"};
    for(int i = 0; i < depth; i++) {
        int o = choose(ops, "op"); str k; auto key = [&](int j) { return seq ? le64(j) : names[j]; };
        if(o < 2 * K) { int j = o / 2; k = key(j); if(o & 1) { if(!at.count(k) || !all[at[k]].live) { trace += "-; "; continue; } trace += fmt("DEL #%d; ", j); ts(); CHECK(d.cmd(c, {"DEL", k}).ok(), "%s", trace.c_str()); all[at[k]].live = false; } else { if(seq && (!at.count(k) || !all[at[k]].live)) { trace += "-; "; continue; } trace += fmt("SET #%d; ", j); write(k); } }
        else if((o -= 2 * K) == 0) { trace += "NSJUMP; "; CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); } else if(o == 1) { trace += "RELOAD; "; CHECK(d.cmd(c, {"RELOAD", "default"}).ok(), "RELOAD"); } else if(o == 2) { trace += "restart; "; d.restart(); c = d.conn(); } else { trace += "SET new; "; write(""); }
        collect(); verify(); note_state(vfs.hash("/z") ^ cur.size());
    }
    note_case(trace);
}
SUITE(cursors_user) { cursors(false); }
SUITE(cursors_seq) { cursors(true); }
// timestamps over their whole range
SUITE(scan_timestamps) {
    Daemon d; int seq = choose(2, "mode"); d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(); static const char *all[] = {"0", "1", "2147483647", "2147483648", "3000000000", "4294967295"}; std::vector<std::pair<str, str>> want; str trace;
    for(int i = 0; i < 3; i++) { str t = all[choose(6, "timestamp")]; Reply r = d.cmd(c, {"SET", seq ? str("") : fmt("k%d", i), "v", t}); CHECK(r.t == '$' && r.s.size(), "SET with the timestamp %s answers %s", t.c_str(), r.show().c_str()); want.push_back({r.s, t}); trace += t + " "; if(i == 0 && choose(2, "jump")) d.cmd(c, {"NSJUMP"}); }
    for(int round = 0; round < 2; round++) {
        for(auto &w : want) { Reply r = d.cmd(c, {"KEYTIME", w.first}); CHECK(r.is(atoll(w.second.c_str())), "KEYTIME answers %s instead of %s", r.show().c_str(), w.second.c_str()); if(!seq) { r = d.cmd(c, {"HISTORY", w.first}); CHECK(r.t == '*' && r.a.size() == 3 && (r.a[1].s == w.second || (r.a[1].t == ':' && fmt("%lld", r.a[1].n) == w.second)), "HISTORY answers %s instead of the timestamp %s", r.show().c_str(), w.second.c_str()); } }
        for(auto cmd : {"SCAN", "RSCAN"}) { auto got = scan_all(d, c, cmd); CHECK(got.size() == 3, "%s lists %zu entries", cmd, got.size()); for(int i = 0; i < 3; i++) { auto &w = want[cmd[0] == 'S' ? i : 2 - i]; CHECK(got[i].key == w.first && got[i].ts == atoll(w.second.c_str()), "%s lists %s with the timestamp %lld instead of %s", cmd, esc(got[i].key).c_str(), got[i].ts, w.second.c_str()); } }
        if(!round) { d.restart(); c = d.conn(); }
    }
    note_case(trace); note_state(vfs.hash("/z"));
}
