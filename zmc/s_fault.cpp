// one failing or shortened file operation (or a full disk for a while) at every point of every short history
#include "model.h"
#include "explore.h"
#include "world.h"
static bool armed, hit, full; static int kinds; static str hitname;
enum { F_WRITE = 1, F_OPEN = 2, F_READ = 4, F_FSYNC = 8, F_FULL = 16 };
static SysAct fault_point(SysKind k, const str &path, long len) {
    SysAct a;
    if(path.find("/sock") != str::npos || path.find(".lockfile") != str::npos) return a;
    if(full) { if(k == SK_WRITE || k == SK_CREATE || k == SK_MKDIR) a.err = ENOSPC; return a; }
    if(!armed) return a;
    std::vector<std::pair<int, long>> alt;          // errno, short length
    if(k == SK_WRITE && (kinds & F_WRITE)) { alt.push_back({ENOSPC, -1}); std::set<long> s; Inode *n = vfs.get(path); bool grows = !n || vfs_write_pos + len > (long) n->data.size(); if(len > 1 && grows) { s = {1, len / 2, len - 1}; if(thorough()) { s.insert(4); s.insert(len / 4); s.insert(len * 3 / 4); } } for(long n : s) if(n > 0 && n < len) alt.push_back({0, n}); }
    if(k == SK_CREATE && (kinds & F_WRITE)) alt.push_back({ENOSPC, -1});
    if(k == SK_RENAME && (kinds & F_WRITE)) alt.push_back({EIO, -1});
    if(k == SK_OPEN && (kinds & F_OPEN)) alt.push_back({EMFILE, -1});
    if(k == SK_READ && (kinds & F_READ)) { alt.push_back({EIO, -1}); if(len > 1) alt.push_back({0, len / 2}); }
    if(k == SK_FSYNC && (kinds & F_FSYNC)) alt.push_back({EIO, -1});
    bool canfull = (kinds & F_FULL) && (k == SK_WRITE || k == SK_CREATE);
    if(alt.empty() && !canfull) return a;
    int c = choose(1 + alt.size() + canfull, sk_name(k)); if(c == 0) return a;
    armed = false; hit = true; str leaf = path.substr(path.rfind('/') + 1);
    if(c == 1 + (int) alt.size()) { full = true; a.err = ENOSPC; hitname = fmt("disk full from the %s of %s on", sk_name(k), leaf.c_str()); }
    else { a.err = alt[c - 1].first; a.limit = alt[c - 1].second; hitname = fmt("%s of %s %s", sk_name(k), leaf.c_str(), a.err ? strerror(a.err) : fmt("cut to %ld of %ld bytes", a.limit, len).c_str()); }
    logf("   FAULT: %s", hitname.c_str());
    note_case(hitname);
    return a;
}
struct Boom { Boom(int k) { sys_hook = fault_point; kinds = k; armed = hit = full = false; } ~Boom() { sys_hook = nullptr; } };

static void user_fault(int what_kinds, int depth, int longer, const strs &keys, const strs &vals, int extra, const strs &args) {
    Boom boom(what_kinds); Daemon d; d.extra = {"--mode", "user"}; for(auto &a : args) d.extra.push_back(a);
    d.boot(); int c = d.conn(); UserModel m; UserModel maybe; str maykey, trace; int nk = keys.size(), nv = vals.size(); int left = longer;
    for(int step = 0; step < depth; step++) {
        if(hit && left-- <= 0) break;
        int op = choose(nk * nv + nk + nk + extra, "op"); bool before = hit; str hot; UserModel after = m; bool free_read = false; Reply r;
        armed = !hit; int64_t ts = 0;
        try {
            advance(1000000); ts = vnow();
            if(op < nk * nv) { hot = keys[op / nv]; trace += fmt("SET k%d v%d; ", op / nv, op % nv); bool same = m.live.count(hot) && m.live[hot].back().val == vals[op % nv]; if(!same) after.set(hot, vals[op % nv], ts); r = d.cmd(c, {"SET", hot, vals[op % nv]}); CHECK(r.err() || r.bulk(hot) || (same && r.nil()), "SET answers %s  [%s %s]", r.show().c_str(), trace.c_str(), hitname.c_str()); if(same && hit && r.bulk(hot)) after.set(hot, vals[op % nv], ts); /* the comparison failed: written again */ }
            else if((op -= nk * nv) < nk) { hot = keys[op]; trace += fmt("DEL k%d; ", op); bool live = m.live.count(hot); after.del(hot); r = d.cmd(c, {"DEL", hot}); CHECK(r.err() || (live && r.ok()), "DEL answers %s  [%s %s]", r.show().c_str(), trace.c_str(), hitname.c_str()); }
            else if((op -= nk) < nk) { free_read = true; str k = keys[op]; trace += fmt("GET k%d; ", op); r = d.cmd(c, {"GET", k}); auto i = m.live.find(k); CHECK(r.err() || (i == m.live.end() ? r.nil() : r.bulk(i->second.back().val)), "GET answers %s under the fault  [%s %s]", r.show().c_str(), trace.c_str(), hitname.c_str()); }
            else if((op -= nk) == 0) { trace += "NSJUMP; "; r = d.cmd(c, {"NSJUMP"}); CHECK(r.ok() || r.err(), "NSJUMP answers %s", r.show().c_str()); }
            else { trace += "RELOAD; "; r = d.cmd(c, {"RELOAD", "default"}); CHECK(r.ok() || r.err(), "RELOAD answers %s", r.show().c_str()); }
        } catch(Exited &e) {
            if(trace.size() < 8 || trace.substr(trace.size() - 8) != "RELOAD; " || e.code != 1) fail("the daemon exits with code %d when a file operation fails  [%s %s]", e.code, trace.c_str(), hitname.c_str());
            note_finding("reload-exit", "RELOAD of a namespace exits the daemon when its files cannot be opened or read");
            armed = false; d.term(); d.boot(); c = d.conn(); verify_user(d, c, m, keys, V_BASIC | V_SCAN | V_HISTORY); return;   // nothing stored is lost
        }
        armed = false;
        if(!hit) { if(!hot.empty()) m = after; (void) before; CHECK(!r.err() || hot.empty() || (op < nk && !m.live.count(hot)), "%s answers %s without any fault", trace.c_str(), r.show().c_str()); }
        else if(!hot.empty()) {
            if(!r.err()) m = after;
            else if(!full) { Reply g = d.cmd(c, {"GET", hot}); auto is = [&](UserModel &x) { auto i = x.live.find(hot); return i == x.live.end() ? g.nil() : g.bulk(i->second.back().val); }; if(!is(m)) { CHECK(is(after), "after the failed operation, %s is %s: neither old nor new  [%s %s]", esc(hot, 20).c_str(), g.show().c_str(), trace.c_str(), hitname.c_str()); m = after; } else if(hitname[0] == 'f') { maybe = after; maykey = hot; } }
            else { Reply g = d.cmd(c, {"GET", hot}); auto i = m.live.find(hot); CHECK(i == m.live.end() ? g.nil() : g.bulk(i->second.back().val), "after the failed operation on a full disk, %s is %s  [%s %s]", esc(hot, 20).c_str(), g.show().c_str(), trace.c_str(), hitname.c_str()); }
        }
        note_state(vfs.hash("/z") ^ m.hash());
    }
    if(!hit) return;
    if(full) { UserModel t = m; try { verify_user(d, c, m, keys, V_BASIC | V_STATS); } catch(Exited &e) { fail("the daemon exits with code %d on a full disk", e.code); } }
    full = false; note_transition();
    logf("history: %s %s", trace.c_str(), hitname.c_str());
    bool reload = trace.size() >= 8 && trace.substr(trace.size() - 8) == "RELOAD; ";   // a reload that met the fault may need a restart
    int mode = reload ? 1 + choose(2, "afterwards") : choose(3, "afterwards");
    int what = V_BASIC | V_STATS | V_SCAN | V_RSCAN | V_HISTORY;
    try {
        // a flush that failed after an in-place change: the command was refused, its change may still show up at the next start
        auto settle = [&] { if(maykey.empty()) return; Reply g = d.cmd(c, {"GET", maykey}); auto i = maybe.live.find(maykey); if(i == maybe.live.end() ? g.nil() : g.bulk(i->second.back().val)) m = maybe; };
        if(mode == 0) verify_user(d, c, m, keys, V_BASIC | V_STATS);
        else if(mode == 1) { d.stop(c); d.boot(); c = d.conn(); settle(); verify_user(d, c, m, keys, what); }
        else { d.crash(); d.boot(); c = d.conn(); settle(); verify_user(d, c, m, keys, what); }
        if(mode == 0 && !maykey.empty()) return;
        user_set(d, c, m, keys[0], "afterwards"); user_del(d, c, m, keys[nk - 1]); user_set(d, c, m, "new", "x");
        strs all = keys; all.push_back("new"); verify_user(d, c, m, all, what);
        d.restart(); c = d.conn(); verify_user(d, c, m, all, what);
    } catch(Exited &e) { fail("the daemon exits with code %d", e.code); }
}
SUITE(fault_user) { user_fault(F_WRITE | F_OPEN | F_READ, tier_pick(3, 4), 0, {"k1", "k2"}, {"v1", "longer-v2"}, 2, {}); }
SUITE(fault_full) { user_fault(F_FULL, tier_pick(3, 4), tier_pick(1, 2), {"k1", "k2"}, {"v1", "longer-v2"}, 1, {}); }
SUITE(fault_rotate) { inst_set_datasize = 120; user_fault(F_WRITE | F_OPEN, tier_pick(3, 4), 1, {"k1", "k2"}, {"v1", str(60, 'q')}, 0, {}); }
SUITE(fault_sync) { user_fault(F_FSYNC | F_WRITE, 3, 0, {"k1", "k2"}, {"v1"}, 1, {"--sync"}); }

static void seq_fault(int what_kinds, int depth, int longer, const strs &vals = {"v1", "longer-v2"}) {
    Boom boom(what_kinds); Daemon d; d.extra = {"--mode", "seq"}; d.boot(); int c = d.conn(); SeqModel m; str trace; std::vector<uint64_t> given; int left = longer;
    int nv = vals.size();
    for(int step = 0; step < depth; step++) {
        if(hit && left-- <= 0) break;
        int ng = given.size(), op = choose(nv + ng * nv + ng + ng + 1, "op"); armed = !hit; SeqModel after = m; uint64_t hot = 0; bool has = false; Reply r; advance(1000000); int64_t ts = vnow();
        try {
            if(op < nv) { trace += fmt("INSERT v%d; ", op); r = d.cmd(c, {"SET", "", vals[op]}); if(!r.err()) { CHECK(r.t == '$' && r.s.size() == 8, "SET answers %s", r.show().c_str()); uint64_t id = rd64(r.s, 0); CHECK(!m.any || id > m.last, "SET answers the id %lu after %lu  [%s %s]", (unsigned long) id, (unsigned long) m.last, trace.c_str(), hitname.c_str()); m.last = id; m.any = true; m.live[id] = {vals[op], ts}; m.order.push_back(id); given.push_back(id); } }
            else if((op -= nv) < ng * nv) { has = true; hot = given[op / nv]; trace += fmt("UPDATE #%d v%d; ", op / nv, op % nv); bool live = m.live.count(hot), same = live && m.live[hot].val == vals[op % nv]; if(live && !same) after.live[hot] = {vals[op % nv], ts}; r = d.cmd(c, {"SET", le64(hot), vals[op % nv]}); CHECK(r.err() || (live && r.bulk(le64(hot))) || (same && r.nil()), "update answers %s  [%s %s]", r.show().c_str(), trace.c_str(), hitname.c_str()); if(same && hit && r.bulk(le64(hot))) after.live[hot] = {vals[op % nv], ts}; }
            else if((op -= ng * nv) < ng) { has = true; hot = given[op]; trace += fmt("DEL #%d; ", op); bool live = m.live.count(hot); if(live) { after.live.erase(hot); after.dead.insert(hot); after.order.erase(std::remove(after.order.begin(), after.order.end(), hot), after.order.end()); } r = d.cmd(c, {"DEL", le64(hot)}); CHECK(r.err() || (live && r.ok()), "DEL answers %s  [%s %s]", r.show().c_str(), trace.c_str(), hitname.c_str()); }
            else if((op -= ng) < ng) { trace += fmt("GET #%d; ", op); auto i = m.live.find(given[op]); r = d.cmd(c, {"GET", le64(given[op])}); if(hit && r.nil() && i != m.live.end() && (hitname.substr(0, 9) == "open of i" || hitname.substr(0, 9) == "read of i")) { armed = false; note_finding("seq-lookup-nil", "sequential mode: GET answers nil for a stored key when its index file cannot be opened or read"); verify_seq(d, c, m, V_BASIC); return; } CHECK(r.err() || (i == m.live.end() ? r.nil() : r.bulk(i->second.val)), "GET answers %s under the fault  [%s %s]", r.show().c_str(), trace.c_str(), hitname.c_str()); }
            else { trace += "NSJUMP; "; r = d.cmd(c, {"NSJUMP"}); }
        } catch(Exited &e) { fail("the daemon exits with code %d when a file operation fails  [%s %s]", e.code, trace.c_str(), hitname.c_str()); }
        armed = false;
        if(has) { if(!hit || !r.err()) { if(!r.err()) m = after; } else { Reply g = d.cmd(c, {"GET", le64(hot)}); auto is = [&](SeqModel &x) { auto i = x.live.find(hot); return i == x.live.end() ? g.nil() : g.bulk(i->second.val); }; if(!is(m)) { CHECK(is(after), "after the failed operation, id %lu is %s: neither old nor new  [%s %s]", (unsigned long) hot, g.show().c_str(), trace.c_str(), hitname.c_str()); m = after; } } }
        note_state(vfs.hash("/z") ^ m.hash());
    }
    if(!hit) return;
    if(full) verify_seq(d, c, m, V_BASIC);
    full = false; note_transition(); logf("history: %s %s", trace.c_str(), hitname.c_str());
    int mode = choose(3, "afterwards");
    try {
        if(mode == 1) { d.stop(c); d.boot(); c = d.conn(); }
        if(mode == 2) { d.crash(); d.boot(); c = d.conn(); }
        verify_seq(d, c, m, V_BASIC); seq_insert(d, c, m, "afterwards"); for(auto id : given) if(m.live.count(id)) { seq_update(d, c, m, id, "again"); break; } seq_insert(d, c, m, "second");
        verify_seq(d, c, m, V_BASIC); d.restart(); c = d.conn(); verify_seq(d, c, m, V_BASIC); seq_insert(d, c, m, "third"); verify_seq(d, c, m, V_BASIC);
    } catch(Exited &e) { fail("the daemon exits with code %d", e.code); }
}
SUITE(fault_seq) { seq_fault(F_WRITE | F_OPEN | F_READ, tier_pick(3, 4), 0); }
SUITE(fault_rotate_seq) { inst_set_datasize = 120; seq_fault(F_WRITE | F_OPEN, tier_pick(3, 4), 1, {"v1", str(60, 'q')}); }
SUITE(fault_full_seq) { seq_fault(F_FULL, tier_pick(3, 4), tier_pick(1, 2)); }

// ---------------------------------------------------------------- namespace administration under faults
static void ns_fault(int what_kinds, int depth, int longer) {
    Boom boom(what_kinds); Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(), a = d.conn();
    strs keys{"k1", "k2"}, passwords{"first", "another-password"}; UserModel def; user_set(d, c, def, "k1", "default-1"); user_set(d, c, def, "k2", "default-2");
    NsState m1, m2; CHECK(d.cmd(a, {"NSNEW", "n1"}).ok() && d.cmd(a, {"SELECT", "n1"}).ok(), "NSNEW and SELECT"); d.cmd(a, {"SET", "k1", "n1-1"}); m1.exists = true; m1.kv = {{"k1", "n1-1"}}; d.hangup(a);
    str trace, cmdname; bool unsure1 = false, unsure2 = false, fatal = false; NsState o1, o2; int left = longer;
    for(int step = 0; step < depth && !fatal; step++) {
        if(hit && left-- <= 0) break;
        int op = choose(9, "op"); o1 = m1; o2 = m2; strs cmd; NsState p1 = m1, p2 = m2;
        switch(op) {
        case 0: cmd = {"NSNEW", "n2"}; p2.exists = true; break;
        case 1: cmd = {"NSSET", "n1", "maxsize", "100000"}; p1.maxsize = 100000; break;
        case 2: case 3: cmd = {"NSSET", "n1", "password", passwords[op - 2]}; p1.pass = passwords[op - 2]; break;
        case 4: cmd = {"NSSET", "n1", "password", "*"}; p1.pass = ""; break;
        case 5: cmd = {"NSSET", "n1", "public", "0"}; p1.pub = false; break;
        case 6: cmd = {"NSSET", "n1", "worm", "1"}; p1.worm = true; break;
        case 7: cmd = {"NSDEL", "n1"}; p1 = NsState(); break;
        case 8: cmd = {"NSDEL", "n2"}; p2 = NsState(); break;
        }
        bool valid = op == 0 ? !m2.exists : op == 8 ? m2.exists : m1.exists; if(!valid) p1 = m1, p2 = m2;
        trace += cmd[0] + " " + cmd[1] + (cmd.size() > 2 ? " " + cmd[2] + " " + cmd[3] : "") + "; "; cmdname = cmd[0]; bool was = hit; armed = !hit;
        Reply r; try { r = d.cmd(c, cmd); } catch(Exited &e) {
            if(cmd[0] != "NSNEW" || e.code != 1) fail("the daemon exits with code %d when a file operation fails  [%s %s]", e.code, trace.c_str(), hitname.c_str());
            note_finding("nsnew-exit", "NSNEW exits the daemon when the files of the new namespace cannot be created"); fatal = true; unsure2 = true; o2 = m2; m2 = p2; break;
        }
        armed = false; bool touched = hit && (!was || full);
        if(!touched) { CHECK(valid ? r.ok() : r.err(), "%s answers %s", trace.c_str(), r.show().c_str()); m1 = p1; m2 = p2; }
        else if(r.ok()) { m1 = p1; m2 = p2; if(cmd[0] == "NSDEL") (op == 7 ? unsure1 : unsure2) = true; }
        else { CHECK(r.err(), "%s answers %s under the fault %s", trace.c_str(), r.show().c_str(), hitname.c_str()); if(valid) { if(op == 0 || op == 8) { unsure2 = true; m2 = p2; } else { unsure1 = true; m1 = p1; } break; } }
        note_state(vfs.hash("/z"));
    }
    if(!hit) return;
    full = false; armed = false; note_transition(); logf("history: %s %s", trace.c_str(), hitname.c_str());
    if(fatal) d.term(); else { verify_user(d, c, def, keys, V_BASIC | V_STATS); if(choose(2, "afterwards")) d.crash(); else d.stop(c); }
    try { d.boot(); } catch(Exited &e) { fail("the daemon does not start again after %s  [%s]", hitname.c_str(), trace.c_str()); }
    c = d.conn(); verify_user(d, c, def, keys, V_BASIC | V_STATS);
    auto subset = [](const std::map<str, str> &x, const std::map<str, str> &y) { for(auto &k : x) { auto i = y.find(k.first); if(i == y.end() || i->second != k.second) return false; } return true; };
    auto look = [&](const char *name, NsState &now, NsState &old, bool unsure) {
        NsState s = ns_look(d, name, passwords, keys);
        if(s == now || (unsure && s == old)) { now = s; return; }
        if(unsure && cmdname == "NSDEL" && s.exists && subset(s.kv, old.kv)) { now = s; return; }      // a removal cut by the fault
        fail("namespace %s is %s instead of %s  [%s %s]", name, s.show().c_str(), now.show().c_str(), trace.c_str(), hitname.c_str());
    };
    look("n1", m1, o1, unsure1); look("n2", m2, o2, unsure2);
    int e = d.conn(); if(!m2.exists) CHECK(d.cmd(e, {"NSNEW", "n2"}).ok(), "NSNEW n2 is refused after the fault"); if(m1.exists) { CHECK(d.cmd(e, {"NSDEL", "n1"}).ok(), "NSDEL n1 is refused after the fault"); } CHECK(d.cmd(e, {"NSNEW", "n1"}).ok(), "NSNEW n1 is refused after its deletion");
    user_set(d, c, def, "k1", "default-again"); d.restart(); c = d.conn(); verify_user(d, c, def, keys, V_BASIC);
    m1 = NsState(); m1.exists = true; look("n1", m1, m1, false);
}
SUITE(fault_ns) { ns_fault(F_WRITE | F_OPEN | F_READ | F_FSYNC, tier_pick(2, 3), 0); }
SUITE(fault_full_ns) { ns_fault(F_FULL, tier_pick(2, 3), tier_pick(1, 2)); }
// ---------------------------------------------------------------- starting under faults
// one file operation fails while the daemon starts on a populated directory: it refuses to start, or serves everything
// with the settings of each namespace; and nothing on disk is lost for the next start
static void boot_fault(int what_kinds, int mode) {
    World w; w.mode = mode; w.adminpw = "root"; w.keys = {"k1", "k2"}; w.start(); int c = w.conn(); auto id = [&](const str &ns, const str &k) { return mode == 0 ? k : str(); };
    w.exec(c, {"AUTH", "root"}); w.exec(c, {"SET", id("", "k1"), "value-1"}); w.exec(c, {"SET", id("", "k2"), "value-2"});
    w.exec(c, {"NSNEW", "P"}); w.exec(c, {"NSSET", "P", "password", "secret"}); w.exec(c, {"NSSET", "P", "public", "0"}); w.exec(c, {"SELECT", "P", "secret"}); w.exec(c, {"SET", id("P", "k1"), "private"});
    if(mode == 0) w.exec(c, {"DEL", "k1"}), w.exec(c, {"SET", "k2", "private-2"}), w.exec(c, {"SET", "k1", "again"});
    w.exec(c, {"NSNEW", "W"}); w.exec(c, {"NSSET", "W", "maxsize", "1000"}); w.exec(c, {"SELECT", "W"}); w.exec(c, {"SET", id("W", "k1"), "worm"}); w.exec(c, {"NSSET", "W", "worm", "1"}); w.exec(c, {"SELECT", "default"}); w.exec(c, {"DEL", mode == 0 ? "k1" : le64(0)});
    int jumped = choose(2, "rotated"); if(jumped) { Reply r = w.d.cmd(c, {"NSJUMP"}); CHECK(r.ok(), "NSJUMP answers %s", r.show().c_str()); w.exec(c, {"SET", id("", "k1"), "rotated"}); }
    w.d.stop(); w.cli.clear(); bool up; str tag;
    { Boom boom(what_kinds); armed = true; RunStatus s = w.d.start(); armed = false; if(s == RS_CRASH) throw Crashed(); if(!hit) return; up = s == RS_IDLE; tag = hitname; }
    note_transition(); w.trace += fmt("start with %s: %s; ", tag.c_str(), up ? "served" : "refused"); note_state(vfs.hash("/z") * 2 + up);
    if(up) {
        try {
            int e = w.d.conn(); Reply r = w.d.cmd(e, {"SELECT", "P"}); if(r.ok()) fail("the private namespace can be selected without password   [%s]", w.trace.c_str());
            r = w.d.cmd(e, {"SELECT", "W"}); if(r.ok()) { r = w.d.cmd(e, {"DEL", mode == 0 ? "k1" : le64(0)}); if(r.ok()) fail("an entry of the worm namespace can be deleted   [%s]", w.trace.c_str()); }
        } catch(Exited &x) { fail("the daemon exits with code %d   [%s]", x.code, w.trace.c_str()); }
        w.obs = w.d.conn(); CHECK(w.d.cmd(w.obs, {"AUTH", "root"}).ok(), "AUTH of the observer");
        if(tag.substr(0, 9) == "read of i") note_finding("boot-degraded", "the daemon starts and serves a namespace without the entries of an index file whose header cannot be read at that moment"); else {
            // a namespace whose settings cannot be read is refused as a whole, until the next start
            auto all = w.ns; if(tag.find("zdb-namespace") != str::npos) { Reply l = w.d.cmd(w.obs, {"NSLIST"}); std::set<str> got; for(auto &x : l.a) got.insert(x.s); for(auto &n : all) if(!got.count(n.first)) { w.ns.erase(n.first); w.strict_fs = false; Reply r = w.d.cmd(w.obs, {"SELECT", n.first, n.second.pass}); CHECK(r.err(), "SELECT of the namespace not listed answers %s", r.show().c_str()); } }
            bool scans = tag.substr(0, 9) != "open of i"; w.verify(scans);
            if(scans && choose(2, "writes")) { w.cli.clear(); int e = w.conn(); w.exec(e, {"AUTH", "root"}); for(auto n : {"P", "default"}) if(w.ns.count(n)) { if(w.ns[n].pass.empty()) w.exec(e, {"SELECT", n}); else w.exec(e, {"SELECT", n, w.ns[n].pass}); w.exec(e, {"SET", id(n, "k2"), "written"}); w.exec(e, {"DEL", mode == 0 ? "k1" : le64(1)}); w.exec(e, {"SET", id(n, "k1"), "written too"}); } w.verify(); w.cli.clear(); for(auto &n : w.ns) all[n.first] = n.second; }
            w.ns = all; w.strict_fs = true;
        }
        if(choose(2, "end")) w.d.crash(); else w.d.stop();
    }
    w.d.boot(); w.obs = w.d.conn(); CHECK(w.d.cmd(w.obs, {"AUTH", "root"}).ok(), "AUTH of the observer"); w.verify();
}
SUITE(fault_boot) { boot_fault(F_WRITE | F_OPEN | F_READ | F_FSYNC | F_FULL, choose(2, "mode")); }
// ---------------------------------------------------------------- listing under faults
// one open or read fails during a complete listing: the request is refused (and can be asked again from the same
// cursor), the listing never ends before the last entry nor skips one
static void scan_fault(bool seq) {
    Daemon d; d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(), n = 0; UserModel m; SeqModel q; int shape = choose(tier_pick(81, 243), "shape");
    for(int i = 0, x = shape; i < tier_pick(4, 5); i++, x /= 3) {
        if(seq) { seq_insert(d, c, q, fmt("value-%d", n++)); if(x % 3 == 2 && q.live.size() > 1) seq_del(d, c, q, q.live.begin()->first); } else { user_set(d, c, m, fmt("key%d", i), fmt("value-%d", n++)); if(x % 3 == 2) user_del(d, c, m, fmt("key%d", i / 2)); }
        if(x % 3 == 1) CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP");
    }
    if(choose(2, "restarted")) { d.restart(); c = d.conn(); }
    strs want; if(seq) for(auto id : q.order) want.push_back(le64(id)); else want = m.order;
    bool back = choose(2, "backwards"); if(back) std::reverse(want.begin(), want.end()); step_us = choose(2, "slice") ? 3000 : 0; int how = choose(2, "fault"), at = choose(tier_pick(24, 60), "operation"), op = 0; bool done = false; str name;
    sys_hook = [&](SysKind k, const str &p, long) { SysAct a; if((k != SK_OPEN && k != SK_READ) || p.substr(0, 3) != "/z/") return a; if(op++ == at) { done = true; a.err = how ? EMFILE : EIO; name = fmt("%s of %s", sk_name(k), p.c_str()); logf("   FAULT: %s", name.c_str()); } return a; };
    strs got; str cur; int refused = 0; bool over = false;
    for(int i = 0; i < 40; i++) { Reply r; try { r = cur.empty() ? d.cmd(c, {back ? "RSCAN" : "SCAN"}) : d.cmd(c, {back ? "RSCAN" : "SCAN", cur}); } catch(Exited &e) { fail("the daemon exits with code %d when the %s fails", e.code, name.c_str()); }
        if(r.err() && r.has("No more data")) { over = true; break; }
        if(r.err()) { CHECK(done && ++refused == 1, "%s answers %s   [%s]", back ? "RSCAN" : "SCAN", r.show().c_str(), name.c_str()); continue; }
        CHECK(r.t == '*' && r.a.size() == 2 && !r.a[1].a.empty(), "%s answers %s", back ? "RSCAN" : "SCAN", r.show().c_str()); cur = r.a[0].s; for(auto &x : r.a[1].a) got.push_back(x.a[0].s);
    }
    sys_hook = nullptr; if(!done) return; note_transition(); note_state(vfs.hash("/z") * 1000 + at * 8 + how * 4 + back * 2); note_case(name); CHECK(over, "the listing does not end   [%s]", name.c_str());
    if(got != want) { str g, w; for(auto &x : got) g += esc(x, 12) + " "; for(auto &x : want) w += esc(x, 12) + " "; fail("%s lists [%s] instead of [%s] when the %s fails", back ? "RSCAN" : "SCAN", g.c_str(), w.c_str(), name.c_str()); }
}
SUITE(fault_scan) { scan_fault(choose(2, "mode")); }
// ---------------------------------------------------------------- removing files fails
// a file cannot be removed (once, or for a while) during FLUSH or NSDEL: the command is done or refused; refused, the namespace
// still stands behind its settings with an earlier content; asked again, it is done for good; the others do not notice
static void remove_fault(bool seq) {
    Daemon d; d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(), a = d.conn(); str trace = seq ? "sequential; " : "", name;
    CHECK(d.cmd(c, {"NSNEW", "n"}).ok(), "NSNEW"); CHECK(d.cmd(c, {"NSSET", "n", "password", "pw"}).ok(), "NSSET"); CHECK(d.cmd(c, {"NSSET", "n", "public", "0"}).ok(), "NSSET"); CHECK(d.cmd(c, {"NSSET", "n", "maxsize", "9999"}).ok(), "NSSET"); CHECK(d.cmd(a, {"SELECT", "n", "pw"}).ok(), "SELECT");
    strs keys; UserModel def; SeqModel sdef; if(seq) seq_insert(d, c, sdef, "default-1"); else { user_set(d, c, def, "k1", "default-1"); user_set(d, c, def, "k2", "default-2"); }
    auto others = [&] { if(seq) verify_seq(d, c, sdef, V_BASIC | V_STATS); else verify_user(d, c, def, {"k1", "k2"}, V_BASIC | V_STATS); };
    std::map<str, str> kv; std::map<str, std::set<str>> ever; auto set = [&](const str &k, const str &v) { Reply r = d.cmd(a, {"SET", k, v}); CHECK(r.t == '$', "SET answers %s", r.show().c_str()); str id = seq && k.empty() ? r.s : k; if(!std::count(keys.begin(), keys.end(), id)) keys.push_back(id); kv[id] = v; ever[id].insert(v); }; auto jump = [&]() { CHECK(d.cmd(a, {"NSJUMP"}).ok(), "NSJUMP"); trace += "NSJUMP; "; };
    int files = choose(4, "files"); set(seq ? "" : "k1", "one"); set(seq ? "" : "k2", "two"); if(files > 0) jump(); if(choose(2, "update")) { set(seq ? keys[0] : "k1", "one again"); trace += "update; "; } if(choose(2, "delete")) { CHECK(d.cmd(a, {"DEL", keys[1]}).ok(), "DEL"); kv.erase(keys[1]); trace += "delete; "; } if(files > 1) jump(); set(seq ? "" : "k3", "three"); if(files > 2) { jump(); jump(); }
    bool leftover = false, over = false, del = choose(2, "command"), stuck = choose(2, "for a while"), on = true, done = false; int op = 0, at = choose(tier_pick(14, 20), "operation");
    sys_hook = [&](SysKind k, const str &p, long) { SysAct x; if(!on || (k != SK_UNLINK && k != SK_OPENDIR) || p.substr(0, 3) != "/z/") return x; if(op++ == at || (stuck && op > at)) { done = true; str leaf = p.substr(p.rfind('/') + 1); if(!strchr("id", leaf[0]) || !isdigit(leaf[1])) leftover = true; x.err = k == SK_UNLINK ? EPERM : EMFILE; if(name.empty()) name = fmt("%s of %s fails%s", sk_name(k), p.c_str(), stuck ? " and then too" : ""); logf("   FAULT: %s of %s", sk_name(k), p.c_str()); } return x; };
    struct Off { ~Off() { sys_hook = nullptr; } } off; bool gone = false;
    auto look = [&](const char *when, bool loose) {
        NsState s = ns_look(d, "n", {"pw"}, keys); if(gone) { if(s.exists && loose && s.kv.empty() && leftover) { note_finding("nsdel-left", "NSDEL answers OK although the directory of the namespace cannot be removed: the namespace comes back, empty, at the next start"); NsState x; x.exists = true; CHECK(s == x, "%s: the namespace is %s %s   [%s]", trace.c_str(), s.show().c_str(), when, name.c_str()); over = true; return; } CHECK(!s.exists, "%s: the namespace is %s %s   [%s]", trace.c_str(), s.show().c_str(), when, name.c_str()); return; }
        CHECK(s.exists && s.pass == "pw" && !s.pub && s.maxsize == 9999 && !s.worm, "%s: the namespace is %s %s   [%s]", trace.c_str(), s.show().c_str(), when, name.c_str());
        if(loose) { for(auto &x : s.kv) CHECK(ever[x.first].count(x.second), "%s: the namespace is %s %s   [%s]", trace.c_str(), s.show().c_str(), when, name.c_str()); kv = s.kv; }
        else CHECK(s.kv == kv, "%s: the namespace is %s %s   [%s]", trace.c_str(), s.show().c_str(), when, name.c_str());
    };
    auto again = [&](const char *when, bool loose) { Reply r; trace += del ? "NSDEL; " : "FLUSH; "; r = del ? d.cmd(c, {"NSDEL", "n"}) : d.cmd(a, {"FLUSH"}); CHECK(r.ok() || r.err(), "%s: %s answers %s", trace.c_str(), when, r.show().c_str()); if(r.ok()) { kv.clear(); gone = del; if(seq) keys.clear(); } else trace += "refused; "; on = on && stuck; bool was = on; on = false; if(del && gone) a = d.conn(); look(when, loose && !gone && r.err()); others(); on = was; return r.ok(); };
    try {
        bool ok = again("after the command", true); if(!done) return; note_transition(); note_state(vfs.hash("/z") * 100 + at * 4 + del * 2 + stuck); note_case(trace + name);
        if(!ok && stuck && choose(2, "asked again")) ok = again("while it fails", true);
        on = false; int then = choose(3, "then"); if(then) { if(then == 1) d.stop(); else d.crash(); d.boot(); c = d.conn(); a = d.conn(); trace += then == 1 ? "restart; " : "kill; "; look("after the restart", true); if(over) { others(); return; } if(!gone) CHECK(d.cmd(a, {"SELECT", "n", "pw"}).ok(), "SELECT"); others(); }
        else if(!gone) { d.hangup(a); a = d.conn(); CHECK(d.cmd(a, {"SELECT", "n", "pw"}).ok(), "SELECT"); }
        if(!gone) { if(choose(2, "writes")) { if(seq && kv.empty()) keys.clear(); set(seq ? "" : "k1", "new"); set(seq ? "" : "k4", "newer"); trace += "writes; "; if(choose(2, "jump")) { jump(); set(seq ? "" : "k2", "newest"); } look("after the writes", false); d.restart(); c = d.conn(); a = d.conn(); trace += "restart; "; look("after the restart", false); CHECK(d.cmd(a, {"SELECT", "n", "pw"}).ok(), "SELECT"); }
            if(!ok) { CHECK(again("once it works again", false), "%s: refused although nothing fails anymore   [%s]", trace.c_str(), name.c_str()); } }
        if(gone) { int e = d.conn(); CHECK(d.cmd(e, {"NSNEW", "n"}).ok(), "NSNEW after the deletion is refused   [%s %s]", trace.c_str(), name.c_str()); gone = false; NsState s = ns_look(d, "n", {"pw"}, keys); CHECK(s.exists && s.kv.empty() && s.pass.empty() && s.pub && !s.maxsize, "%s: the new namespace is %s   [%s]", trace.c_str(), s.show().c_str(), name.c_str()); CHECK(d.cmd(e, {"NSSET", "n", "password", "pw"}).ok() && d.cmd(e, {"NSSET", "n", "public", "0"}).ok() && d.cmd(e, {"NSSET", "n", "maxsize", "9999"}).ok(), "NSSET"); a = d.conn(); CHECK(d.cmd(a, {"SELECT", "n", "pw"}).ok(), "SELECT"); kv.clear(); if(seq) keys.clear(); }
        set(seq ? "" : "k2", "last"); if(choose(2, "last jump")) { jump(); set(seq ? "" : "k3", "very last"); } look("at last", false); d.restart(); c = d.conn(); trace += "restart; "; look("at the last start", false); others();
    } catch(Exited &e) { fail("%s: the daemon exits with code %d   [%s]", trace.c_str(), e.code, name.c_str()); }
}
SUITE(fault_remove) { remove_fault(choose(2, "mode")); }
