// crash, power-loss and fault injection at every system call of every short history
#include "model.h"
#include "explore.h"
#include "hist.h"

// ---------------------------------------------------------------- where it may break
static bool power;
static bool armed;                       // injection allowed now
static int tears;                        // 0: representative, 1: every byte
static std::vector<long> tear_points(long len) {
    std::vector<long> t; if(len < 2) return t;
    if(tears) { for(long k = 1; k < len; k++) t.push_back(k); return t; }
    std::set<long> s{1, len / 2, len - 1}; if(len > 8) { s.insert(4); s.insert(len - 4); }
    for(long k : s) if(k > 0 && k < len) t.push_back(k);
    return t;
}
// a write inside existing content of a sector is atomic; only growing writes tear
static SysAct crash_point(SysKind k, const str &path, long len) {
    SysAct a;
    if(!armed || !(sk_mutates(k) || (power && k == SK_FSYNC))) return a;
    if(path.find("/sock") != str::npos || path.find(".lockfile") != str::npos) return a;
    Inode *n = vfs.get(path);
    bool grows = k == SK_WRITE && n && vfs_write_pos + len > (long) n->data.size();
    auto t = grows ? tear_points(len) : std::vector<long>();
    int c = choose(2 + t.size(), sk_name(k));
    if(c == 0) return a;
    armed = false; a.crash = true;
    if(c >= 2) a.limit = t[c - 2];
    logf("   crash at %s %s (%ld bytes)%s", sk_name(k), path.c_str(), len, c >= 2 ? fmt(", %ld bytes written", a.limit).c_str() : "");
    note_case(fmt("crash at %s of %s%s", sk_name(k), path.substr(path.rfind('/') + 1).c_str(), c >= 2 ? ", torn" : ""));
    return a;
}
struct Boom { ~Boom() { sys_hook = nullptr; } Boom() { sys_hook = crash_point; armed = false; tears = thorough() ? 1 : 0; } };

// ---------------------------------------------------------------- power loss
// any subset of the unflushed writes reached the disk (appends possibly torn)
static void power_loss() {
    std::vector<PendingWrite> w = vfs.pending; 
    for(auto &i : vfs.inodes) if(!i.second->dir) i.second->data = i.second->durable;
    for(auto &p : w) {
        Inode *n = vfs.ino(p.ino); if(!n) continue;
        bool grows = !p.trunc && p.off + (long) p.data.size() > (long) n->data.size() && p.data.size() > 1;
        int c = choose(grows ? 3 : 2, "unflushed write survives");
        if(c == 0) continue;
        if(p.trunc) { n->data.resize(p.off); continue; }
        str b = c == 2 ? p.data.substr(0, p.data.size() / 2) : p.data;
        if(n->data.size() < p.off + b.size()) n->data.resize(p.off + b.size());
        memcpy(&n->data[p.off], b.data(), b.size());
        logf("   unflushed write of %zu bytes at %ld survives%s", p.data.size(), p.off, c == 2 ? " in part" : "");
    }
    vfs.flush_all();
}

// the data log across a crash: every acknowledged operation stays, in order, and the files stay readable record by record;
// the operation in flight has left its record or not (after a power loss possibly a record with lost parts)
struct CrashLog {
    std::vector<Rec> log; Rec flying; bool flies = false, lost = false, lax = false; size_t torn = 0; str &trace;
    CrashLog(str &t) : trace(t) {}
    void about(const str &k, const str &v, bool del, bool changes) { flying = Rec(); flying.id = k; flying.val = v; flying.del = del; flying.ts = (clock_us + step_us) / 1000000; flies = changes; }
    void landed() { if(flies) log.push_back(flying); flies = false; }
    void crashed() {
        torn = log.size();
        if(flies) { auto g = parse_log("default", true); if(g.size() > torn) { auto &r = g[torn]; if(flying.id.empty() && r.id.size() == 8) flying.id = r.id; if(power && (r.bad || r.id != flying.id || r.val != flying.val || r.del != flying.del || r.ts != flying.ts)) lost = true; else log.push_back(flying); } }
        flies = false;
    }
    void check(const char *when) {
        if(lax) return;
        auto got = parse_log("default", true); if(lost && torn < got.size()) got.erase(got.begin() + torn);
        for(auto &r : got) CHECK(!r.bad, "%s: the record of %s at %u is damaged  [%s]", when, esc(r.id, 20).c_str(), r.off, trace.c_str());
        compare_log(got, log, fmt("%s  [%s]", when, trace.c_str()));
    }
};

// ---------------------------------------------------------------- user mode
struct UOp { int kind; int k, v; };      // 0 set, 1 del, 2 jump, 3 reload, 4 restart
static bool rebuilt;                     // the index is lost after all
static bool readonly;                    // read-only file systems after the crash
static bool headless() { for(auto &f : vfs.snapshot("/z")) { str b = f.first.substr(f.first.rfind('/') + 1); if((b[0] == 'd' && f.second.size() < 28) || (b[0] == 'i' && f.second.size() < 29)) return true; } return false; }
static void user_crash(int depth, const strs &keys, const strs &vals, int extra, const strs &args, int post) {
    Boom boom; Daemon d; d.extra = {"--mode", "user"}; for(auto &a : args) d.extra.push_back(a);
    if(power) { vfs.track = true; }
    d.boot(); int c = d.conn(); UserModel m; str trace; if(power) vfs.flush_all();
    int nk = keys.size(), nv = vals.size();
    UserModel after; str hot; bool died = false; CrashLog cl(trace);
    if(choose(2, "clock")) step_us = 0;
    for(int step = 0; step < depth && !died; step++) {
        int op = choose(nk * nv + nk + extra, "op"); after = m; hot.clear();
        try {
            armed = true;
            if(op < nk * nv) { hot = keys[op / nv]; trace += fmt("SET k%d v%d; ", op / nv, op % nv); auto i = m.live.find(hot); if(i == m.live.end() || i->second.back().val != vals[op % nv]) after.set(hot, vals[op % nv], vnow() + step_us / 1000000); cl.about(hot, vals[op % nv], false, i == m.live.end() || i->second.back().val != vals[op % nv]); user_set(d, c, m, hot, vals[op % nv]); cl.landed(); }
            else if((op -= nk * nv) < nk) { hot = keys[op]; trace += fmt("DEL k%d; ", op); after.del(hot); cl.about(hot, "", true, m.live.count(hot)); user_del(d, c, m, hot); cl.landed(); }
            else if((op -= nk) == 0) { trace += "NSJUMP; "; Reply r = d.cmd(c, {"NSJUMP"}); CHECK(r.ok(), "NSJUMP answers %s", r.show().c_str()); }
            else if(op == 1) { trace += "RELOAD; "; Reply r = d.cmd(c, {"RELOAD", "default"}); CHECK(r.ok(), "RELOAD answers %s", r.show().c_str()); }
            else { trace += "STOP+start; "; d.stop(c); if(power) vfs.flush_all(); d.boot(); c = d.conn(); }
            armed = false;
        } catch(Crashed &) { died = true; trace += "crash; "; }
        note_state(vfs.hash("/z") ^ m.hash());
    }
    armed = false;
    if(!died) { d.crash(); after = m; hot.clear(); }
    if(power) power_loss();
    note_transition();
    if(thorough() && post > 1 && choose(2, "crash again while starting")) {
        armed = true; try { d.boot(); armed = false; d.crash(); } catch(Crashed &) {} armed = false; if(power) power_loss();
        trace += "second crash; ";
    }
    logf("history: %s", trace.c_str());
    int what = V_BASIC | V_STATS | V_SCAN | V_RSCAN | V_HISTORY;
    // first on read-only file systems; a new file left without its header by the crash may prevent it
    int ro = readonly ? 1 + choose(3, "read-only") : 0;
    for(; ; ro = 0) {
    std::map<str, str> dd, ii; if(ro & 1) { vfs.ro_dirs.push_back("/z/data"); dd = vfs.snapshot("/z/data"); } if(ro & 2) { vfs.ro_dirs.push_back("/z/index"); ii = vfs.snapshot("/z/index"); } if(ro) { trace += fmt("read-only (%d); ", ro); if(d.start() != RS_IDLE) { CHECK(headless() && inst_exit_code(d.in) > 0, "the server does not start  [%s]", trace.c_str()); trace += "refused; "; vfs.ro_dirs.clear(); continue; } } else d.boot();
    c = d.conn();
    if(!hot.empty()) {
        Reply r = d.cmd(c, {"GET", hot});
        auto show = [&](UserModel &x) { auto i = x.live.find(hot); return i == x.live.end() ? str("missing") : i->second.back().val; };
        auto is = [&](UserModel &x) { auto i = x.live.find(hot); return i == x.live.end() ? r.nil() : r.bulk(i->second.back().val); };
        if(is(after)) { m = after; logf("   the operation in flight took effect"); } else CHECK(is(m), "after the crash, %s is %s: neither the old value (%s) nor the new one (%s)  [%s]", esc(hot, 20).c_str(), r.show().c_str(), show(m).c_str(), show(after).c_str(), trace.c_str());
    }
    int seen = ro & 2 ? what & ~(V_SCAN | V_RSCAN) : what; verify_user(d, c, m, keys, seen);      // a listing reads what the interrupted write left
    if(!ro) break;
    // a write refused because of the index may have left its record, like any other failure
    hot.clear(); if(ro == 2) cl.lax = true; CHECK(d.cmd(c, {"SET", keys[0], "refused"}).err(), "a SET is accepted on a read-only file system  [%s]", trace.c_str()); CHECK(!m.live.count(keys[0]) || d.cmd(c, {"DEL", keys[0]}).err(), "a DEL is accepted on a read-only file system  [%s]", trace.c_str()); verify_user(d, c, m, keys, seen);
    if(choose(2, "end")) d.crash(); else d.stop(c);
    CHECK(!(ro & 1) || vfs.snapshot("/z/data") == dd, "the read-only data files have changed  [%s]", trace.c_str()); CHECK(!(ro & 2) || vfs.snapshot("/z/index") == ii, "the read-only index files have changed  [%s]", trace.c_str()); trace += "writable; "; vfs.ro_dirs.clear();
    }
    cl.crashed(); cl.check("after the crash");
    auto set = [&](const str &k, const str &v) { cl.about(k, v, false, !m.live.count(k) || m.live.at(k).back().val != v); user_set(d, c, m, k, v); cl.landed(); };
    auto del = [&](const str &k) { cl.about(k, "", true, m.live.count(k)); user_del(d, c, m, k); cl.landed(); };
    note_state(vfs.hash("/z") ^ m.hash() * 3);
    // life goes on
    set(keys[0], "afterwards"); verify_user(d, c, m, keys, what); cl.check("after a crash and another write");
    if(rebuilt) {
        // what the data files tell: everything acknowledged, and the operation in flight when it has left its record
        if(choose(2, "more writes")) { del(keys[nk - 1]); set("new", "x"); }
        d.stop(c); UserModel t; for(auto &r : parse_log("default", true)) if(r.del) t.del(r.id); else t.set(r.id, r.val, r.ts);
        cl.check("before the rebuild"); trace += "rebuild; "; rebuild("user", "default", trace); d.boot(); c = d.conn(); strs all = keys; all.push_back("new"); verify_user(d, c, t, all, V_BASIC | V_STATS | V_SCAN);
        user_set(d, c, t, keys[0], "after the rebuild"); user_del(d, c, t, keys[nk - 1]); d.restart(); c = d.conn(); verify_user(d, c, t, all, V_BASIC | V_STATS); note_case(trace); return;
    }
    if(post) { del(keys[nk - 1]); set("new", "x"); if(power) vfs.flush_all(); d.restart(); c = d.conn(); strs all = keys; all.push_back("new"); verify_user(d, c, m, all, what); del(keys[0]); verify_user(d, c, m, all, what); d.crash(); d.boot(); c = d.conn(); verify_user(d, c, m, all, what); cl.check("after a crash and two restarts"); }
}
SUITE(crash_user) { power = false; user_crash(tier_pick(3, 4), {"k1", "k2"}, {"v1", "longer-v2"}, 3, {}, tier_pick(1, 1)); }
SUITE(crash_user_again) { power = false; tears = 0; user_crash(tier_pick(2, 3), {"k1", "k2"}, {"v1", ""}, 3, {}, 2); }
SUITE(crash_rotate) { power = false; inst_set_datasize = 120; user_crash(tier_pick(3, 4), {"k1", "k2"}, {"v1", str(60, 'q')}, 2, {}, 1); }
SUITE(power_user) { power = true; user_crash(tier_pick(3, 4), {"k1", "k2"}, {"v1", "longer-v2"}, 3, {"--sync"}, 1); }
SUITE(power_empty) { power = true; user_crash(tier_pick(4, 5), {"k1"}, {"", "x"}, 1, {"--sync"}, 1); }
SUITE(power_rotate) { power = true; inst_set_datasize = 120; user_crash(tier_pick(3, 3), {"k1"}, {"v1", str(60, 'q')}, 1, {"--sync"}, 1); }

SUITE(rebuild_crash) { power = false; rebuilt = true; if(choose(2, "files")) inst_set_datasize = 120; user_crash(tier_pick(3, 4), {"k1", "k2"}, {"v1", str(60, 'q')}, 3, {}, 1); }

// ---------------------------------------------------------------- sequential mode
static void seq_crash(int depth, const strs &vals, int extra, const strs &args) {
    Boom boom; Daemon d; d.extra = {"--mode", "seq"}; for(auto &a : args) d.extra.push_back(a);
    if(power) vfs.track = true;
    d.boot(); int c = d.conn(); SeqModel m; str trace; if(power) vfs.flush_all(); std::vector<uint64_t> given; int nv = vals.size();
    SeqModel after; uint64_t hot = 0; bool died = false, has = false; CrashLog cl(trace); if(choose(2, "clock")) step_us = 0;
    for(int step = 0; step < depth && !died; step++) {
        int ng = given.size(); int op = choose(nv + ng * nv + ng + extra, "op"); after = m; has = false;
        try {
            armed = true;
            if(op < nv) { trace += fmt("INSERT v%d; ", op); cl.about("", vals[op], false, true); seq_insert(d, c, m, vals[op]); cl.flying.id = le64(m.last); cl.landed(); given.push_back(m.last); }
            else if((op -= nv) < ng * nv) { has = true; hot = given[op / nv]; trace += fmt("UPDATE #%d v%d; ", op / nv, op % nv); auto i = after.live.find(hot); if(i != after.live.end() && i->second.val != vals[op % nv]) { i->second = {vals[op % nv], vnow() + step_us / 1000000}; cl.about(le64(hot), vals[op % nv], false, true); } seq_update(d, c, m, hot, vals[op % nv]); cl.landed(); }
            else if((op -= ng * nv) < ng) { has = true; hot = given[op]; trace += fmt("DEL #%d; ", op); if(after.live.count(hot)) { cl.about(le64(hot), "", true, true); after.live.erase(hot); after.dead.insert(hot); after.order.erase(std::remove(after.order.begin(), after.order.end(), hot), after.order.end()); } seq_del(d, c, m, hot); cl.landed(); }
            else if((op -= ng) == 0) { trace += "NSJUMP; "; Reply r = d.cmd(c, {"NSJUMP"}); CHECK(r.ok(), "NSJUMP answers %s", r.show().c_str()); }
            else { trace += "STOP+start; "; d.stop(c); if(power) vfs.flush_all(); d.boot(); c = d.conn(); }
            armed = false;
        } catch(Crashed &) { died = true; trace += "crash; "; }
        note_state(vfs.hash("/z") ^ m.hash());
    }
    armed = false;
    if(!died) { d.crash(); has = false; }
    if(power) power_loss();
    note_transition(); logf("history: %s", trace.c_str());
    int ro = readonly ? 1 + choose(3, "read-only") : 0;
    for(; ; ro = 0) {
    std::map<str, str> dd, ii; if(ro & 1) { vfs.ro_dirs.push_back("/z/data"); dd = vfs.snapshot("/z/data"); } if(ro & 2) { vfs.ro_dirs.push_back("/z/index"); ii = vfs.snapshot("/z/index"); } if(ro) { trace += fmt("read-only (%d); ", ro); if(d.start() != RS_IDLE) { CHECK(headless() && inst_exit_code(d.in) > 0, "the server does not start  [%s]", trace.c_str()); trace += "refused; "; vfs.ro_dirs.clear(); continue; } } else d.boot();
    c = d.conn();
    if(has) {
        Reply r = d.cmd(c, {"GET", le64(hot)});
        auto is = [&](SeqModel &x) { auto i = x.live.find(hot); return i == x.live.end() ? r.nil() : r.bulk(i->second.val); };
        if(is(after)) m = after; else CHECK(is(m), "after the crash, id %lu answers %s: neither old nor new  [%s]", (unsigned long) hot, r.show().c_str(), trace.c_str());
    }
    verify_seq(d, c, m, V_BASIC);
    if(!ro) break;
    has = false; if(ro == 2) cl.lax = true; CHECK(d.cmd(c, {"SET", "", "refused"}).err(), "a SET is accepted on a read-only file system  [%s]", trace.c_str()); if(given.size()) { CHECK(d.cmd(c, {"SET", le64(given[0]), "refused"}).err(), "an update is accepted on a read-only file system  [%s]", trace.c_str()); CHECK(d.cmd(c, {"DEL", le64(given[0])}).err(), "a DEL is accepted on a read-only file system  [%s]", trace.c_str()); } verify_seq(d, c, m, V_BASIC);
    if(choose(2, "end")) d.crash(); else d.stop(c);
    CHECK(!(ro & 1) || vfs.snapshot("/z/data") == dd, "the read-only data files have changed  [%s]", trace.c_str()); CHECK(!(ro & 2) || vfs.snapshot("/z/index") == ii, "the read-only index files have changed  [%s]", trace.c_str()); trace += "writable; "; vfs.ro_dirs.clear();
    }
    note_state(vfs.hash("/z") ^ m.hash() * 3);
    cl.crashed(); cl.check("after the crash");
    auto insert = [&](const str &v) { cl.about("", v, false, true); cl.flying.id = seq_insert(d, c, m, v); cl.landed(); };
    insert("afterwards"); verify_seq(d, c, m, V_BASIC); cl.check("after a crash and another insertion");
    if(given.size()) { auto i = m.live.find(given[0]); cl.about(le64(given[0]), "again", false, i != m.live.end()); seq_update(d, c, m, given[0], "again"); cl.landed(); }
    insert("second"); if(power) vfs.flush_all();
    d.restart(); c = d.conn(); verify_seq(d, c, m, V_BASIC); insert("third"); verify_seq(d, c, m, V_BASIC); cl.check("after a crash and a restart");
}
SUITE(crash_seq) { power = false; seq_crash(tier_pick(3, 4), {"v1", "longer-v2"}, 2, {}); }
SUITE(ro_crash) { power = false; readonly = true; if(param("size", 0)) inst_set_datasize = 120; user_crash(tier_pick(3, 4), {"k1", "k2"}, {"v1", str(60, 'q')}, 3, {}, 0); }
SUITE(ro_crash_seq) { power = false; readonly = true; if(param("size", 0)) inst_set_datasize = 120; seq_crash(tier_pick(3, 4), {"v1", str(60, 'q')}, 2, {}); }
SUITE(crash_rotate_seq) { power = false; inst_set_datasize = 120; seq_crash(tier_pick(3, 4), {"v1", str(60, 'q')}, 2, {}); }
SUITE(power_rotate_seq) { power = true; inst_set_datasize = 120; seq_crash(3, {str(60, 'q')}, 1, {"--sync"}); }
SUITE(power_seq) { power = true; seq_crash(tier_pick(3, 4), {"v1", "longer-v2"}, 2, {"--sync"}); }

// ---------------------------------------------------------------- namespace administration
SUITE(crash_ns) {
    Boom boom; Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(), a = d.conn();
    strs keys{"k1", "k2"}, passwords{"first", "a-longer-password", "x"}; std::map<str, NsState> m;
    UserModel def; user_set(d, c, def, "k1", "default-1"); user_set(d, c, def, "k2", "default-2");
    CHECK(d.cmd(a, {"NSNEW", "n1"}).ok(), "NSNEW"); CHECK(d.cmd(a, {"SELECT", "n1"}).ok(), "SELECT"); d.cmd(a, {"SET", "k1", "n1-1"}); d.cmd(a, {"SET", "k2", "n1-2"}); d.hangup(a);
    m["n1"].exists = true; m["n1"].kv = {{"k1", "n1-1"}, {"k2", "n1-2"}}; m["n2"]; std::map<str, NsState> after = m; str trace;
    bool died = false, deleting = false; int depth = tier_pick(2, 3); str hot;
    auto subset = [](const std::map<str, str> &x, const std::map<str, str> &y) { for(auto &k : x) { auto i = y.find(k.first); if(i == y.end() || i->second != k.second) return false; } return true; };
    for(int step = 0; step < depth && !died; step++) {
        int op = choose(13, "op"); after = m; strs cmd; NsState &n = after["n1"];
        switch(op) {
        case 0: cmd = {"NSNEW", "n2"}; after["n2"] = NsState(); after["n2"].exists = true; hot = "n2"; break;
        case 1: cmd = {"NSDEL", "n1"}; after["n1"] = NsState(); hot = "n1"; break;
        case 2: cmd = {"NSSET", "n1", "maxsize", "100000"}; n.maxsize = 100000; hot = "n1"; break;
        case 3: cmd = {"NSSET", "n1", "maxsize", "5"}; n.maxsize = 5; hot = "n1"; break;
        case 4: case 5: case 6: cmd = {"NSSET", "n1", "password", passwords[op - 4]}; n.pass = passwords[op - 4]; hot = "n1"; break;
        case 7: cmd = {"NSSET", "n1", "password", "*"}; n.pass = ""; hot = "n1"; break;
        case 8: cmd = {"NSSET", "n1", "public", "0"}; n.pub = false; hot = "n1"; break;
        case 9: cmd = {"NSSET", "n1", "worm", "1"}; n.worm = true; hot = "n1"; break;
        case 10: cmd = {"NSDEL", "n2"}; after["n2"] = NsState(); hot = "n2"; break;
        case 11: cmd = {"RELOAD", "n1"}; hot = "n1"; break;
        case 12: cmd = {"NSNEW", "n1"}; if(!n.exists) { n = NsState(); n.exists = true; } hot = "n1"; break;
        }
        bool valid = op == 0 ? !m["n2"].exists : op == 10 ? m["n2"].exists : op == 12 ? !m["n1"].exists : m["n1"].exists; if(!valid) after = m;
        deleting = cmd[0] == "NSDEL";
        trace += cmd[0] + " " + cmd[1] + (cmd.size() > 2 ? " " + cmd[2] + " " + cmd[3] : "") + "; ";
        try { armed = true; Reply r = d.cmd(c, cmd); armed = false; CHECK(valid ? r.ok() : r.err(), "%s answers %s", trace.c_str(), r.show().c_str()); m = after; } catch(Crashed &) { died = true; trace += "crash; "; }
        note_state(vfs.hash("/z"));
    }
    armed = false; if(!died) { d.crash(); }
    logf("history: %s", trace.c_str()); note_transition();
    d.boot(); c = d.conn(); verify_user(d, c, def, keys, V_BASIC | V_STATS);
    for(int round = 0; round < 2; round++) {
        for(auto &name : {str("n1"), str("n2")}) {
            NsState s = ns_look(d, name, passwords, keys);
            if(round == 0 && name == hot && died) { if(s == after[name]) m[name] = s; else if(deleting && !(s == m[name]) && subset(s.kv, m[name].kv)) { note_finding("nsdel-crash", "after a crash in the middle of NSDEL, the namespace still exists with part of its files removed"); NsState x = m[name]; x.kv = s.kv; CHECK(s.kv.empty() || s == x, "after the crash, namespace %s is %s: keys are left without its settings %s  [%s]", name.c_str(), s.show().c_str(), x.show().c_str(), trace.c_str()); m[name] = s; } else CHECK(s == m[name], "after the crash, namespace %s is %s: neither %s nor %s  [%s]", name.c_str(), s.show().c_str(), m[name].show().c_str(), after[name].show().c_str(), trace.c_str()); }
            else CHECK(s == m[name], "namespace %s is %s instead of %s  [%s]", name.c_str(), s.show().c_str(), m[name].show().c_str(), trace.c_str());
        }
        if(round == 0) { int e = d.conn(); if(!m["n2"].exists) { CHECK(d.cmd(e, {"NSNEW", "n2"}).ok(), "NSNEW n2 after the crash is refused"); m["n2"].exists = true; } if(m["n1"].exists) { CHECK(d.cmd(e, {"NSDEL", "n1"}).ok(), "NSDEL n1 after the crash is refused"); m["n1"] = NsState(); CHECK(d.cmd(e, {"NSNEW", "n1"}).ok(), "NSNEW n1 after its deletion is refused"); m["n1"].exists = true; } d.restart(); c = d.conn(); verify_user(d, c, def, keys, V_BASIC); }
    }
    note_case(trace);
}

// FLUSH is interrupted: its namespace is empty or as before, its settings stay, the others do not notice, and it can be used again
SUITE(crash_flush) {
    Boom boom; Daemon d; bool seq = choose(2, "mode"); d.extra = {"--mode", seq ? "seq" : "user"}; d.boot(); int c = d.conn(), a = d.conn(); str trace = seq ? "sequential; " : ""; power = false;
    CHECK(d.cmd(c, {"NSNEW", "n"}).ok(), "NSNEW"); CHECK(d.cmd(c, {"NSSET", "n", "password", "pw"}).ok(), "NSSET"); CHECK(d.cmd(c, {"NSSET", "n", "public", "0"}).ok(), "NSSET"); CHECK(d.cmd(c, {"NSSET", "n", "maxsize", "9999"}).ok(), "NSSET"); CHECK(d.cmd(a, {"SELECT", "n", "pw"}).ok(), "SELECT");
    strs keys; UserModel def; SeqModel sdef; if(seq) seq_insert(d, c, sdef, "default-1"); else { user_set(d, c, def, "k1", "default-1"); user_set(d, c, def, "k2", "default-2"); }
    std::map<str, str> kv; std::map<str, std::set<str>> ever; auto set = [&](const str &k, const str &v) { Reply r = d.cmd(a, {"SET", k, v}); CHECK(r.t == '$', "SET answers %s", r.show().c_str()); if(seq && k.empty()) keys.push_back(r.s); else if(!seq && !kv.count(k)) keys.push_back(k); kv[seq && k.empty() ? r.s : k] = v; ever[seq && k.empty() ? r.s : k].insert(v); }; auto jump = [&]() { CHECK(d.cmd(a, {"NSJUMP"}).ok(), "NSJUMP"); trace += "NSJUMP; "; };
    int files = choose(4, "files"); set(seq ? "" : "k1", "one"); set(seq ? "" : "k2", "two"); if(files > 0) jump(); if(choose(2, "update")) { set(seq ? keys[0] : "k1", "one again"); trace += "update; "; } if(choose(2, "delete")) { CHECK(d.cmd(a, {"DEL", keys[1]}).ok(), "DEL"); kv.erase(keys[1]); trace += "delete; "; } if(files > 1) jump(); set(seq ? "" : "k3", "three"); if(files > 2) { jump(); jump(); }
    bool died = false; trace += "FLUSH; "; try { armed = true; Reply r = d.cmd(a, {"FLUSH"}); armed = false; CHECK(r.ok(), "FLUSH answers %s", r.show().c_str()); } catch(Crashed &) { died = true; trace += "crash; "; } armed = false; if(!died) d.crash(); note_state(vfs.hash("/z")); note_transition();
    for(int round = 0; round < 3; round++) {
        d.boot(); c = d.conn(); if(seq) verify_seq(d, c, sdef, V_BASIC | V_STATS); else verify_user(d, c, def, {"k1", "k2"}, V_BASIC | V_STATS);
        NsState s = ns_look(d, "n", {"pw"}, keys); CHECK(s.exists && s.pass == "pw" && !s.pub && s.maxsize == 9999 && !s.worm, "%s: the namespace is %s", trace.c_str(), s.show().c_str());
        if(round == 0) { if(s.kv.empty()) kv.clear(); else if(!died) fail("%s: the namespace is %s, it was flushed", trace.c_str(), s.show().c_str()); else if(s.kv != kv) { note_finding("flush-crash", "after a crash in the middle of FLUSH, the namespace is neither empty nor as before: its keys are those of an earlier moment"); for(auto &x : s.kv) CHECK(ever[x.first].count(x.second), "%s: the namespace is %s", trace.c_str(), s.show().c_str()); kv = s.kv; } }
        else CHECK(s.kv == kv, "%s: the namespace is %s", trace.c_str(), s.show().c_str());
        a = d.conn(); CHECK(d.cmd(a, {"SELECT", "n", "pw"}).ok(), "SELECT");
        if(round == 0) { if(seq) { if(kv.empty()) keys.clear(); set("", "new"); } else { set("k1", "new"); set("k2", str("other")); } trace += "writes; "; if(choose(2, "jump")) jump(); }
        if(round == 1) { CHECK(d.cmd(a, {"FLUSH"}).ok(), "FLUSH"); kv.clear(); if(seq) keys.clear(); set(seq ? "" : "k2", "last"); trace += "FLUSH, write; "; }
        d.stop(); trace += "restart; ";
    }
    note_case(trace);
}
