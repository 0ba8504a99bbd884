// the data log (P21), dirty index files (P22), checksums (P23), index rebuild (P24)
#include "hist.h"
// ---------------------------------------------------------------- P21
static void prefix(const std::map<str, str> &before, const std::map<str, str> &after, const str &how) {
    for(auto &f : before) { auto i = after.find(f.first); if(i == after.end()) fail("%s: %s has disappeared", how.c_str(), f.first.c_str()); if(i->second.size() < f.second.size()) fail("%s: %s shrinks from %zu to %zu bytes", how.c_str(), f.first.c_str(), f.second.size(), i->second.size()); if(i->second.compare(0, f.second.size(), f.second)) { size_t p = 0; while(i->second[p] == f.second[p]) p++; fail("%s: byte %zu of %s has changed", how.c_str(), p, f.first.c_str()); } }
}
static void log_run(Hist &h, int depth, long datasize, const strs &args) {
    inst_set_datasize = datasize; h.start(args);
    // deletions and updates keep their own order; nothing but appended records
    for(int i = 0; i < depth; i++) { auto before = vfs.snapshot("/z/data"); h.step(); auto after = vfs.snapshot("/z/data"); prefix(before, after, h.trace); compare_log(parse_log(), h.log, h.trace); note_state(vfs.hash("/z/data") ^ h.hash()); }
    auto before = vfs.snapshot("/z/data"); h.d.restart(); h.reconnect(); prefix(before, vfs.snapshot("/z/data"), h.trace + " STOP"); compare_log(parse_log(), h.log, h.trace + " STOP"); h.verify(V_GET); note_case(h.trace);
}
SUITE(log_user) { Hist h; h.extras = {"NSJUMP", "RELOAD", "STOP", "KILL"}; log_run(h, tier_pick(5, 6), 0, {}); }
SUITE(log_reads) { Hist h; h.keys = {"k1"}; h.extras = {"READS", "BAD", "IDLE", "NSJUMP", "TERM", "RELOAD"}; log_run(h, tier_pick(4, 5), 0, {}); }
SUITE(log_files) { Hist h; h.keys = {"k1"}; h.vals = {str(40, 'x'), str(90, 'y'), ""}; h.extras = {"STOP", "KILL", "NSJUMP"}; log_run(h, tier_pick(5, 6), 120, {}); }
// files ended by the clock, files of other sizes after a restart
SUITE(log_rotate) { Hist h; h.vals = {"v1", str(60, 'w')}; h.extras = {"IDLE3", "SIZE", "RELOAD"}; log_run(h, tier_pick(5, 6), 120, {"--rotate", "1"}); }
SUITE(log_rotate_seq) { Hist h; h.seq = true; h.vals = {"v1", str(60, 'w')}; h.extras = {"IDLE3", "SIZE", "RELOAD"}; log_run(h, tier_pick(5, 6), 120, {"--rotate", "1"}); }
// P03: whatever the options of each start; everything visible, before and after clean restarts
static void options_run(Hist &h, int depth) {
    static const std::vector<strs> opts{{}, {"--rotate", "1"}, {"--sync"}, {"--synctime", "1"}, {"--verbose"}}; h.extras = {"IDLE3", "SIZE", "STOP", "NSJUMP"}; strs first = opts[choose(opts.size(), "options")]; inst_set_datasize = 120; h.start(first);
    for(auto &x : first) h.trace += x + " "; for(int i = 0; i < depth; i++) { h.step(); note_state(vfs.hash("/z/data") ^ h.hash()); }
    auto second = opts[choose(3, "options")]; h.d.extra = {"--mode", h.seq ? "seq" : "user"}; h.d.extra.insert(h.d.extra.end(), second.begin(), second.end()); h.trace += "restart "; for(auto &x : second) h.trace += x + " "; h.verify(V_ALL & ~(h.seq ? V_HISTORY : 0)); h.d.stop(h.c);
    if(choose(2, "dump")) { auto e = h.d.extra; h.d.extra.push_back("--dump"); h.trace += "dump; "; if(h.d.start() != RS_EXIT || inst_exit_code(h.d.in)) fail("%s: the daemon started to dump its index does not end well", h.trace.c_str()); inst_kill(h.d.in); h.d.extra = e; }
    h.d.boot(); h.reconnect(); h.verify(V_ALL & ~(h.seq ? V_HISTORY : 0));
    h.step(); h.d.restart(); h.reconnect(); h.verify(V_ALL & ~(h.seq ? V_HISTORY : 0)); note_case(h.trace);
}
SUITE(restart_options) { Hist h; h.vals = {"v1", str(60, 'w')}; h.keys = {"k1"}; options_run(h, tier_pick(3, 4)); }
SUITE(restart_options_seq) { Hist h; h.seq = true; h.vals = {str(60, 'w')}; options_run(h, tier_pick(3, 4)); }
SUITE(log_seq) { Hist h; h.seq = true; h.extras = {"NSJUMP", "RELOAD", "STOP"}; log_run(h, tier_pick(5, 6), 0, {}); }
SUITE(log_seq_reads) { Hist h; h.seq = true; h.vals = {"value"}; h.extras = {"READS", "BAD", "KILL"}; log_run(h, tier_pick(5, 6), 0, {}); }
// other namespaces, administration, locks and refused writes do not touch the log
SUITE(log_admin) {
    Hist h; h.keys = {"k1"}; h.vals = {"v1", "v2"}; h.start({"--admin", "root"}); Daemon &d = h.d; CHECK(d.cmd(h.c, {"AUTH", "root"}).ok(), "AUTH"); int o = d.conn(); CHECK(d.cmd(o, {"AUTH", "root"}).ok(), "AUTH"); d.cmd(o, {"NSNEW", "other"}); d.cmd(o, {"SELECT", "other"}); str trace;
    std::vector<strs> cmds{{"NSNEW", "n"}, {"NSDEL", "n"}, {"NSSET", "default", "lock", "1"}, {"NSSET", "default", "freeze", "1"}, {"NSSET", "default", "lock", "0"}, {"RELOAD", "other"}, {"SET", "k1", "in other"}, {"DEL", "k1"}, {"NSJUMP"}, {"NSSET", "other", "worm", "1"}, {"NSINFO", "default"}, {"NSSET", "default", "mode", "seq"}};
    int locked = 0; auto expect = h.log;
    for(int i = 0; i < tier_pick(4, 5); i++) {
        auto before = vfs.snapshot("/z/data/default"); int op = choose(cmds.size() + 4, "op");
        if(op < (int) cmds.size()) { auto &a = cmds[op]; for(auto &x : a) trace += x + " "; Reply r = d.cmd(o, a); if(a[0] == "NSSET" && r.ok() && (a[2] == "lock" || a[2] == "freeze")) locked = a[3] == "1"; if(a[0] == "NSSET" && a[2] == "mode") { CHECK(h.log.empty() || r.err(), "the mode of a namespace in use is changed"); if(r.ok()) return; } }
        else if((op -= cmds.size()) < 3) { strs a = op == 2 ? strs{"DEL", "k1"} : strs{"SET", "k1", h.vals[op]}; trace += a[0] + " k1 " + (op < 2 ? a[2] : ""); advance(1000000); Reply r = d.cmd(h.c, a); if(!r.err() && !r.nil()) { Rec x; x.id = "k1"; x.val = op == 2 ? "" : a[2]; x.del = op == 2; x.ts = vnow(); h.log.push_back(x); if(op == 2) h.m.del("k1"); else h.m.set("k1", a[2], vnow()); } else if(!locked) CHECK(r.nil() || op == 2, "%s: SET answers %s", trace.c_str(), r.show().c_str()); }
        else { trace += "DEL with timestamp"; Reply r = d.cmd(o, {"SET", "k9", "x", "12345"}); }
        trace += "; "; prefix(before, vfs.snapshot("/z/data/default"), trace); compare_log(parse_log(), h.log, trace); note_state(vfs.hash("/z") + locked);
    }
    note_case(trace);
}

// ---------------------------------------------------------------- P22
static std::set<int> touched(const std::map<str, str> &before, const std::map<str, str> &after) { std::set<int> s; for(auto &f : before) { size_t p = f.first.rfind('/'); if(f.first[p + 1] != 'i') continue; auto i = after.find(f.first); if(i == after.end() || i->second.compare(0, f.second.size(), f.second)) s.insert(atoi(f.first.c_str() + p + 2)); } return s; }
static void dirty_is(Daemon &d, int c, const std::set<int> &want, const str &how) {
    Reply r = d.cmd(c, {"INDEX", "DIRTY"}); CHECK(r.t == '*', "%s: INDEX DIRTY answers %s", how.c_str(), r.show().c_str()); std::set<int> got; for(auto &x : r.a) { CHECK(x.t == ':', "%s: INDEX DIRTY answers %s", how.c_str(), r.show().c_str()); CHECK(got.insert(x.n).second, "%s: INDEX DIRTY lists %lld twice", how.c_str(), x.n); }
    str g, w; for(int x : got) g += fmt("%d ", x); for(int x : want) w += fmt("%d ", x); CHECK(got == want, "%s: INDEX DIRTY lists [ %s] instead of [ %s]", how.c_str(), g.c_str(), w.c_str());
}
static void dirty_run(Hist &h, int depth, long datasize, int pre, bool hook = false) {
    std::set<int> dirty; bool reset = false; if(hook) { hook_outcome = [&](const strs &a) { if(a[1] != "jump-index") return 0; static const int codes[] = {0, 1, 255}; int r = codes[choose(tier_pick(2, 3), "jump-index")]; h.trace += fmt("(hook ends with %d) ", r); if(!r) reset = true; return r; }; }
    inst_set_datasize = datasize; h.start(hook ? strs{"--hook", "/hook"} : strs()); int stride = pre > 20 ? 7 : 1;
    // a row of files to begin with
    for(int i = 0; i < pre; i++) { if(i % stride == 0) { if(h.seq) { seq_insert(h.d, h.c, h.q, fmt("pre%d", i)); h.given.push_back(h.q.last); } else { str k = fmt("p%d", i); user_set(h.d, h.c, h.m, k, "pre"); } } CHECK(h.d.cmd(h.c, {"NSJUMP"}).ok(), "NSJUMP"); }
    if(pre) { int e = choose(3, "start"); if(e == 1) h.d.restart(), h.reconnect(); if(e == 2) CHECK(h.d.cmd(h.c, {"RELOAD", "default"}).ok(), "RELOAD"); h.trace += fmt("%d files, %s; ", pre + 1, e == 0 ? "running" : e == 1 ? "restarted" : "reloaded"); dirty_is(h.d, h.c, dirty, h.trace); }
    for(int i = 0; i < depth; i++) {
        auto before = vfs.snapshot(index_dir()); size_t t = h.trace.size(); h.step(); str op = h.trace.substr(t);
        if(op == "RESET; ") dirty.clear();
        else { auto now = touched(before, vfs.snapshot(index_dir())); if(op == "STOP; " || op == "RELOAD; " || op == "TERM; " || op == "KILL; ") { CHECK(now.empty(), "%s: index files are modified", h.trace.c_str()); dirty.clear(); } else { if(reset) dirty.clear(); dirty.insert(now.begin(), now.end()); } reset = false; }
        dirty_is(h.d, h.c, dirty, h.trace); note_state(h.hash() ^ vfs.hash("/z/index")); note_transition();
    }
    note_case(h.trace);
}
SUITE(dirty_user) { Hist h; h.vals = {"v1"}; h.extras = {"NSJUMP", "RELOAD", "READS", "RESET"}; h.vals.push_back("v2"); dirty_run(h, tier_pick(4, 5), 0, 0); }
SUITE(dirty_seq) { Hist h; h.seq = true; h.vals = {"v1", "v2"}; h.extras = {"NSJUMP", "STOP", "RESET"}; dirty_run(h, tier_pick(6, 7), 0, 0); }
// the jump-index hook resets the list when it succeeds
SUITE(dirty_hook) { Hist h; h.keys = {"k1"}; h.seq = choose(2, "mode"); h.vals = {str(60, 'x'), "v2"}; h.extras = {"NSJUMP", "RESET"}; dirty_run(h, tier_pick(5, 6), choose(2, "small files") ? 120 : 0, 0, true); hook_outcome = nullptr; }
SUITE(dirty_many) { static const int pres[] = {6, 7, 8, 9, 15, 16, 17, 24, 25, 40, 63, 64, 65, 100}; int n = pres[choose(tier_pick(11, 14), "files")]; Hist h; int s = n > 20 ? 7 : 1; for(int i = 0; i < n; i += s) h.keys.push_back(fmt("p%d", i)); h.keys.erase(h.keys.begin(), h.keys.begin() + 2); h.vals = {"v1"}; h.extras = {"NSJUMP", "RESET"}; dirty_run(h, 2, 0, n); }
SUITE(dirty_many_seq) { static const int pres[] = {7, 8, 9, 16, 17, 40, 65}; int n = pres[choose(7, "files")]; Hist h; h.seq = true; h.vals = {"v1", "v2"}; h.extras = {"NSJUMP", "RESET"}; dirty_run(h, tier_pick(2, 3), 0, n); }

// ---------------------------------------------------------------- P23
static int run_tool(const str &name, const strs &args) { Instance *t = inst_tool(name); strs a{name}; for(auto &x : args) a.push_back(x); RunStatus r = inst_start(t, a); if(r == RS_CRASH) fail("%s crashes", name.c_str()); if(r != RS_EXIT) fail("%s does not end", name.c_str()); int code = inst_exit_code(t); inst_reset(t); return code & 255; }
// one changed byte or one burst of up to four bytes within [at, end); false: nothing changed
static const int QUICK_CHANGES = 10;
static bool damage(str &s, size_t at, size_t end, int x, str &how) {
    str old = s; static const int masks[] = {1, 0x80, 0xff, 0x10, 0x55, 0x20}; if(thorough() && x >= QUICK_CHANGES) { s[at] ^= x - QUICK_CHANGES + 1; how += fmt("^ 0x%02x", x - QUICK_CHANGES + 1); return true; }
    if(x < 6) { s[at] ^= masks[x]; how += fmt("^ 0x%02x", masks[x]); }
    else if(x == 6) { for(size_t i = at; i < std::min(end, at + 4); i++) s[i] ^= 0x5a + i % 3; how += "burst of 4"; }
    else if(x == 7) { for(size_t i = at; i < std::min(end, at + 4); i++) s[i] = 0; how += "4 bytes zeroed"; }
    else if(x == 8) { if(at + 1 < end) std::swap(s[at], s[at + 1]); how += "swapped with the next one"; }
    else { for(size_t i = at; i < std::min(end, at + 3); i++) s[i] = 0xff; how += "3 bytes set"; }
    return s != old;
}
static int changes() { return choose(thorough() ? QUICK_CHANGES + 255 : QUICK_CHANGES, "change"); }
static void corrupt_base(Daemon &d, int c, UserModel &m, int kind) {
    user_set(d, c, m, "other", "untouched"); if(kind == 1) user_set(d, c, m, "k1", "former value"); user_set(d, c, m, "k1", kind == 2 ? "" : "payload-of-k1"); if(kind == 3) CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); user_set(d, c, m, "k2", "x"); if(kind == 4) user_del(d, c, m, "k2");
}
// every byte of every record's payload and checksum, with every listed change
SUITE(corrupt_check) {
    int kind = choose(5, "layout"); Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(); UserModel m; corrupt_base(d, c, m, kind); if(choose(2, "restart")) { d.restart(); c = d.conn(); }
    auto log = parse_log(); int which = choose(log.size(), "record"); Rec r = log[which]; int n = 4 + r.val.size(); int b = choose(n, "byte"); int x = changes();
    bool live = m.live.count(r.id) && !r.del && m.live[r.id].back().ts == r.ts; size_t at = b < 4 ? r.off + 9 + b : r.off + 18 + r.id.size() + b - 4; str path = data_dir() + fmt("/d%d", r.file); str s = vfs.read(path), intact = s, how = fmt("layout %d, record %d (%s), byte %zu ", kind, which, r.id.c_str(), at); if(!damage(s, at, b < 4 ? r.off + 13 : r.off + 18 + r.id.size() + r.val.size(), x, how)) return; vfs.get(path)->data = s;
    for(auto &k : m.live) { Reply q = d.cmd(c, {"CHECK", k.first}); bool bad = live && k.first == r.id; if(bad) CHECK(q.is(0) || q.err(), "%s: CHECK %s answers %s", how.c_str(), k.first.c_str(), q.show().c_str()); else CHECK(q.is(1), "%s: CHECK of the intact %s answers %s", how.c_str(), k.first.c_str(), q.show().c_str()); }
    // repaired again
    vfs.get(path)->data = intact; for(auto &k : m.live) { Reply q = d.cmd(c, {"CHECK", k.first}); CHECK(q.is(1), "%s: after repair CHECK answers %s", how.c_str(), q.show().c_str()); } note_state(fnvs(how)); note_case(how);
}
SUITE(corrupt_check_seq) {
    Daemon d; d.extra = {"--mode", "seq"}; d.boot(); int c = d.conn(); SeqModel q; seq_insert(d, c, q, "first"); seq_insert(d, c, q, "second value"); if(choose(2, "update")) seq_update(d, c, q, 0, "replaced"); if(choose(2, "jump")) CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); seq_insert(d, c, q, ""); auto log = parse_log(); int which = choose(log.size(), "record"); Rec r = log[which]; int b = choose(4 + r.val.size(), "byte"); int x = changes();
    size_t at = b < 4 ? r.off + 9 + b : r.off + 18 + r.id.size() + b - 4; str path = data_dir() + fmt("/d%d", r.file); str s = vfs.read(path), how = fmt("record %d, byte %zu ", which, at); if(!damage(s, at, b < 4 ? r.off + 13 : r.off + 18 + r.id.size() + r.val.size(), x, how)) return; vfs.get(path)->data = s; bool last = true; for(size_t i = which + 1; i < log.size(); i++) if(log[i].id == r.id) last = false;
    for(auto &k : q.live) { Reply y = d.cmd(c, {"CHECK", le64(k.first)}); bool bad = last && le64(k.first) == r.id; if(bad) CHECK(y.is(0) || y.err(), "%s: CHECK %lu answers %s", how.c_str(), (long) k.first, y.show().c_str()); else CHECK(y.is(1), "%s: CHECK of the intact %lu answers %s", how.c_str(), (long) k.first, y.show().c_str()); } note_state(fnvs(how)); note_case(how);
}
static int integrity(int file) { return run_tool("integrity-check", {data_dir() + fmt("/d%d", file)}); }
SUITE(corrupt_tool) {
    int kind = choose(5, "layout"); Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(); UserModel m; corrupt_base(d, c, m, kind); d.stop(c);
    auto log = parse_log(); int files = vfs.list(data_dir()).size(); for(int f = 0; f < files; f++) { int r = integrity(f); if(r) fail("layout %d: integrity-check reports %d on the intact data file %d", kind, r, f); }
    int which = choose(log.size(), "record"); Rec r = log[which]; int b = choose(4 + r.val.size(), "byte"); int x = changes();
    size_t at = b < 4 ? r.off + 9 + b : r.off + 18 + r.id.size() + b - 4; str path = data_dir() + fmt("/d%d", r.file); str s = vfs.read(path), how = fmt("layout %d, record %d (%s%s), byte %zu ", kind, which, r.del ? "deletion of " : "", r.id.c_str(), at); if(!damage(s, at, b < 4 ? r.off + 13 : r.off + 18 + r.id.size() + r.val.size(), x, how)) return; vfs.get(path)->data = s;
    for(int f = 0; f < files; f++) { auto before = vfs.read(data_dir() + fmt("/d%d", f)); int v = integrity(f); note_transition(); if(f == r.file && !v) fail("%s: integrity-check reports success", how.c_str()); if(f != r.file && v) fail("%s: integrity-check reports %d on the intact file %d", how.c_str(), v, f); if(before != vfs.read(data_dir() + fmt("/d%d", f))) fail("integrity-check modifies the file"); } note_state(fnvs(how)); note_case(how);
}
// every truncation: complete records are fine, anything else is reported
SUITE(corrupt_truncated) {
    int kind = choose(5, "layout"); Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(); UserModel m; corrupt_base(d, c, m, kind); d.stop(c);
    auto log = parse_log(); str path = data_dir() + "/d0", s = vfs.read(path); std::set<size_t> good{28}; for(auto &r : log) if(r.file == 0) good.insert(r.off + 18 + r.id.size() + r.val.size()); size_t n = choose(s.size() + 1, "length"); vfs.get(path)->data = s.substr(0, n); int v = integrity(0); note_transition(); str how = fmt("layout %d, file cut after %zu of %zu bytes", kind, n, s.size());
    if(good.count(n) && v) fail("%s: integrity-check reports %d although all records are intact", how.c_str(), v); if(!good.count(n) && !v) fail("%s: integrity-check reports success", how.c_str()); note_state(fnvs(how)); note_case(how);
}
// any number of corrupted records, at any place
SUITE(corrupt_many) {
    static const int counts[] = {1, 2, 3, 127, 128, 255, 256, 257, 511, 512}; int n = counts[choose(tier_pick(8, 10), "count")]; int sz = choose(3, "size"); Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(); for(int i = 0; i < n + 2; i++) d.cmd(c, {"SET", fmt("key%d", i), sz == 0 ? fmt("v%d", i) : str(sz == 1 ? 100 : 3000, 'a' + i % 26)}); d.stop(c);
    str path = data_dir() + "/d0"; if(integrity(0)) fail("integrity-check reports an error on %d intact records", n + 2); auto log = parse_log(); str s = vfs.read(path); int skip = choose(3, "from"); for(int i = 0; i < n; i++) s[log[i + skip].off + 18 + log[i + skip].id.size()] ^= 0x20; vfs.get(path)->data = s; int v = integrity(0); note_transition(2); if(!v) fail("integrity-check reports success with %d corrupted records", n); note_case(fmt("%d corrupted records from %d", n, skip)); note_state(n * 3 + skip);
}
SUITE(corrupt_history) { Hist h; h.keys = {"k1", "k2"}; h.vals = {"v1", ""}; h.extras = {"NSJUMP", "STOP"}; h.start(); for(int i = 0; i < tier_pick(4, 5); i++) h.step(); h.d.stop(h.c); int f = 0; for(auto &x : vfs.list(data_dir())) { (void) x; int v = integrity(f); if(v) fail("%s: integrity-check reports %d on data file %d", h.trace.c_str(), v, f); f++; } note_state(vfs.hash("/z/data")); note_transition(); note_case(h.trace); }

// ---------------------------------------------------------------- P24
void rebuild(const str &mode, const str &ns, const str &how, const strs &more) { vfs.rmtree("/z/index"); vfs.mkdirs("/z/index"); auto before = vfs.snapshot("/z/data"); strs args{"--data", "/z/data", "--index", "/z/index", "--namespace", ns, "--mode", mode}; for(auto &x : more) args.push_back(x); int v = run_tool("index-rebuild", args); if(v) fail("%s: index-rebuild ends with %d", how.c_str(), v); if(before != vfs.snapshot("/z/data")) fail("%s: index-rebuild modifies the data files", how.c_str()); }
static void rebuild_run(Hist &h, int depth, long datasize) {
    inst_set_datasize = datasize; h.start(); for(int i = 0; i < depth; i++) h.step();
    h.d.stop(h.c); rebuild(h.seq ? "seq" : "user", "default", h.trace); h.trace += "rebuild; "; note_state(vfs.hash("/z")); note_transition();
    h.d.boot(); h.reconnect(); h.verify(V_BASIC | V_STATS | V_SCAN);
    // and it goes on working
    if(h.seq) { seq_insert(h.d, h.c, h.q, "after"); if(h.given.size()) { uint64_t id = h.given[0]; seq_update(h.d, h.c, h.q, id, "changed"); } } else { user_set(h.d, h.c, h.m, h.keys[0], "after"); user_del(h.d, h.c, h.m, h.keys[0]); user_set(h.d, h.c, h.m, h.keys.back(), "again"); }
    h.d.restart(); h.reconnect(); h.verify(V_BASIC | V_STATS); note_case(h.trace);
}
SUITE(rebuild_user) { Hist h; h.extras = {"NSJUMP"}; rebuild_run(h, tier_pick(5, 6), 0); }
SUITE(rebuild_deep) { Hist h; h.keys = {"k1"}; h.vals = {"v1", ""}; h.extras = {"NSJUMP", "STOP"}; rebuild_run(h, tier_pick(6, 7), 0); }
SUITE(rebuild_collide) { Hist h; str k = "abcde"; h.keys = {k, crc32c_partner(k), str(255, 'k')}; h.vals = {"v1", crc32c_partner("value-1")}; rebuild_run(h, tier_pick(4, 5), 0); }
SUITE(rebuild_files) { Hist h; h.keys = {"k1", "k2"}; h.vals = {str(50, 'x'), str(90, 'y')}; rebuild_run(h, tier_pick(5, 6), 120); }
SUITE(rebuild_seq) { Hist h; h.seq = true; h.extras = {"NSJUMP"}; rebuild_run(h, tier_pick(5, 6), 0); }
SUITE(rebuild_seq_files) { Hist h; h.seq = true; h.vals = {str(50, 'x'), str(90, 'y')}; h.extras = {"STOP"}; rebuild_run(h, tier_pick(4, 5), 120); }
// back in time: the state after the last operation made before the limit
SUITE(rebuild_time) {
    Hist h; h.vals = {"v1", ""}; h.extras = {"NSJUMP"}; h.start(); int n = tier_pick(4, 6); std::vector<UserModel> was{h.m}; std::vector<int64_t> when{vnow()}; for(int i = 0; i < n; i++) { h.step(); was.push_back(h.m); when.push_back(vnow()); }
    int at = 1 + choose(n, "limit"); h.d.stop(h.c); h.trace += fmt("rebuild up to step %d; ", at); rebuild("user", "default", h.trace, {"--time", fmt("%ld", (long) when[at])}); note_state(vfs.hash("/z")); note_transition();
    h.d.boot(); h.reconnect(); h.m = was[at]; h.verify(V_BASIC | V_STATS | V_SCAN); user_set(h.d, h.c, h.m, h.keys[0], "after"); user_del(h.d, h.c, h.m, h.keys[0]); user_set(h.d, h.c, h.m, h.keys.back(), "again"); h.d.restart(); h.reconnect(); h.verify(V_BASIC | V_STATS); note_case(h.trace);
}
// a named namespace, next to another one
SUITE(rebuild_named) {
    Daemon d; d.extra = {"--mode", "user"}; d.boot(); int c = d.conn(); CHECK(d.cmd(c, {"NSNEW", "N"}).ok(), "NSNEW"); CHECK(d.cmd(c, {"NSNEW", "M"}).ok(), "NSNEW"); std::map<str, str> kv[2]; str trace; strs nss{"N", "M"};
    for(int i = 0; i < tier_pick(4, 5); i++) { int n = choose(2, "ns"); CHECK(d.cmd(c, {"SELECT", nss[n]}).ok(), "SELECT"); int op = choose(5, "op"); trace += nss[n]; if(op < 4) { str k = op & 1 ? "a" : "b", v = fmt("v%d", i); trace += " SET " + k + "; "; if(op >= 2) { trace += "DEL " + k + "; "; d.cmd(c, {"SET", k, v}); d.cmd(c, {"DEL", k}); kv[n].erase(k); } else { CHECK(d.cmd(c, {"SET", k, v}).bulk(k), "SET"); kv[n][k] = v; } } else { trace += " NSJUMP; "; CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); } }
    d.stop(c); vfs.rmtree("/z/index"); vfs.mkdirs("/z/index"); for(auto &n : {"default", "N", "M"}) { int v = run_tool("index-rebuild", {"--data", "/z/data", "--index", "/z/index", "--namespace", n, "--mode", "user"}); if(v) fail("%s: index-rebuild of %s ends with %d", trace.c_str(), n, v); }
    d.boot(); c = d.conn(); for(int n = 0; n < 2; n++) { CHECK(d.cmd(c, {"SELECT", nss[n]}).ok(), "%s: SELECT %s", trace.c_str(), nss[n].c_str()); for(auto k : {"a", "b"}) { Reply r = d.cmd(c, {"GET", k}); if(kv[n].count(k)) CHECK(r.bulk(kv[n][k]), "%s: %s in %s is %s", trace.c_str(), k, nss[n].c_str(), r.show().c_str()); else CHECK(r.nil(), "%s: the deleted %s in %s is %s", trace.c_str(), k, nss[n].c_str(), r.show().c_str()); } } note_state(vfs.hash("/z")); note_case(trace);
}
// one file operation of the tool fails: it says so, or the index is complete; the data files are never touched
SUITE(rebuild_fault) {
    Hist h; h.seq = choose(2, "mode"); h.start(); if(h.seq) { for(int i = 0; i < 3; i++) seq_insert(h.d, h.c, h.q, fmt("value-%d", i)); h.d.cmd(h.c, {"NSJUMP"}); seq_insert(h.d, h.c, h.q, "later"); seq_update(h.d, h.c, h.q, 1, "changed"); seq_del(h.d, h.c, h.q, 2); } else { user_set(h.d, h.c, h.m, "k1", "first"); user_set(h.d, h.c, h.m, "k2", "second"); user_del(h.d, h.c, h.m, "k1"); user_set(h.d, h.c, h.m, "k2", "other"); h.d.cmd(h.c, {"NSJUMP"}); user_set(h.d, h.c, h.m, "k1", "third"); user_del(h.d, h.c, h.m, "k2"); }
    h.d.stop(h.c); vfs.rmtree("/z/index"); vfs.mkdirs("/z/index"); auto before = vfs.snapshot("/z/data"); int how = choose(4, "fault"), at = choose(tier_pick(150, 200), "operation"), n = 0; bool hit = false, lookup = false;
    sys_hook = [&](SysKind k, const str &p, long len) { SysAct a; if(k == SK_SEEK || k == SK_STAT || k == SK_CLOSE) return a; int i = n++; if(i == at || (how == 3 && i > at && sk_mutates(k))) { if(how == 3 && !sk_mutates(k)) return a; hit = true; logf("FAULT at %s of %s", sk_name(k), p.c_str()); if((k == SK_READ || k == SK_OPEN) && p.substr(0, 8) == "/z/index") lookup = true; if(how == 0) a.err = EIO; else if(how == 1) { if(k == SK_WRITE || k == SK_READ) a.limit = std::max(1L, len / 2); else a.err = EMFILE; } else a.err = ENOSPC; } return a; };
    int v = run_tool("index-rebuild", {"--data", "/z/data", "--index", "/z/index", "--namespace", "default", "--mode", h.seq ? "seq" : "user"}); sys_hook = nullptr; if(!hit) return; if(before != vfs.snapshot("/z/data")) fail("index-rebuild modifies the data files when file operation %d fails (%d)", at, how);
    note_case(fmt("fault %d at %d: %d", how, at, v)); note_state(vfs.hash("/z/index")); note_transition(); if(v) return; if(h.seq && lookup) { note_finding("seq-lookup-nil", "sequential mode: index-rebuild ends with success although an entry of the index could not be read (its update or deletion is lost)"); return; } h.d.boot(); h.reconnect(); h.verify(V_BASIC | V_SCAN);
}
// one file operation of the check fails: it does not pretend that everything was verified
SUITE(corrupt_fault) {
    Hist h; h.start(); user_set(h.d, h.c, h.m, "k1", "first"); user_set(h.d, h.c, h.m, "k2", ""); user_del(h.d, h.c, h.m, "k1"); user_set(h.d, h.c, h.m, "k1", str(3000, 'x')); h.d.stop(h.c); bool bad = choose(2, "damaged"); str f = data_dir() + "/d0", s = vfs.read(f); int at0 = bad ? choose(2, "where") : 0; if(bad) { s[at0 ? s.size() - 1 : 28 + 18 + 2] ^= 1; vfs.put(f, s); }
    int how = choose(3, "fault"), at = choose(60, "operation"), n = 0; bool hit = false; SysKind kind = SK_READ;
    sys_hook = [&](SysKind k, const str &, long len) { SysAct a; if(k == SK_SEEK || k == SK_STAT || k == SK_CLOSE) return a; if(n++ == at) { hit = true; kind = k; if(how == 0) a.err = EIO; else if(how == 1) { if(k == SK_READ) a.limit = std::max(1L, len / 2); else a.err = EMFILE; } else a.err = ENOENT; } return a; };
    int v = run_tool("integrity-check", {f}); sys_hook = nullptr; if(!hit) return; note_case(fmt("damaged %d %d, fault %d at %d: %d", bad, at0, how, at, v)); note_state(at * 16 + how * 4 + bad * 2 + at0); note_transition();
    if(!v && bad) fail("integrity-check ends with success on a damaged file when file operation %d (%s) fails (%d)", at, sk_name(kind), how); if(!v && how != 1) fail("integrity-check ends with success although file operation %d (%s) failed (%d): not everything was verified", at, sk_name(kind), how); if(s != vfs.read(f)) fail("integrity-check modifies the file");
}
// over an index which is already there: refused without changing anything, or right
static void over_run(Hist &h, int depth) {
    h.start(); for(int i = 0; i < depth; i++) h.step(); h.d.stop(h.c); auto before = vfs.snapshot("/z"); if(choose(2, "emptied")) { for(auto &x : vfs.list(index_dir())) if(x[0] == 'i' && x != "i0") vfs.rm(index_dir() + "/" + x); str f = index_dir() + "/i0"; vfs.put(f, vfs.read(f).substr(0, 29)); before = vfs.snapshot("/z"); h.trace += "(entries removed) "; }
    int v = run_tool("index-rebuild", {"--data", "/z/data", "--index", "/z/index", "--namespace", "default", "--mode", h.seq ? "seq" : "user"}); h.trace += fmt("rebuild over -> %d;", v); note_case(h.trace); note_state(vfs.hash("/z")); note_transition(); bool emptied = h.trace.find("(entries") != str::npos;
    if(v && emptied) fail("%s refused without an index", h.trace.c_str()); if(v && before != vfs.snapshot("/z")) fail("%s: index-rebuild ends with %d and changes the files", h.trace.c_str(), v);
    h.d.boot(); h.reconnect(); h.verify(V_BASIC | V_SCAN); h.step(); h.verify(V_BASIC); h.d.restart(); h.reconnect(); h.verify(V_BASIC | V_SCAN);
}
SUITE(rebuild_over) { Hist h; h.extras = {"NSJUMP"}; over_run(h, tier_pick(3, 4)); }
SUITE(rebuild_over_seq) { Hist h; h.seq = true; h.extras = {"NSJUMP"}; over_run(h, tier_pick(3, 4)); }
