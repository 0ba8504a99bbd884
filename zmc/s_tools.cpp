// P30: the offline tools (index-dump, namespace-dump, namespace-editor, quick-compact)
#include "hist.h"
#include "world.h"
static int tool(const str &name, const strs &args, str *out = nullptr) {
    Instance *t = inst_tool(name); strs a{name}; for(auto &x : args) a.push_back(x); str o, what = name; for(auto &x : args) what += " " + esc(x, 60);
    sut_output = &o; RunStatus r = inst_start(t, a); sut_output = nullptr; if(r == RS_CRASH) fail("%s crashes", what.c_str()); if(r != RS_EXIT) fail("%s does not end", what.c_str());
    int code = inst_exit_code(t); inst_reset(t); if(out) *out = o; return code & 255;
}
static str hex(const str &s) { str o = "0x"; for(unsigned char c : s) o += fmt("%02x", c); return o; }
static str low(str s) { for(auto &c : s) c = tolower(c); return s; }
// "   name : value" lines; the value of every line called name, in order
static strs values(const str &out, const str &name) {
    strs v; size_t i = 0; while(i < out.size()) { size_t j = out.find('\n', i); if(j == str::npos) j = out.size(); str l = out.substr(i, j - i); i = j + 1; size_t a = l.find(name); if(a == str::npos) continue; size_t c = l.find(':', a + name.size()); if(c == str::npos || l.substr(a + name.size(), c - a - name.size()).find_first_not_of(' ') != str::npos) continue; c = l.find_first_not_of(' ', c + 1); v.push_back(c == str::npos ? str() : l.substr(c)); }
    return v;
}
// ---------------------------------------------------------------- index-dump
struct Item { int idlength; uint32_t offset, length; int flags; uint32_t dataid, crc, parentoff; str id; };
static std::vector<Item> items(const str &dir, int n) {
    std::vector<Item> v; for(int f = 0; f < n; f++) { str s = vfs.read(dir + fmt("/i%d", f)); const size_t H = 29, S = 1 + 4 + 4 + 4 + 1 + 4 + 4 + 4 + 4 + 4; size_t at = H; if(s.size() < H) fail("i%d is not complete", f);
        while(at + S <= s.size()) { const char *p = s.data() + at; Item i; i.idlength = (unsigned char) p[0]; i.offset = rd32(s, at + 1); i.length = rd32(s, at + 5); i.flags = (unsigned char) p[13]; i.dataid = rd32(s, at + 14); i.crc = rd32(s, at + 22); i.parentoff = rd32(s, at + 30); i.id = s.substr(at + S, i.idlength); at += S + i.idlength; v.push_back(i); }
        if(at != s.size()) fail("i%d: malformed entry at %zu", f, at); }
    return v;
}
static void dump_run(Hist &h, int depth, long datasize) {
    inst_set_datasize = datasize; h.start(); for(int i = 0; i < depth; i++) h.step(); h.d.stop(h.c); auto before = vfs.snapshot("/z"); str out; int n = vfs.list(index_dir()).size() - 1; auto want = items(index_dir(), n);
    int v = tool("index-dump", {index_dir()}, &out); if(v) fail("%s: index-dump ends with %d", h.trace.c_str(), v); if(before != vfs.snapshot("/z")) fail("%s: index-dump modifies the files", h.trace.c_str());
    strs len = values(out, "id length"), size = values(out, "data length"), off = values(out, "data offset"), file = values(out, "data fileid"), flags = values(out, "entry flags"), crc = values(out, "data crc"), po = values(out, "parent offs"), key = values(out, "entry key");
    if(len.size() != want.size() || key.size() != want.size() || off.size() != want.size()) fail("%s: index-dump shows %zu entries, there are %zu", h.trace.c_str(), len.size(), want.size());
    for(size_t i = 0; i < want.size(); i++) { Item &w = want[i]; if(len[i] != fmt("%d", w.idlength) || size[i] != fmt("%u", w.length) || off[i] != fmt("%u", w.offset) || file[i] != fmt("%u", w.dataid) || strtol(flags[i].c_str(), 0, 0) != w.flags || strtoul(crc[i].c_str(), 0, 16) != w.crc || po[i] != fmt("%u", w.parentoff) || low(key[i]) != hex(w.id)) fail("%s: index-dump shows entry %zu as %s (%s) in %s at %s, %s bytes, flags %s: it is %s in %u at %u, %u bytes, flags %d", h.trace.c_str(), i, key[i].c_str(), len[i].c_str(), file[i].c_str(), off[i].c_str(), size[i].c_str(), flags[i].c_str(), hex(w.id).c_str(), w.dataid, w.offset, w.length, w.flags); }
    // the entries shown are those of the model: exactly the live keys remain once the deleted and replaced ones are left out
    std::map<str, std::pair<bool, uint32_t>> last; for(size_t i = 0; i < want.size(); i++) if(!(want[i].flags & 1) || !h.seq) last[want[i].id] = {strtol(flags[i].c_str(), 0, 0) & 1, strtoul(size[i].c_str(), 0, 10)};
    size_t live = 0; for(auto &x : last) if(!x.second.first) { live++; if(!h.seq) { auto m = h.m.live.find(x.first); if(m == h.m.live.end()) fail("%s: index-dump shows %s as present", h.trace.c_str(), esc(x.first).c_str()); if(m->second.back().val.size() != x.second.second) fail("%s: index-dump shows %s with %u bytes", h.trace.c_str(), esc(x.first).c_str(), x.second.second); } }
    if(live != (h.seq ? h.q.live.size() : h.m.live.size())) fail("%s: index-dump shows %zu keys, there are %zu", h.trace.c_str(), live, h.seq ? h.q.live.size() : h.m.live.size());
    note_case(h.trace); note_state(vfs.hash("/z")); note_transition(); h.d.boot(); h.reconnect(); h.verify(V_BASIC);
}
SUITE(dump_user) { Hist h; h.keys = {"k1", str("\0\xff", 2), str(255, 'k')}; h.extras = {"NSJUMP"}; dump_run(h, tier_pick(4, 5), 0); }
SUITE(dump_seq) { Hist h; h.seq = true; h.extras = {"NSJUMP", "STOP"}; dump_run(h, tier_pick(4, 5), 0); }
SUITE(dump_files) { Hist h; h.vals = {str(50, 'x'), str(90, 'y')}; dump_run(h, tier_pick(5, 6), 120); }
// every field of an entry at the limits of its size
SUITE(dump_values) {
    Hist h; h.start(); h.trace = "SET SET"; user_set(h.d, h.c, h.m, "k1", "first"); user_set(h.d, h.c, h.m, "k2", "second"); h.d.stop(h.c); str f = index_dir() + "/i0", s = vfs.read(f); const size_t S = 34;
    static const struct { const char *label; int at; } field[] = {{"data offset", 1}, {"data length", 5}, {"previous", 9}, {"data fileid", 14}, {"data crc", 22}, {"parent id", 26}, {"parent offs", 30}}; static const uint32_t val[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000, 2147483647u, 2147483648u, 4294967294u, 4294967295u};
    int which = choose(2, "entry"), fi = choose(7, "field"); uint32_t v = val[choose(15, "value")]; size_t base = 29 + which * (S + 2); str b = le64(v).substr(0, 4); s.replace(base + field[fi].at, 4, b); vfs.put(f, s); str out; auto before = vfs.snapshot("/z");
    int r = tool("index-dump", {index_dir()}, &out); if(r) fail("index-dump ends with %d", r); if(before != vfs.snapshot("/z")) fail("index-dump modifies the files"); note_case(fmt("%s %u", field[fi].label, v)); note_state(fnvs(s)); note_transition();
    for(int i = 0; i < 7; i++) { strs l = values(out, field[i].label); if(l.size() != 2) fail("index-dump shows %zu times %s", l.size(), field[i].label); for(int e = 0; e < 2; e++) { uint32_t is = rd32(s, 29 + e * (S + 2) + field[i].at); if(strtoull(l[e].c_str(), 0, i == 4 ? 16 : 10) != is) fail("index-dump shows %s as %s, it is %u", field[i].label, l[e].c_str(), is); } }
}
// one operation fails: it says so, or everything is shown
SUITE(dump_fault) {
    Hist h; h.start(); h.trace = "four keys in two files"; for(int i = 0; i < 4; i++) { user_set(h.d, h.c, h.m, fmt("k%d", i), fmt("value-%d", i)); if(i == 1) h.d.cmd(h.c, {"NSJUMP"}); } h.d.stop(h.c); int how = choose(2, "fault"), at = choose(60, "operation"), n = 0; bool hit = false, wrote = false; auto before = vfs.snapshot("/z"); str out, name;
    sys_hook = [&](SysKind k, const str &p, long) { SysAct a; if(sk_mutates(k)) wrote = true; if((k != SK_OPEN && k != SK_READ) || p.substr(0, 3) != "/z/") return a; if(n++ == at) { hit = true; a.err = how ? EMFILE : EIO; name = fmt("%s of %s", sk_name(k), p.c_str()); } return a; };
    int v = tool("index-dump", {index_dir()}, &out); sys_hook = nullptr; if(!hit) return; note_case(name); note_state(at * 2 + how); note_transition(); if(wrote || before != vfs.snapshot("/z")) fail("index-dump modifies the files");
    if(!v && values(out, "entry key").size() != 4) fail("index-dump ends with success and %zu of 4 entries when the %s fails", values(out, "entry key").size(), name.c_str());
}

// ---------------------------------------------------------------- namespace-dump, namespace-editor
static strs shown(const str &out) { strs r; for(auto n : {"name", "password", "public flag", "maximum size"}) { strs v = values(out, n); r.push_back(v.empty() ? str("?") : v.back()); } strs v = values(out, "mode worm"), x = values(out, "worm mode"); r.push_back(v.size() ? v.back() : x.size() ? x.back() : "?"); return r; }
static void compare_shown(const str &what, const str &out, const str &name, const NsM &n) {
    strs s = shown(out); str size = fmt("%ld bytes", n.maxsize);
    if(s[0] != name || s[1] != (n.pass.empty() ? str("<no password set>") : n.pass) || (s[2] != "0") != n.pub || s[3].compare(0, size.size(), size) || (s[4] != "0") != n.worm) fail("%s shows name %s, password %s, public %s, maximum %s, worm %s for %s (password %s, public %d, maximum %ld, worm %d)", what.c_str(), s[0].c_str(), s[1].c_str(), s[2].c_str(), s[3].c_str(), s[4].c_str(), name.c_str(), n.pass.c_str(), n.pub, n.maxsize, n.worm);
}
static void edit_world(World &w, int *c) { w.start(); w.keys = {"k1", "k2"}; c[0] = w.conn(); c[1] = w.conn(); w.exec(c[0], {"NSNEW", "A"}); w.exec(c[0], {"NSNEW", "AB"}); w.exec(c[0], {"SET", "k1", "in-default"}); w.exec(c[1], {"SELECT", "A"}); w.exec(c[1], {"SET", "k1", "in-A"}); w.exec(c[1], {"SET", "k2", "more"}); w.exec(c[1], {"DEL", "k1"}); w.exec(c[1], {"SELECT", "AB"}); w.exec(c[1], {"SET", "k2", "in-AB"}); }
static void stop(World &w) { w.d.stop(w.obs); w.cli.clear(); }
static void again(World &w) { w.d.boot(); w.obs = w.d.conn(); for(auto &n : w.ns) n.second.lock = 0; }
SUITE(editor_settings) {
    World w; int c[2]; edit_world(w, c); str name = std::vector<str>{"A", "AB", "default"}[choose(3, "namespace")];
    static const strs pass{"", "pw", "p with: \x01\xff odd", str(255, 'p')}; static const char *sizes[] = {"", "0", "100", "4294967296", "1099511627776"};
    // settings before
    if(name != "default") { int b = choose(4, "before"); if(b & 1) { w.exec(c[0], {"NSSET", name, "password", "before"}); w.exec(c[0], {"NSSET", name, "public", "0"}); } if(b & 2) { w.exec(c[0], {"NSSET", name, "maxsize", "5000000000"}); w.exec(c[0], {"NSSET", name, "worm", "1"}); } }
    w.verify(); stop(w); str out; auto before = vfs.snapshot("/z"); int v = tool("namespace-dump", {"/z/index", name}, &out); if(v) fail("namespace-dump ends with %d", v); if(before != vfs.snapshot("/z")) fail("namespace-dump modifies the files"); compare_shown("namespace-dump", out, name, w.ns[name]);
    // settings asked for: what is not given takes its default
    NsM &n = w.ns[name]; strs args{"--index", "/z/index", "--namespace", name}; int p = choose(pass.size(), "password"), m = choose(5, "maxsize"), pub = choose(3, "public"), worm = choose(3, "worm");
    n.pass = pass[p]; if(p) { args.push_back("--password"); args.push_back(pass[p]); } n.maxsize = atoll(sizes[m]); if(m) { args.push_back("--maxsize"); args.push_back(sizes[m]); } n.pub = pub != 2; if(pub) { args.push_back("--public"); args.push_back(pub == 1 ? "yes" : "no"); } n.worm = worm == 1; if(worm) { args.push_back("--worm"); args.push_back(worm == 1 ? "yes" : "no"); }
    str what = "namespace-editor"; for(auto &x : args) what += " " + esc(x, 20); v = tool("namespace-editor", args, &out); if(v) fail("%s ends with %d", what.c_str(), v); compare_shown(what, out, name, n);
    auto after = vfs.snapshot("/z"); str f = "/z/index/" + name + "/zdb-namespace"; for(auto &x : before) { if(!after.count(x.first)) fail("%s removes %s", what.c_str(), x.first.c_str()); if(x.first != f && after[x.first] != x.second) fail("%s modifies %s", what.c_str(), x.first.c_str()); } for(auto &x : after) if(!before.count(x.first)) fail("%s leaves %s", what.c_str(), x.first.c_str());
    v = tool("namespace-dump", {"/z/index", name}, &out); if(v) fail("namespace-dump ends with %d after %s", v, what.c_str()); compare_shown("namespace-dump after " + what, out, name, n);
    w.trace += what + "; "; note_case(w.trace); note_state(vfs.hash("/z")); note_transition(); again(w); w.verify(); w.reboot(); w.verify();
}
// requests which cannot be satisfied change nothing
SUITE(editor_refused) {
    World w; int c[2]; edit_world(w, c); w.exec(c[0], {"NSSET", "A", "password", "before"}); stop(w); auto before = vfs.snapshot("/z"); str out;
    static const std::vector<strs> bad{{"--index", "/z/index", "--namespace", "none"}, {"--index", "/z/index"}, {"--namespace", "A"}, {"--index", "/z/none", "--namespace", "A"}, {"--index", "/z/index", "--namespace", "A", "--public", "maybe"}, {"--index", "/z/index", "--namespace", "A", "--worm", "2"}, {"--index", "/z/index", "--namespace", "A", "--nothing"}, {"--index", "/z/index", "--namespace", "A", "--help"}, {}, {"--index", "/z/index", "--namespace", "A", "--password", str(256, 'p')}, {"--index", "/z/index", "--namespace", "A", "--password", str(300, 'p')}};
    int i = choose(bad.size() + 3, "request"); str what = i < (int) bad.size() ? "namespace-editor" : "namespace-dump"; strs a; if(i < (int) bad.size()) a = bad[i]; else if(i == (int) bad.size()) a = {"/z/index", "none"}; else if(i == (int) bad.size() + 1) a = {"/z/none", "A"}; else a = {"/z/index"}; for(auto &x : a) what += " " + esc(x, 20);
    int v = tool(i < (int) bad.size() ? "namespace-editor" : "namespace-dump", a, &out); if(!v) fail("%s ends with success", what.c_str()); if(before != vfs.snapshot("/z")) fail("%s changes the files", what.c_str()); if(vfs.exists("/z/index/none")) fail("%s creates a directory", what.c_str());
    note_case(what); note_state(i); note_transition(); again(w); w.verify();
}
// one file operation of the editor fails, or it is interrupted there: the settings are the former or the new ones, the exit status tells the truth
SUITE(editor_fault) {
    World w; int c[2]; edit_world(w, c); w.exec(c[0], {"NSSET", "A", "password", "before"}); w.exec(c[0], {"NSSET", "A", "maxsize", "1000"}); stop(w); str out; auto before = vfs.snapshot("/z");
    int how = choose(4, "fault"), at = choose(40, "operation"), n = 0; bool hit = false, dead = false; Instance *t = inst_tool("namespace-editor");
    sys_hook = [&](SysKind k, const str &, long len) { SysAct a; if(k == SK_SEEK) return a; if(n++ == at) { hit = true; if(how == 0) a.err = EIO; else if(how == 1) { if(k == SK_WRITE) a.limit = len / 2; else a.err = ENOSPC; } else if(how == 2) a.crash = true; else a.crash_after = true; } return a; };
    RunStatus r = inst_start(t, {"namespace-editor", "--index", "/z/index", "--namespace", "A", "--password", "after", "--worm", "yes"}); sys_hook = nullptr; if(r == RS_CRASH && how < 2) fail("namespace-editor crashes on a fault (%d) at operation %d", how, at); dead = r != RS_EXIT; int v = dead ? 1 : inst_exit_code(t); inst_kill(t);
    if(!hit) return; NsM old = w.ns["A"], nw = old; nw.pass = "after"; nw.worm = true; nw.maxsize = 0; nw.pub = true; again(w); int o = w.d.conn(); bool isnew = !w.d.cmd(o, {"SELECT", "A", "after"}).err(); w.d.hangup(o); note_case(fmt("fault %d at %d: %d, %s", how, at, v, isnew ? "new" : "former")); note_state(at * 8 + how * 2 + isnew); note_transition();
    if(!v && !isnew) fail("namespace-editor succeeds with a fault (%d) at file operation %d and the settings are the former ones", how, at);
    w.ns["A"] = isnew ? nw : old; w.verify();
}

// ---------------------------------------------------------------- quick-compact
static strs copy_args(const str &ns) { return {"--in-data", "/z/data", "--in-index", "/z/index", "--out-data", "/y/data", "--out-index", "/y/index", "--namespace", ns}; }
static size_t payloads(const str &d) { size_t n = 0; for(auto &x : vfs.snapshot(d)) n += x.second.size(); return n; }
static void take_copy() { vfs.rmtree("/z/data"); vfs.rmtree("/z/index"); for(auto &x : vfs.snapshot("/y")) { str p = "/z" + x.first.substr(2); vfs.mkdirs(p.substr(0, p.rfind('/'))); vfs.put(p, x.second); } vfs.rmtree("/y"); }
static void go_on(Hist &h) { if(h.seq) { seq_insert(h.d, h.c, h.q, "after"); if(h.given.size()) { uint64_t id = h.given[0]; seq_update(h.d, h.c, h.q, id, "changed"); } } else { user_set(h.d, h.c, h.m, h.keys[0], "after"); user_del(h.d, h.c, h.m, h.keys[0]); user_set(h.d, h.c, h.m, h.keys.back(), "again"); } }
// what the compacted data files hold is what the live keys hold, each payload once
static void only_live(Hist &h) {
    std::map<str, strs> live; if(h.seq) for(auto &x : h.q.live) live[le64(x.first)].push_back(x.second.val); else for(auto &x : h.m.live) live[x.first].push_back(x.second.back().val);
    for(auto &r : parse_log()) if(!r.val.empty()) { auto &l = live[r.id]; auto i = std::find(l.begin(), l.end(), r.val); if(i == l.end()) fail("%s: the compacted copy holds %s for %s, which is not its value (or a second time)", h.trace.c_str(), esc(r.val, 20).c_str(), esc(r.id, 20).c_str()); l.erase(i); }
    for(auto &x : live) for(auto &v : x.second) if(!v.empty()) fail("%s: the compacted copy does not hold the value %s of %s", h.trace.c_str(), esc(v, 20).c_str(), esc(x.first, 20).c_str());
}
static void compact_run(Hist &h, int depth, long datasize) {
    inst_set_datasize = datasize; h.start(); for(int i = 0; i < depth; i++) h.step(); h.d.stop(h.c); auto before = vfs.snapshot("/z"); vfs.mkdirs("/y/data"); vfs.mkdirs("/y/index");
    int v = tool("quick-compaction", copy_args("default")); if(v) fail("%s: quick-compact ends with %d", h.trace.c_str(), v); if(before != vfs.snapshot("/z")) fail("%s: quick-compact modifies the original", h.trace.c_str());
    if(payloads("/y/data") > payloads("/z/data")) fail("%s: the compacted data is larger than the original", h.trace.c_str());
    h.trace += "compact; "; note_case(h.trace); note_state(vfs.hash("/y")); note_transition(); take_copy();
    log_flags = 3;  // nothing is left of the payload of deleted entries
    only_live(h);
    int then = choose(h.seq ? 2 : 3, "then"); if(then == 2) { h.trace += "rebuild; "; rebuild("user", "default", h.trace); }
    h.d.boot(); h.reconnect(); h.verify(V_BASIC | (then == 2 ? 0 : V_STATS) | V_SCAN); go_on(h);
    if(then == 1) { h.d.stop(h.c); h.trace += "compact; "; vfs.mkdirs("/y/data"); vfs.mkdirs("/y/index"); v = tool("quick-compaction", copy_args("default")); if(v) fail("%s: quick-compact ends with %d", h.trace.c_str(), v); take_copy(); h.d.boot(); } else h.d.restart();
    h.reconnect(); h.verify(V_BASIC | (then == 2 ? 0 : V_STATS) | V_SCAN);
}
SUITE(compact_user) { Hist h; h.extras = {"NSJUMP"}; compact_run(h, tier_pick(4, 5), 0); }
SUITE(compact_seq) { Hist h; h.seq = true; h.extras = {"NSJUMP"}; compact_run(h, tier_pick(5, 6), 0); }
SUITE(compact_files) { Hist h; h.vals = {str(50, 'x'), str(90, 'y')}; compact_run(h, tier_pick(5, 6), 120); }
// a namespace with settings, others beside it; namespaces which do not exist
SUITE(compact_names) {
    World w; int c[2]; edit_world(w, c); int b = choose(8, "settings"); if(b & 1) { w.exec(c[0], {"NSSET", "A", "password", "pw"}); w.exec(c[0], {"NSSET", "A", "public", "0"}); } if(b & 2) w.exec(c[0], {"NSSET", "A", "maxsize", "5000000000"}); if(b & 4) w.exec(c[0], {"NSSET", "A", "worm", "1"});
    w.verify(); stop(w); auto before = vfs.snapshot("/z"); vfs.mkdirs("/y/data"); vfs.mkdirs("/y/index"); int n = choose(5, "names"); std::set<str> copied;
    if(n == 4) { static const std::vector<strs> bad{{"none"}, {"A."}}; str x = bad[choose(2, "unknown")][0]; int v = tool("quick-compaction", copy_args(x)); if(!v) fail("quick-compact of '%s' ends with success", x.c_str()); if(before != vfs.snapshot("/z") || vfs.exists("/z/index/none") || vfs.exists("/z/data/none")) fail("quick-compact of '%s' modifies the original", x.c_str()); note_case("unknown " + x); again(w); w.verify(); return; }
    for(auto &x : strs{"default", "A", "AB"}) { if((n == 1 && x != "A") || (n == 2 && x == "AB") || (n == 3 && x == "default")) continue; int v = tool("quick-compaction", copy_args(x)); if(v) fail("quick-compact of %s ends with %d", x.c_str(), v); copied.insert(x); }
    if(before != vfs.snapshot("/z")) fail("quick-compact modifies the original"); for(auto &x : vfs.list("/y/data")) if(!copied.count(x)) fail("quick-compact writes %s", x.c_str());
    take_copy(); for(auto &x : strs{"default", "A", "AB"}) if(!copied.count(x)) { if(x == "default") w.ns[x] = w.fresh_ns(); else w.ns.erase(x); } w.trace += fmt("copy of %d; ", n); note_case(w.trace); note_state(vfs.hash("/z")); note_transition(); again(w); w.verify(); w.reboot(); w.verify();
}
// one file operation fails: the tool says so, or the copy is complete; the original is never touched
SUITE(compact_fault) {
    Hist h; h.seq = choose(2, "mode"); h.start(); if(h.seq) { for(int i = 0; i < 3; i++) seq_insert(h.d, h.c, h.q, fmt("value-%d", i)); h.d.cmd(h.c, {"NSJUMP"}); seq_insert(h.d, h.c, h.q, "later"); seq_update(h.d, h.c, h.q, 1, "changed"); } else { user_set(h.d, h.c, h.m, "k1", "first"); user_set(h.d, h.c, h.m, "k2", "second"); user_del(h.d, h.c, h.m, "k1"); h.d.cmd(h.c, {"NSJUMP"}); user_set(h.d, h.c, h.m, "k1", "third"); }
    h.d.stop(h.c); auto before = vfs.snapshot("/z"); vfs.mkdirs("/y/data"); vfs.mkdirs("/y/index"); int how = choose(3, "fault"), at = choose(tier_pick(120, 160), "operation"), n = 0; bool hit = false;
    sys_hook = [&](SysKind k, const str &, long len) { SysAct a; if(k == SK_SEEK || k == SK_STAT) return a; if(n++ == at) { hit = true; if(how == 0) a.err = EIO; else if(how == 1) { if(k == SK_WRITE || k == SK_READ) a.limit = len / 2; else a.err = ENOENT; } else a.err = ENOSPC; } return a; };
    int v = tool("quick-compaction", copy_args("default")); sys_hook = nullptr; if(!hit) return; if(before != vfs.snapshot("/z")) fail("quick-compact modifies the original when file operation %d fails (%d)", at, how);
    note_case(fmt("fault %d at %d: %d", how, at, v)); note_state(vfs.hash("/y")); note_transition(); if(v) return; take_copy(); h.d.boot(); h.reconnect(); h.verify(V_BASIC);
}
// compaction again into the same place, the namespace having gone on meanwhile
static void compact_twice(Hist &h, int first, int then) {
    h.start(); for(int i = 0; i < first; i++) h.step(); h.d.stop(h.c); vfs.mkdirs("/y/data"); vfs.mkdirs("/y/index"); int v = tool("quick-compaction", copy_args("default")); if(v) fail("%s: quick-compact ends with %d", h.trace.c_str(), v);
    h.trace += "compact; "; h.d.boot(); h.reconnect(); for(int i = 0; i < then; i++) h.step(); h.d.stop(h.c); auto before = vfs.snapshot("/z"); v = tool("quick-compaction", copy_args("default")); if(v) fail("%s: quick-compact ends with %d", h.trace.c_str(), v); if(before != vfs.snapshot("/z")) fail("%s: quick-compact modifies the original", h.trace.c_str());
    h.trace += "compact again; "; note_case(h.trace); note_state(vfs.hash("/y")); note_transition(); take_copy(); log_flags = 3; only_live(h); if(!h.seq && choose(2, "rebuild")) { h.trace += "rebuild; "; rebuild("user", "default", h.trace); h.d.boot(); h.reconnect(); h.verify(V_BASIC); } else { h.d.boot(); h.reconnect(); h.verify(V_BASIC | V_STATS | V_SCAN); }
    go_on(h); h.d.stop(h.c); parse_log(); h.d.boot(); h.reconnect(); h.verify(V_BASIC);
}
SUITE(compact_again) { Hist h; h.vals = {"v1", str(40, 'w')}; h.extras = {"NSJUMP"}; compact_twice(h, 2, tier_pick(2, 3)); }
SUITE(compact_again_seq) { Hist h; h.seq = true; h.vals = {"v1", str(40, 'w')}; h.extras = {"NSJUMP"}; compact_twice(h, 3, tier_pick(2, 3)); }
// compaction of the files of a running server, which is then given the copy and told to reload the namespace: its clients stay connected and go on
static void compact_hot(Hist &h, int depth, long datasize) {
    inst_set_datasize = datasize; h.start(); int other = h.d.conn(); for(int i = 0; i < depth; i++) h.step();
    Daemon &d = h.d; int again = choose(2, "again") + 1;
    for(int round = 0; round < again; round++) {
        auto before = vfs.snapshot("/z"); vfs.mkdirs("/y/data"); vfs.mkdirs("/y/index"); int v = tool("quick-compaction", copy_args("default")); if(v) fail("%s: quick-compact of a running server ends with %d", h.trace.c_str(), v); if(before != vfs.snapshot("/z")) fail("%s: quick-compact modifies the files of a running server", h.trace.c_str());
        h.verify(V_BASIC); take_copy(); bool re = !h.seq && choose(2, "rebuild"); if(re) { h.trace += "rebuild; "; rebuild("user", "default", h.trace); } Reply r = d.cmd(h.c, {"RELOAD", "default"}); if(!r.ok()) fail("%s: RELOAD of the compacted copy answers %s", h.trace.c_str(), r.show().c_str()); h.trace += "compact under the server, reload; "; note_case(h.trace); note_state(vfs.hash("/z")); note_transition(); log_flags = 3; only_live(h);
        h.verify(V_BASIC | V_STATS | V_SCAN); if(d.closed(other) || d.closed(h.c)) fail("%s: a client loses its connection", h.trace.c_str()); int c = h.c; h.c = other; h.verify(V_BASIC); h.c = c; go_on(h); h.verify(V_BASIC | V_STATS | V_SCAN);
    }
    if(choose(2, "end")) d.restart(); else d.crash(), d.boot(); h.reconnect(); h.verify(V_BASIC | V_STATS | V_SCAN);
}
SUITE(compact_hot) { Hist h; h.extras = {"NSJUMP"}; compact_hot(h, tier_pick(4, 5), 0); }
SUITE(compact_hot_seq) { Hist h; h.seq = true; h.extras = {"NSJUMP"}; compact_hot(h, tier_pick(5, 6), 0); }
SUITE(compact_hot_files) { Hist h; h.vals = {str(50, 'x'), str(90, 'y')}; compact_hot(h, tier_pick(4, 5), 120); }
