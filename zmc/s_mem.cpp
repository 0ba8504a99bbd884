// P29: memory and descriptors held by the server do not grow with traffic that leaves its content unchanged
#include "world.h"
#include <cerrno>
static str content(World &w) {
    str s; for(auto &n : w.ns) { auto &m = n.second; s += esc(n.first, 200) + fmt("|%zu %d%d%d%d %ld|", m.pass.size(), m.seq, m.pub, m.worm, m.lock, m.maxsize); for(auto &k : m.kv.live) s += esc(k.first, 300) + "=" + esc(k.second.back().val, 300) + ","; for(auto &k : m.sq.live) s += fmt("%lu=", (unsigned long) k.first) + esc(k.second.val, 300) + ","; s += ";"; }
    for(auto &c : w.cli) s += fmt("%d%d%d %s %zu;", c.second.detached, c.second.writable, c.second.admin, c.second.ns.c_str(), c.second.nonce.size()); return s;
}
// the same round again and again: what is held afterwards may not grow
static void rounds(World &w, const str &what, const std::function<void()> &round) {
    const int N = 5; Held h[N]; str c[N];
    for(int i = 0; i < N; i++) { round(); note_transition(); h[i] = inst_held(w.d.in); c[i] = content(w); note_state(fnvs(c[i]) ^ vfs.hash("/z")); }
    note_case(what);
    for(int i = 2; i < N; i++) if(c[i] != c[1]) return;   // rounds that change the content are allowed to need memory
    CHECK(h[1].blocks > 10, "the accounting of memory does not work");
    if(h[N - 1].blocks > h[1].blocks || h[N - 1].bytes > h[1].bytes) fail("%s: repeated, with the same content: %ld blocks of %ld bytes held, then %ld blocks of %ld bytes", what.c_str(), h[1].blocks, h[1].bytes, h[N - 1].blocks, h[N - 1].bytes);
    if(h[N - 1].fds > h[1].fds) fail("%s: repeated, with the same content: %ld open descriptors, then %ld", what.c_str(), h[1].fds, h[N - 1].fds);
}
typedef std::function<void(World &, int *)> Act;
struct Step { str name; Act act; };
static Step cmd(int who, const strs &q) { str t = fmt("[%d]", who); for(auto &x : q) t += " " + (x.empty() ? str("''") : esc(x, 16)); return {t, [who, q](World &w, int *c) { w.exec(c[who], q); }}; }
static Step raw(int who, const strs &q) { str t = fmt("[%d]", who); for(auto &x : q) t += " " + (x.empty() ? str("''") : esc(x, 16)); return {t, [who, q](World &w, int *c) { Reply r = w.d.cmd(c[who], q); if(r.t == 'X' || r.t == '?') fail("%s answers nothing", q[0].c_str()); }}; }
static Step visitor(const str &name, const str &bytes, bool rst, bool blocked = false) { return {"visitor: " + name, [bytes, rst, blocked](World &w, int *) { int v = w.d.conn(); if(blocked) send_hook = [v](VSock &k, long n) -> long { return k.id == v ? (n > 3 ? 3 : 0) : n; }; w.d.push(v, bytes); w.d.run(); w.d.hangup(v, rst); send_hook = nullptr; w.d.tick(1); }}; }
static void explore_rounds(World &w, int *c, const std::vector<Step> &steps, int depth) {
    std::vector<int> sel; str what; for(int i = 0; i < depth; i++) { int o = choose(steps.size() + (i ? 1 : 0), "step"); if(o == (int) steps.size()) break; sel.push_back(o); what += steps[o].name + "; "; }
    rounds(w, what, [&] { for(auto o : sel) steps[o].act(w, c); });
}
SUITE(mem_user) {
    World w; bool older = choose(2, "older file"); w.start(); w.keys = {"k1", "k2"}; int c[2] = {w.conn(), w.conn()}; w.exec(c[0], {"SET", "k1", "first"}); w.exec(c[0], {"SET", "keep", "kept"}); w.exec(c[0], {"NSNEW", "A"}); str cur; { Reply r = w.d.cmd(c[0], {"KEYCUR", "keep"}); cur = r.s; } str hist; w.exec(c[0], {"SET", "k1", "value"}); { Reply r = w.d.cmd(c[0], {"HISTORY", "k1"}); if(r.t == '*' && !r.a[0].nil()) hist = r.a[0].s; }
    std::vector<Step> s{cmd(0, {"SET", "k1", "value"}), cmd(0, {"SET", "k1", "other"}), cmd(0, {"SET", "k1", "value", "1234"}), cmd(0, {"SET", "k2", "new"}), cmd(0, {"DEL", "k2"}), cmd(0, {"DEL", "k1"}), cmd(0, {"GET", "k1"}), cmd(0, {"GET", "none"}), raw(0, {"MGET", "k1", "none", "keep"}), raw(0, {"MGET", "none"}), cmd(0, {"CHECK", "k1"}), cmd(0, {"EXISTS", "k1"}), cmd(0, {"LENGTH", "keep"}), raw(0, {"HISTORY", "k1"}), raw(0, {"HISTORY", "none"}), raw(0, {"HISTORY", "k1", hist}), raw(0, {"HISTORY", "k1", "bad"}), raw(0, {"SCAN"}), raw(0, {"SCAN", cur}), raw(0, {"SCAN", "bad"}), raw(0, {"RSCAN"}), raw(0, {"RSCAN", cur}), raw(0, {"KSCAN", "k"}), raw(0, {"KSCAN", "zz"}), raw(0, {"KEYCUR", "k1"}), raw(0, {"KEYCUR", "none"}),
        raw(0, {"SET", "k1"}), raw(0, {"SET", str(300, 'x'), "v"}), raw(0, {"SET", "", "v"}), raw(0, {"GET"}), raw(0, {"NOSUCH", "x"}), raw(0, {""}), raw(0, {"INFO"}), raw(0, {"PING"}), raw(0, {"TIME"}), raw(0, {"DATA", "RAW", "0", "28"}), raw(0, {"DATA", "RAW", "0", "999999"}), raw(0, {"DATA", "RAW", "77", "28"}), raw(0, {"DATA", "RAW", "0", "29"}), raw(0, {"INDEX", "DIRTY"}), raw(0, {"INDEX", "DIRTY", "RESET"}), raw(0, {"HOOKS"}), raw(0, {"WAIT", "x"}), raw(0, {"WAIT", "NOSUCH"}), raw(0, {"WAIT", "SET", "bad"}), raw(0, {"WAIT", "SET", "99999999999999999"}), raw(0, {"SELECT"}), raw(0, {"AUTH"}), raw(0, {"AUTH", "x"}), raw(0, {"DBSIZE"}), cmd(1, {"RELOAD", "default"}), cmd(1, {"RELOAD", "none"}), cmd(1, {"SET", "k1", "by-second"})};
    s.push_back({"[0] WAIT SET until the time-out", [](World &w, int *c) { w.d.push(c[0], resp_cmd({"WAIT", "SET", "1000"})); w.d.run(); advance(2000000); w.d.tick(2); str o = w.d.take(c[0]); CHECK(!o.empty(), "WAIT is not answered"); }});
    s.push_back({"[0] WAIT GET, released", [](World &w, int *c) { w.d.push(c[0], resp_cmd({"WAIT", "GET", "5000"})); w.d.run(); w.d.cmd(c[1], {"GET", "keep"}); str o = w.d.take(c[0]); CHECK(!o.empty(), "WAIT is not answered"); }});
    if(older) w.exec(c[0], {"NSJUMP"});
    explore_rounds(w, c, s, tier_pick(2, 3));
}
SUITE(mem_visitors) {
    World w; w.start(); w.keys = {"k1"}; int c[2] = {w.conn(), w.conn()}; w.exec(c[0], {"SET", "k1", str(3000, 'v')}); w.exec(c[0], {"NSNEW", "A"}); str get = resp_cmd({"GET", "k1"}), set = resp_cmd({"SET", "k1", str(3000, 'v')}); std::vector<Step> s; int i = 0;
    std::vector<std::pair<str, str>> v{{"nothing", ""}, {"PING", resp_cmd({"PING"})}, {"half a line", "*3\r"}, {"no arguments yet", "*3\r\n"}, {"one of three", "*3\r\n$3\r\nSET\r\n"}, {"in the middle of an argument", "*3\r\n$3\r\nSET\r\n$100\r\nabc"}, {"before the last CRLF", set.substr(0, set.size() - 2)}, {"request and a half", get + get.substr(0, 15)}, {"garbage", "hello\r\n"}, {"negative count", "*-1\r\n"}, {"negative length", "*2\r\n$3\r\nGET\r\n$-5\r\n"}, {"huge length", "*2\r\n$3\r\nGET\r\n$99999999999\r\n"}, {"big length", "*2\r\n$3\r\nGET\r\n$8000000\r\n"}, {"too many arguments", "*5000\r\n"}, {"many GET", get + get + get + get}, {"MGET and half", resp_cmd({"MGET", "k1", "k1"}) + "*2\r\n$4\r\nMG"}, {"MIRROR", resp_cmd({"MIRROR"})}, {"MASTER", resp_cmd({"MASTER"})}, {"MASTER and a request", resp_cmd({"MASTER"}) + resp_cmd({"GET", "k1", "7"})}, {"WAIT", resp_cmd({"WAIT", "SET", "60000"})}, {"challenge", resp_cmd({"AUTH", "SECURE", "CHALLENGE"})}, {"two challenges", resp_cmd({"AUTH", "SECURE", "CHALLENGE"}) + resp_cmd({"AUTH", "SECURE", "CHALLENGE"})}, {"SELECT", resp_cmd({"SELECT", "A"})}, {"selects and is removed", resp_cmd({"SELECT", "A"}) + resp_cmd({"SELECT", "default"})}};
    for(auto &x : v) { s.push_back(visitor(x.first, x.second, false)); s.push_back(visitor(x.first + " (reset)", x.second, true)); if(x.first.find("GET") != str::npos || x.first == "PING" || x.first == "MIRROR") s.push_back(visitor(x.first + ", reading nothing", x.second, false, true)); } (void) i;
    s.push_back(cmd(0, {"SET", "k1", str(3000, 'v')})); s.push_back(cmd(0, {"GET", "k1"})); s.push_back({"[0] sends GET in two parts", [get](World &w, int *c) { w.d.push(c[0], get.substr(0, 11)); w.d.run(); w.d.push(c[0], get.substr(11)); w.d.run(); w.d.take(c[0]); }});
    s.push_back({"[0] reads slowly", [get](World &w, int *c) { int n = 0, me = c[0]; send_hook = [&n, me](VSock &k, long x) -> long { return k.id == me && n++ % 2 == 0 ? (x > 10 ? 10 : 0) : x; }; w.d.push(me, get + get); w.d.run(); for(int t = 0; t < 20 && socks[me]->was_full; t++) { sock_writable(w.d.in, me, -1); w.d.run(); } send_hook = nullptr; for(int t = 0; t < 20 && socks[me]->was_full; t++) { sock_writable(w.d.in, me, -1); w.d.run(); } w.d.take(me); }});
    s.push_back({"a mirror follows SET", [](World &w, int *c) { int m = w.d.conn(); w.d.cmd(m, {"MIRROR"}); w.d.cmd(c[1], {"GET", "k1"}); w.d.hangup(m); }});
    s.push_back({"a mirror reading nothing follows GET", [](World &w, int *c) { int m = w.d.conn(); w.d.cmd(m, {"MIRROR"}); send_hook = [m](VSock &k, long x) -> long { return k.id == m ? 0 : x; }; w.d.cmd(c[1], {"GET", "k1"}); w.d.cmd(c[1], {"GET", "k1"}); w.d.hangup(m); send_hook = nullptr; }});
    explore_rounds(w, c, s, tier_pick(2, 3));
}
SUITE(mem_seq) {
    World w; w.mode = 1; bool older = choose(2, "older file"); w.start(); int c[2] = {w.conn(), w.conn()}; str a = le64(0), b = le64(1), z = le64(77); w.exec(c[0], {"SET", "", "first"}); w.exec(c[0], {"SET", "", "second"});
    std::vector<Step> s{cmd(0, {"SET", a, "other"}), cmd(0, {"SET", a, "first"}), cmd(0, {"SET", z, "x"}), cmd(0, {"SET", "bad", "x"}), cmd(0, {"GET", a}), cmd(0, {"GET", z}), cmd(0, {"GET", "bad"}), raw(0, {"MGET", a, b, z}), cmd(0, {"CHECK", a}), cmd(0, {"EXISTS", z}), cmd(0, {"LENGTH", b}), cmd(0, {"KEYTIME", b}), cmd(0, {"DEL", z}), raw(0, {"SCAN"}), raw(0, {"RSCAN"}), raw(0, {"KEYCUR", a}), raw(0, {"KEYCUR", z}), raw(0, {"HISTORY", a}), raw(0, {"KSCAN", "k"}), raw(0, {"DATA", "RAW", "0", "28"}), cmd(1, {"RELOAD", "default"}), cmd(1, {"SET", b, "by-second"})};
    s.push_back({"insert and delete", [](World &w, int *c) { Reply r = w.exec(c[0], {"SET", "", "temporary"}); w.exec(c[0], {"DEL", r.s}); w.ns["default"].sq.dead.clear(); }});
    if(older) w.exec(c[0], {"NSJUMP"});
    explore_rounds(w, c, s, tier_pick(3, 4));
}
SUITE(mem_ns) {
    World w; w.adminpw = choose(2, "admin") ? "adm" : ""; int hook = choose(3, "hook"); w.start(hook ? strs{"--hook", "/bin/hook"} : strs{}); static size_t kept; kept = SIZE_MAX; if(hook) hook_outcome = [hook](const strs &x) { if(hook == 2 && kept == SIZE_MAX && x[1] == "namespace-created") { kept = hook_calls.size(); return -1; } return 0; }; w.keys = {"k1"}; int c[2] = {w.conn(), w.conn()}; if(!w.adminpw.empty()) w.exec(c[1], {"AUTH", "adm"}); w.exec(c[1], {"NSNEW", "A"}); w.exec(c[1], {"NSSET", "A", "password", "pw"}); w.exec(c[1], {"NSSET", "A", "public", "0"}); w.exec(c[0], {"SELECT", "A", "pw"}); w.exec(c[0], {"SET", "k1", "v"});
    std::vector<Step> s{cmd(1, {"NSNEW", "B"}), cmd(1, {"NSDEL", "B"}), cmd(1, {"NSNEW", "A"}), cmd(1, {"NSNEW", "../x"}), cmd(1, {"NSSET", "A", "password", "pw"}), cmd(1, {"NSSET", "A", "password", "px"}), cmd(1, {"NSSET", "A", "password", "*"}), cmd(1, {"NSSET", "A", "maxsize", "100"}), cmd(1, {"NSSET", "A", "worm", "0"}), cmd(1, {"NSSET", "A", "lock", "1"}), cmd(1, {"NSSET", "A", "lock", "0"}), cmd(1, {"NSSET", "A", "freeze", "1"}), cmd(1, {"NSSET", "A", "freeze", "0"}), cmd(1, {"NSSET", "A", "nothing", "0"}), cmd(1, {"NSSET", "A", "mode", "seq"}), cmd(0, {"SELECT", "A", "pw"}), cmd(0, {"SELECT", "A", "bad"}), cmd(0, {"SELECT", "default"}), cmd(0, {"SELECT", "B"}), cmd(0, {"NSLIST"}), cmd(0, {"NSINFO", "A"}), raw(1, {"NSINFO", "A"}), cmd(0, {"NSINFO", "none"}), cmd(0, {"FLUSH"}), cmd(0, {"SET", "k1", "v"}), cmd(0, {"SET", "k1", "w"}), cmd(0, {"GET", "k1"}), cmd(1, {"RELOAD", "A"}), cmd(0, {"AUTH", "bad"}), cmd(0, {"AUTH", "SECURE", "CHALLENGE"}), cmd(0, {"AUTH", "SECURE", str(40, '0')}), cmd(0, {"SELECT", "A", "SECURE", str(40, '0')}), cmd(0, {"DBSIZE"})};
    if(hook) s.push_back({"hooks cannot be started", [](World &w, int *c) { fork_errno = EAGAIN; w.d.cmd(c[1], {"RELOAD", "A"}); fork_errno = 0; }});
    if(hook) s.push_back({"long pause", [](World &w, int *) { for(size_t i = 0; i < hook_calls.size(); i++) if(hook_calls[i].running && hook_calls[i].argv[1] != "namespace-created") hook_finish(i, 0); advance(400000000ll); w.d.tick(3); }});
    std::vector<int> sel; str what; int depth = tier_pick(2, 3); for(int i = 0; i < depth; i++) { int o = choose(s.size() + (i ? 1 : 0), "step"); if(o == (int) s.size()) break; sel.push_back(o); what += s[o].name + "; "; }
    rounds(w, what, [&] { for(auto o : sel) s[o].act(w, c); if(w.cli[c[0]].gone || w.cli[c[0]].detached) { w.d.hangup(c[0]); w.cli.erase(c[0]); c[0] = w.conn(); } if(hook) { for(size_t i = 0; i < hook_calls.size(); i++) if(hook_calls[i].running && hook_calls[i].argv[1] != "namespace-created") hook_finish(i, 0); advance(400000000ll); w.d.tick(3); w.d.cmd(w.obs, {"HOOKS"}); } });
}
// requests during which one file operation fails
SUITE(mem_fault) {
    World w; bool seq = choose(2, "mode"); w.mode = seq; w.start(); int c[2] = {w.conn(), w.conn()}; str k = seq ? le64(0) : str("k1"); w.exec(c[0], {"SET", seq ? str() : str("k1"), "first"}); w.exec(c[0], {"SET", seq ? str() : str("k2"), "second"}); if(!seq) w.exec(c[0], {"SET", "k1", "third"}); str cur = w.d.cmd(c[0], {"KEYCUR", k}).s, hist; if(!seq) { Reply r = w.d.cmd(c[0], {"HISTORY", k}); if(r.t == '*' && !r.a[0].nil()) hist = r.a[0].s; }
    std::vector<strs> qs{{"GET", k}, {"MGET", k, k}, {"CHECK", k}, {"KEYTIME", k}, {"LENGTH", k}, {"EXISTS", k}, {"SCAN"}, {"SCAN", cur}, {"RSCAN"}, {"RSCAN", cur}, {"KEYCUR", k}, {"DATA", "RAW", "0", "28"}, {"SET", k, "changed"}, {"DEL", k}, {"SET", seq ? str() : str("k3"), "new"}, {"NSNEW", "n"}, {"NSINFO", "default"}, {"NSSET", "A", "password", "x"}, {"INDEX", "DIRTY"}, {"NSJUMP"}, {"DATA", "RAW", "0", "9999"}, {"DATA", "RAW", "9", "28"}, {"NSDEL", "A"}, {"INDEX", "DIRTY", "RESET"}}; if(!seq) { qs.push_back({"HISTORY", k}); qs.push_back({"HISTORY", k, hist}); } w.d.cmd(c[0], {"NSNEW", "A"}); w.d.cmd(c[0], {"NSJUMP"});
    strs q = qs[choose(qs.size(), "request")]; int at = choose(tier_pick(8, 12), "operation"), how = choose(3, "fault"); long n = 0; bool refused = true, hit = false;
    const int N = 5; Held h[N]; str what = q[0] + fmt(" with a fault (%d) at file operation %d", how, at);
    for(int i = 0; i < N; i++) { n = 0; sys_hook = [&](SysKind kd, const str &, long len) { SysAct a; if(n++ == at) { hit = true; if(how == 0 || kd == SK_CLOSE) a.err = EIO; else if(how == 1) { if(kd == SK_READ || kd == SK_WRITE) a.limit = len / 2; else a.err = ENOENT; } else a.err = ENOSPC; } return a; }; Reply r = w.d.cmd(c[0], q); sys_hook = nullptr; note_transition(); if(!hit) return; if(!r.err()) refused = false; h[i] = inst_held(w.d.in); }
    note_case(what); note_state(fnvs(what)); bool read = q[0] != "SET" && q[0] != "DEL" && q[0] != "NSNEW" && q[0] != "NSSET" && q[0] != "NSJUMP" && q[0] != "NSDEL"; if(!read && !refused) return;
    if(h[4].blocks > h[1].blocks || h[4].bytes > h[1].bytes) fail("%s (%s): repeated, %ld blocks of %ld bytes held, then %ld blocks of %ld bytes", what.c_str(), seq ? "seq" : "user", h[1].blocks, h[1].bytes, h[4].blocks, h[4].bytes);
    if(h[4].fds > h[1].fds) fail("%s (%s): repeated, %ld open descriptors, then %ld", what.c_str(), seq ? "seq" : "user", h[1].fds, h[4].fds);
}
// file jumps, explicit and automatic: old files are read and closed, nothing but the tables of files grows
SUITE(mem_files) {
    World w; bool seq = choose(2, "mode"); w.mode = seq; if(choose(2, "small files")) inst_set_datasize = 120; w.start(); int c[2] = {w.conn(), w.conn()}; str k = seq ? le64(0) : str("k1"); w.exec(c[0], {"SET", seq ? str() : str("k1"), "first"}); w.exec(c[0], {"SET", seq ? str() : str("k2"), "second"});
    std::vector<Step> s{cmd(0, {"NSJUMP"}), cmd(0, {"SET", k, "value-A"}), cmd(0, {"SET", k, "value-B"}), cmd(0, {"GET", k}), cmd(0, {"CHECK", k}), raw(0, {"SCAN"}), raw(0, {"RSCAN"}), cmd(1, {"RELOAD", "default"}), raw(0, {"INDEX", "DIRTY"}), raw(0, {"INDEX", "DIRTY", "RESET"}), raw(0, {"DATA", "RAW", "0", "28"}), raw(0, {"DATA", "RAW", "0", "9999"}), raw(0, {"DATA", "RAW", "0", "30"}), raw(0, {"DATA", "RAW", "1", "28"}), raw(0, {"KEYCUR", k}), raw(0, {"MGET", k, k}), cmd(0, {"LENGTH", k}), cmd(0, {"DEL", seq ? le64(1) : str("k2")})}; if(!seq) { s.push_back(raw(0, {"HISTORY", k})); s.push_back(raw(0, {"KSCAN", "k"})); s.push_back(cmd(0, {"SET", "k2", "again"})); }
    const int N = 6; std::vector<int> sel; str what; int depth = tier_pick(3, 4); for(int i = 0; i < depth; i++) { int o = choose(s.size() + (i ? 1 : 0), "step"); if(o == (int) s.size()) break; sel.push_back(o); what += s[o].name + "; "; }
    Held h[N]; size_t files[N]; str l[N]; for(int i = 0; i < N; i++) { for(auto o : sel) s[o].act(w, c); note_transition(); h[i] = inst_held(w.d.in); files[i] = vfs.list(index_dir()).size(); l[i] = content(w); note_state(fnvs(l[i]) ^ vfs.hash("/z")); } note_case(what);
    for(int i = 2; i < N; i++) if(l[i] != l[1]) return;
    if(h[N - 1].blocks > h[1].blocks || h[N - 1].bytes > h[1].bytes + 32 * (long) (files[N - 1] - files[1])) fail("%s: repeated, with the same content: %ld blocks of %ld bytes held, then %ld blocks of %ld bytes (%zu files more)", what.c_str(), h[1].blocks, h[1].bytes, h[N - 1].blocks, h[N - 1].bytes, files[N - 1] - files[1]);
    if(h[N - 1].fds > h[1].fds) fail("%s: repeated, with the same content: %ld open descriptors, then %ld", what.c_str(), h[1].fds, h[N - 1].fds);
}
