// P36: what the start options say is what the server does, in any combination, order and form
#include "driver.h"
struct Opt { str name, value; bool flag; };
struct Opts {
    std::vector<Opt> o; str data = "/zdb-data", index = "/zdb-index", mode = "mixed", adm, maxsize; std::set<str> listen; bool bad = false, protect = false; str trace;
    void add(const str &n, const str &v) { o.push_back({n, v, false}); trace += " --" + n + " " + esc(v); }
    void set(const str &n) { o.push_back({n, "", true}); trace += " --" + n; }
};
// the words of the command line: one after the other, joined by =, in reverse order, or each given twice with another value first
static strs line(const Opts &p, int style) {
    static const std::map<str, str> other{{"data", "/wrong-data"}, {"index", "/wrong-index"}, {"mode", "seq"}, {"socket", "/wrong"}, {"port", "1"}, {"listen", "wrong"}, {"admin", "wrong"}, {"maxsize", "77"}, {"datasize", "2M"}};
    auto v = p.o; if(style == 2) std::reverse(v.begin(), v.end()); strs a{"zdb"};
    if(style == 3) for(auto &x : v) { a.push_back("--" + x.name); if(!x.flag) a.push_back(other.at(x.name)); }
    for(auto &x : v) { if(x.flag) a.push_back("--" + x.name); else if(style == 1) a.push_back("--" + x.name + "=" + x.value); else { a.push_back("--" + x.name); a.push_back(x.value); } }
    return a;
}
static std::set<str> files() { std::set<str> v; for(auto &x : vfs.snapshot("/")) v.insert(x.first.substr(x.first.find_first_not_of("/") - 1)); return v; }
static void serve(Daemon &d, const Opts &p) {
    const char *t = p.trace.c_str(); strs l = inst_listeners(d.in); std::set<str> got(l.begin(), l.end()); str g, w; for(auto &x : got) g += x + " "; for(auto &x : p.listen) w += x + " "; if(got != p.listen) fail("%s: the server listens on %s instead of %s", t, g.c_str(), w.c_str());
    std::vector<int> cs; for(auto &x : got) { int c = inst_connect(d.in, x.substr(0, x.find('@'))); CHECK(c >= 0, "connect"); d.run(); cs.push_back(c); Reply r = d.cmd(c, {"PING"}); if(r.t != '+') fail("%s: PING on %s answers %s", t, x.c_str(), r.show().c_str()); }
    int c = cs[0]; Reply r = d.cmd(c, {"NSNEW", "n"}); if(p.adm.empty() != r.ok()) fail("%s: NSNEW answers %s before AUTH", t, r.show().c_str());
    if(p.adm.size()) { r = d.cmd(c, {"AUTH", "77"}); if(!r.err()) fail("%s: AUTH with another password answers %s", t, r.show().c_str()); r = d.cmd(c, {"AUTH", p.adm}); if(!r.ok()) fail("%s: AUTH answers %s", t, r.show().c_str()); r = d.cmd(c, {"NSNEW", "n"}); if(!r.ok()) fail("%s: NSNEW answers %s", t, r.show().c_str()); } else { r = d.cmd(c, {"AUTH", ""}); if(!r.err()) fail("%s: AUTH answers %s", t, r.show().c_str()); }
    // the default namespace
    int u = cs.back(); if(u == c) { u = inst_connect(d.in); d.run(); } bool seq = p.mode == "seq"; r = d.cmd(u, {"SET", seq ? "" : "key", "value"}); if(p.protect) { if(!r.err()) fail("%s: SET on the protected namespace answers %s", t, r.show().c_str()); r = d.cmd(u, {"SELECT", "default", "77"}); if(!r.err()) fail("%s: SELECT with another password answers %s", t, r.show().c_str()); r = d.cmd(u, {"SELECT", "default", p.adm}); if(!r.ok()) fail("%s: SELECT answers %s", t, r.show().c_str()); r = d.cmd(u, {"SET", seq ? "" : "key", "value"}); }
    if(!r.bulk(seq ? le64(0) : str("key"))) fail("%s: SET answers %s", t, r.show().c_str()); str k = r.s;
    if(seq) { r = d.cmd(u, {"SET", "key", "value"}); if(!r.err()) fail("%s: SET with a key answers %s in sequential mode", t, r.show().c_str()); } else { r = d.cmd(u, {"SET", "", "value"}); if(!r.err()) fail("%s: SET without a key answers %s", t, r.show().c_str()); }
    if(p.mode == "mixed") for(auto m : {"user", "seq"}) { r = d.cmd(c, {"NSNEW", str("n") + m}); CHECK(r.ok(), "NSNEW"); r = d.cmd(c, {"NSSET", str("n") + m, "mode", m}); if(!r.ok()) fail("%s: NSSET mode %s answers %s", t, m, r.show().c_str()); r = d.cmd(c, {"NSINFO", str("n") + m}); if(info_field(r.s, "mode") != (str(m) == "user" ? "userkey" : "sequential")) fail("%s: NSINFO shows the mode %s", t, info_field(r.s, "mode").c_str()); }
    r = d.cmd(c, {"NSINFO", "default"}); str lim = info_field(r.s, "data_limits_bytes"), md = info_field(r.s, "mode"), pw = info_field(r.s, "password"); if(lim != (p.maxsize.empty() ? "0" : p.maxsize)) fail("%s: the default namespace is limited to %s", t, lim.c_str()); if(md != (seq ? "sequential" : "userkey")) fail("%s: the default namespace has the mode %s", t, md.c_str()); if((pw == "yes") != p.protect) fail("%s: the default namespace has a password: %s", t, pw.c_str());
    r = d.cmd(c, {"NSINFO", "n"}); lim = info_field(r.s, "data_limits_bytes"); if(lim != "0" || info_field(r.s, "password") != "no") fail("%s: a new namespace is limited to %s, with a password: %s", t, lim.c_str(), info_field(r.s, "password").c_str());
    r = d.cmd(u, {"SET", seq ? "" : "more", str(1100, 'x')}); if(p.maxsize != "1000" ? r.err() : !r.err()) fail("%s: SET of 1100 bytes answers %s", t, r.show().c_str());
    // everything is below the directories asked for
    for(auto &f : files()) if(f.compare(0, p.data.size() + 1, p.data + "/") && f.compare(0, p.index.size() + 1, p.index + "/")) fail("%s: the server writes %s", t, f.c_str());
    for(auto f : {p.data + "/default/d0", p.index + "/default/i0", p.index + "/default/zdb-namespace", p.data + "/n/d0"}) if(!vfs.exists(f)) fail("%s: there is no file %s", t, f.c_str());
    note_transition(); d.stop(c);
}
SUITE(options) {
    Daemon d; Opts p; if(choose(2, "data")) { p.data = "/a/data"; p.add("data", p.data); } if(choose(2, "index")) { p.index = "/b/index"; p.add("index", p.index); }
    static const char *modes[] = {"", "user", "seq", "direct", "both"}; int m = choose(5, "mode"); if(m) { p.mode = m == 3 ? "seq" : modes[m]; p.add("mode", modes[m]); if(m == 4) p.bad = true; }
    bool un = choose(2, "socket"), li = choose(2, "listen"), po = choose(2, "port"), du = choose(2, "dualnet"); if(un) p.add("socket", "/s"); if(li) p.add("listen", "10.0.0.1"); if(po) p.add("port", "4321"); if(du) p.set("dualnet"); if(un) p.listen.insert("unix:/s"); if(!un || du) p.listen.insert(str("tcp:") + (po ? "4321" : "9900") + "@" + (li ? "10.0.0.1" : "::"));
    if(choose(2, "admin")) { p.adm = "secret"; p.add("admin", "secret"); } if(choose(2, "protect")) { p.protect = true; p.set("protect"); if(p.adm.empty()) p.bad = true; }
    if(int x = choose(3, "maxsize")) { p.maxsize = x == 1 ? "1000" : "5000000000"; p.add("maxsize", p.maxsize); } static const struct { const char *v; bool ok; } sizes[] = {{"", true}, {"1M", true}, {"524288", true}, {"524287", false}, {"4G", false}, {"4294967294", true}, {"abc", false}, {"1X", false}, {"-1", false}}; int z = thorough() ? choose(9, "datasize") : choose(2, "datasize") * 3; if(z) { p.add("datasize", sizes[z].v); if(!sizes[z].ok) p.bad = true; }
    if(choose(2, "more")) { p.set("verbose"); p.set("sync"); p.set("secure"); } int style = choose(4, "style"); strs a = line(p, style); p.trace = fmt("style %d:", style) + p.trace; note_case(p.trace);
    vfs.mkdirs("/a"); vfs.mkdirs("/b"); RunStatus r = inst_start(d.in, a); if(r == RS_CRASH) fail("%s: the server crashes", p.trace.c_str()); note_transition();
    if(p.bad) { if(r != RS_EXIT || inst_exit_code(d.in) == 0) fail("%s: the server %s", p.trace.c_str(), r == RS_EXIT ? "ends with success" : "starts"); if(files().size() || vfs.exists(p.data) || vfs.exists(p.index)) fail("%s: a refused start leaves %s", p.trace.c_str(), files().size() ? files().begin()->c_str() : "a directory"); note_state(fnvs(p.trace)); return; }
    if(r != RS_IDLE) fail("%s: the server does not start (%d)", p.trace.c_str(), inst_exit_code(d.in)); serve(d, p);
    // again: the options are applied to what is there already
    inst_reset(d.in); r = inst_start(d.in, a); if(r != RS_IDLE) fail("%s: the server does not start again (%d)", p.trace.c_str(), r == RS_EXIT ? inst_exit_code(d.in) : -1); int c = inst_connect(d.in); d.run(); if(p.adm.size()) CHECK(d.cmd(c, {"AUTH", p.adm}).ok(), "AUTH");
    for(strs w : std::vector<strs>{{"default", p.maxsize.empty() ? "0" : p.maxsize, p.protect ? "yes" : "no", p.mode == "seq" ? "sequential" : "userkey"}, {"n", "0", "no", p.mode == "seq" ? "sequential" : "userkey"}}) { Reply g = d.cmd(c, {"NSINFO", w[0]}); str x = info_field(g.s, "data_limits_bytes"), y = info_field(g.s, "password"), z = info_field(g.s, "mode"); if(x != w[1] || y != w[2] || z != w[3]) fail("%s: at the second start %s has the limit %s, a password: %s, the mode %s", p.trace.c_str(), w[0].c_str(), x.c_str(), y.c_str(), z.c_str()); }
    Reply g = d.cmd(c, {"GET", p.mode == "seq" ? le64(0) : str("key")}); if(!g.bulk("value")) fail("%s: at the second start GET answers %s", p.trace.c_str(), g.show().c_str()); note_transition(); note_state(vfs.hash("/") ^ fnvs(p.trace));
}
// a start which is refused, or which only shows something, changes nothing and leaves nothing behind
SUITE(options_refused) {
    Daemon d; bool seq = choose(2, "mode"); d.extra = {"--mode", seq ? "seq" : "user"}; if(choose(2, "former run")) { d.boot(); int c = d.conn(); CHECK(d.cmd(c, {"SET", seq ? "" : "key", "value"}).t == '$', "SET"); d.stop(c); } auto before = vfs.snapshot("/");
    static const std::vector<strs> lines{{"--version"}, {"--help"}, {"--unknown"}, {"--unknown=1"}, {"--mode"}, {"--port"}, {"--data"}, {"--mode", "other"}, {"--mode", ""}, {"--mode", "User"}, {"--datasize", "1"}, {"--datasize", "4294967295"}, {"--datasize", "99999999999999999999"}, {"--datasize", ""}, {"--datasize", "nan"}, {"--datasize", "-600000"}, {"--protect"}, {"--dualnet=1"}, {"--index", "/z/data"}, {"--data", "/z/index"}};
    int k = choose(lines.size(), "line"), at = choose(2, "place"); strs a = d.argv(); if(at) a.insert(a.begin() + 1, lines[k].begin(), lines[k].end()); else a.insert(a.end(), lines[k].begin(), lines[k].end()); str how; for(auto &x : a) how += " " + esc(x);
    if(at && lines[k].size() == 1 && (lines[k][0] == "--mode" || lines[k][0] == "--port" || lines[k][0] == "--data")) return; if(k == 7 || k == 8 || k == 9 || k >= 18) if(at && k >= 18) return;
    RunStatus r = inst_start(d.in, a); note_case(how); note_transition(); if(r == RS_CRASH) fail("%s: the server crashes", how.c_str()); if(r != RS_EXIT) fail("%s: the server starts", how.c_str()); int v = inst_exit_code(d.in); if((v == 0) != (k == 0)) fail("%s: the server ends with %d", how.c_str(), v); if(before != vfs.snapshot("/")) fail("%s: the files are changed", how.c_str());
    inst_reset(d.in); d.boot(); int c = d.conn(); Reply g = d.cmd(c, {"GET", seq ? le64(0) : str("key")}); if(before.empty() ? !g.nil() : !g.bulk("value")) fail("%s: then GET answers %s", how.c_str(), g.show().c_str()); note_state(vfs.hash("/") + k);
}
// the network refuses: the start fails, data is intact, the server already there goes on
SUITE(options_net) {
    Daemon a(inst_main()), b(inst_second()); bool seq = choose(2, "mode"), tcp = choose(2, "tcp"); a.tcp = b.tcp = tcp; a.extra = b.extra = {"--mode", seq ? "seq" : "user"}; b.dir = "/y"; int how = choose(4, "what"), hook = choose(2, "hook"); if(hook) b.extra.insert(b.extra.end(), {"--hook", "/bin/hook"}); hook_outcome = [](const strs &) { return 0; }; str t = fmt("%s %s fault %d%s", seq ? "seq" : "user", tcp ? "tcp" : "unix", how, hook ? " with a hook" : "");
    vfs.mkdirs("/y"); int had = choose(2, "former run"); if(had) { Daemon f(inst_second()); f.dir = "/y"; f.extra = a.extra; f.boot(); int c = f.conn(); CHECK(f.cmd(c, {"SET", seq ? "" : "key", "kept"}).t == '$', "SET"); f.stop(c); inst_reset(f.in); hook_calls.clear(); }
    a.boot(); int c = a.conn(); str k = seq ? le64(0) : str("key"); CHECK(a.cmd(c, {"SET", seq ? "" : "key", "value"}).t == '$', "SET"); if(how < 3) net_errno[how] = how == 1 ? EACCES : how == 2 ? EADDRINUSE : EMFILE; if(how == 3 && !tcp) return;
    RunStatus r = b.start(); memset(net_errno, 0, sizeof net_errno); note_case(t); note_transition(); if(r == RS_CRASH) fail("%s: the server crashes", t.c_str()); if(r != RS_EXIT || !inst_exit_code(b.in)) fail("%s: the server %s", t.c_str(), r == RS_EXIT ? "ends with success" : "starts"); for(auto &h : hook_calls) for(auto &x : h.argv) if(x == "ready") fail("%s: the hook is told that the server is ready", t.c_str());
    CHECK(a.cmd(c, {"GET", k}).bulk("value"), "%s: the first server answers otherwise", t.c_str()); int n = a.conn(); CHECK(a.cmd(n, {"PING"}).t == '+', "%s: PING of the first server", t.c_str()); inst_reset(b.in); a.stop(c);
    b.boot(); int e = b.conn(); Reply g = b.cmd(e, {"GET", k}); if(had ? !g.bulk("kept") : !g.nil()) fail("%s: then GET answers %s", t.c_str(), g.show().c_str()); g = b.cmd(e, {"SET", seq ? "" : "new", "x"}); CHECK(g.t == '$', "%s: then SET answers %s", t.c_str(), g.show().c_str()); b.stop(e); note_state(vfs.hash("/") ^ fnvs(t));
}
