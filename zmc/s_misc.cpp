// hooks (P26), replication channels (P27), exclusive use of the directories and modes (P28), the library (P25)
#include "hist.h"
#include "world.h"
// ---------------------------------------------------------------- P26
typedef std::map<str, str> Snap;
static const char *HOOK = "/z/hook.sh";
static str path_of(const str &ns, const char *kind, int id) { return (kind[0] == 'i' ? index_dir(ns) : data_dir(ns)) + fmt("/%c%d", kind[0], id); }
static int last_file(const Snap &s, const str &ns) { int n = -1; str p = data_dir(ns) + "/d"; for(auto &f : s) if(!f.first.compare(0, p.size(), p)) n = std::max(n, atoi(f.first.c_str() + p.size())); return n; }
static std::set<int> changed(const Snap &before, const Snap &after, const str &ns) { std::set<int> s; str p = index_dir(ns) + "/i"; for(auto &f : before) if(!f.first.compare(0, p.size(), p)) { auto i = after.find(f.first); if(i != after.end() && i->second.compare(0, f.second.size(), f.second)) s.insert(atoi(f.first.c_str() + p.size())); } return s; }
static str ids(const std::set<int> &s) { str r; for(int x : s) r += (r.empty() ? "" : " ") + fmt("%d", x); return r; }
static std::set<int> ids_of(const str &s) { std::set<int> r; size_t i = 0; while(i < s.size()) { size_t j = s.find(' ', i); if(j == str::npos) j = s.size(); if(j > i) r.insert(atoi(s.c_str() + i)); i = j + 1; } return r; }
struct HookRun {
    World w; size_t seen = 0, boot_at = 0; std::map<str, std::set<int>> dirty; str id; int deviations = 1; bool rotates = false;
    static bool blocking(const str &n) { return n == "ready" || n == "close" || n == "namespaces-init" || n == "missing-data"; }
    void begin(const strs &extra = {}) {
        hook_calls.clear(); hook_outcome = [this](const strs &a) { str n = a.size() > 1 ? a[1] : str(); if(n == "ready" || deviations <= 0) return 0; int x = choose(blocking(n) || n == "jump-index" ? 2 : 3, "hook outcome"); if(x) { deviations--; w.trace += fmt("(%s %s) ", n.c_str(), x == 1 ? "fails" : "is slow"); } return x == 2 ? -1 : x; };
        strs e{"--hook", HOOK}; for(auto &x : extra) e.push_back(x); w.start(e); id = "unix:///z/sock"; started();
    }
    void started() { boot_at = seen; expect({{"namespaces-init", "/z/index", "/z/data"}, {"ready"}}); dirty.clear(); }
    // the hooks run since the last look, in any order
    void expect(std::vector<strs> want) {
        std::vector<strs> got; for(; seen < hook_calls.size(); seen++) { HookCall &c = hook_calls[seen]; auto &a = c.argv; str all; for(auto &x : a) all += esc(x) + " "; if(a.size() < 3 || a[0] != HOOK || a[2] != id) fail("%s: the hook runs with [%s]", w.trace.c_str(), all.c_str()); strs s{a[1]}; s.insert(s.end(), a.begin() + 3, a.end()); got.push_back(s); CHECK(!blocking(a[1]) || c.waited, "%s: the daemon does not wait for the hook %s", w.trace.c_str(), a[1].c_str()); }
        auto show = [](const std::vector<strs> &l) { str r; for(auto &x : l) { r += "["; for(auto &y : x) r += esc(y) + " "; r += "] "; } return r; };
        auto norm = [](std::vector<strs> &l) { for(auto &x : l) if(x[0] == "jump-index" || x[0] == "namespace-closing") if(x.size() > 1) { auto s = ids_of(x.back()); x.back() = ids(s); } std::sort(l.begin(), l.end()); };
        norm(got); norm(want); if(got != want) fail("%s: hooks executed: %s expected: %s", w.trace.c_str(), show(got).c_str(), show(want).c_str()); note_transition(want.size());
    }
    Reply exec(int c, const strs &a) {
        Snap before = vfs.snapshot("/z"); str sel = w.cli[c].ns; bool det = w.cli[c].detached; size_t first = hook_calls.size(); auto had = w.ns; Reply r = w.exec(c, a); Snap after = vfs.snapshot("/z"); std::vector<strs> want; bool ok = !r.err() && r.t != 'X';
        const str &n = a.size() > 1 ? a[1] : sel;
        if(a[0] == "NSNEW" && ok) { want.push_back({"namespace-created", n}); dirty.erase(n); }
        if(a[0] == "NSDEL" && ok) want.push_back({"namespace-deleted", n});
        if(a[0] == "RELOAD" && ok) { want.push_back({"namespace-reloaded", n}); dirty.erase(n); }
        if(a[0] == "NSSET" && ok) want.push_back({"namespace-updated", n});
        if(a[0] == "FLUSH" && ok) dirty.erase(sel);
        if((a[0] == "NSJUMP" || a[0] == "SET" || a[0] == "DEL") && !det) {
            int o = last_file(before, sel), x = last_file(after, sel);
            if(a[0] == "NSJUMP" && ok) CHECK(x == o + 1, "%s: no next file", w.trace.c_str());
            if(x != o) { want.push_back({"jump-index", path_of(sel, "i", o), path_of(sel, "i", x), ids(dirty[sel])}); want.push_back({"jump-data", path_of(sel, "d", o), path_of(sel, "d", x)}); for(size_t i = first; i < hook_calls.size(); i++) if(hook_calls[i].argv[1] == "jump-index" && hook_calls[i].status == 0) dirty[sel].clear(); }
            auto t = changed(before, after, sel); dirty[sel].insert(t.begin(), t.end());
        }
        expect(want); return r;
    }
    void stopped(int sig) {                             // the end by STOP, by a signal or by a fault
        std::vector<strs> want; if(sig) want.push_back({sig == 11 ? "crash" : "close"}); Snap s = vfs.snapshot("/z");
        for(auto &n : w.ns) { int l = last_file(s, n.first); want.push_back({"namespace-closing", n.first, path_of(n.first, "i", l), path_of(n.first, "d", l), ids(dirty[n.first])}); } expect(want);
    }
    void reboot(int sig) {
        w.trace += sig == 11 ? "SIGSEGV+start; " : sig == 2 ? "SIGINT+start; " : sig ? "SIGTERM+start; " : "STOP+start; "; if(sig) w.d.term(sig); else w.d.stop(); note_transition(); stopped(sig); w.cli.clear(); for(auto &n : w.ns) n.second.lock = 0;
        w.d.boot(); w.obs = w.d.conn(); if(!w.adminpw.empty()) CHECK(w.d.cmd(w.obs, {"AUTH", w.adminpw}).ok(), "AUTH of the observer"); started();
    }
    // with --rotate, files are ended when the daemon is idle
    void idle(int64_t us = 1000000) {
        Snap before = vfs.snapshot("/z"); size_t first = hook_calls.size(); w.trace += fmt("%ld s idle; ", (long) (us / 1000000)); advance(us); w.d.tick(2); Snap after = vfs.snapshot("/z"); std::vector<strs> want;
        if(rotates) for(auto &n : w.ns) {
            int o = last_file(before, n.first), x = last_file(after, n.first); if(x == o) continue; CHECK(x == o + 1, "%s: %s goes from file %d to %d", w.trace.c_str(), n.first.c_str(), o, x);
            want.push_back({"jump-index", path_of(n.first, "i", o), path_of(n.first, "i", x), ids(dirty[n.first])}); want.push_back({"jump-data", path_of(n.first, "d", o), path_of(n.first, "d", x)});
            for(size_t i = first; i < hook_calls.size(); i++) if(hook_calls[i].argv[1] == "jump-index" && hook_calls[i].argv.size() > 3 && hook_calls[i].argv[3] == want[want.size() - 2][1] && hook_calls[i].status == 0) dirty[n.first].clear();
        }
        expect(want);
    }
    // HOOKS shows what is running and what ran recently
    void list() {
        w.d.tick(2); Reply r = w.d.cmd(w.obs, {"HOOKS"}); CHECK(r.t == '*', "%s: HOOKS answers %s", w.trace.c_str(), r.show().c_str()); std::set<int> shown; bool busy = false; for(size_t i = boot_at; i < hook_calls.size(); i++) busy |= hook_calls[i].running;
        for(auto &e : r.a) {
            CHECK(e.t == '*' && e.a.size() == 6 && e.a[0].t == '$' && e.a[1].t == '*' && e.a[2].t == ':' && e.a[3].t == ':' && e.a[4].t == ':' && e.a[5].t == ':', "%s: HOOKS lists %s", w.trace.c_str(), e.show().c_str());
            const HookCall *c = nullptr; for(size_t i = boot_at; i < hook_calls.size(); i++) if(hook_calls[i].pid == e.a[2].n) c = &hook_calls[i]; CHECK(c, "%s: HOOKS lists the unknown process %lld", w.trace.c_str(), e.a[2].n); CHECK(shown.insert(c->pid).second, "%s: HOOKS lists %d twice", w.trace.c_str(), c->pid);
            CHECK(e.a[0].s == c->argv[1], "%s: HOOKS names %s as %s", w.trace.c_str(), c->argv[1].c_str(), e.a[0].s.c_str()); CHECK(e.a[1].a.size() == c->argv.size() - 3, "%s: HOOKS lists %zu arguments for %s", w.trace.c_str(), e.a[1].a.size(), c->argv[1].c_str()); for(size_t i = 3; i < c->argv.size(); i++) CHECK(e.a[1].a[i - 3].bulk(c->argv[i]), "%s: HOOKS shows the argument %s of %s as %s", w.trace.c_str(), c->argv[i].c_str(), c->argv[1].c_str(), e.a[1].a[i - 3].show().c_str());
            CHECK(e.a[3].n > 0 && e.a[3].n <= vnow(), "%s: HOOKS shows %s started at %lld", w.trace.c_str(), c->argv[1].c_str(), e.a[3].n);
            if(c->running) CHECK(e.a[4].n == 0, "%s: HOOKS shows the running %s as finished at %lld", w.trace.c_str(), c->argv[1].c_str(), e.a[4].n); else { CHECK(e.a[4].n >= e.a[3].n && e.a[4].n <= vnow(), "%s: HOOKS shows %s (started %lld) finished at %lld", w.trace.c_str(), c->argv[1].c_str(), e.a[3].n, e.a[4].n); CHECK(e.a[5].n == c->status, "%s: HOOKS shows the status %lld for %s", w.trace.c_str(), e.a[5].n, c->argv[1].c_str()); if(!busy) CHECK(e.a[4].n >= vnow() - 302, "%s: HOOKS still shows %s, finished %lld s ago", w.trace.c_str(), c->argv[1].c_str(), (long long) vnow() - e.a[4].n); }
        }
        for(size_t i = boot_at; i < hook_calls.size(); i++) if(hook_calls[i].running) CHECK(shown.count(hook_calls[i].pid), "%s: HOOKS does not list the running %s", w.trace.c_str(), hook_calls[i].argv[1].c_str());
        for(size_t i = boot_at; i < hook_calls.size(); i++) if(!hook_calls[i].running) CHECK(hook_calls[i].waited, "%s: the finished process of %s is left as a zombie", w.trace.c_str(), hook_calls[i].argv[1].c_str());
    }
};
// documented events of a server's life, every hook succeeding, failing or never ending
SUITE(hook_events) {
    HookRun h; h.w.keys = {"k1", "k2"}; inst_set_datasize = 130; h.deviations = tier_pick(1, 2); h.begin(); int c = h.w.conn(); h.exec(c, {"NSNEW", "a"});
    std::vector<strs> ops{{"NSNEW", "b"}, {"NSNEW", "a"}, {"NSDEL", "b"}, {"NSDEL", "default"}, {"NSSET", "a", "maxsize", "200"}, {"NSSET", "a", "password", "pw"}, {"NSSET", "a", "lock", "1"}, {"NSSET", "default", "maxsize", "5"}, {"RELOAD", "default"}, {"RELOAD", "zz"}, {"NSJUMP"}, {"SET", "k1", str(40, 'x')}, {"SET", "k2", str(60, 'y')}, {"DEL", "k1"}, {"SELECT", "a"}};
    for(int i = 0; i < 3; i++) { int op = choose(ops.size() + 5, "op"); if(op < (int) ops.size()) h.exec(c, ops[op]); else { op -= ops.size(); if(op == 0) h.idle(); else { static const int how[] = {0, 15, 2, 11}; h.reboot(how[op - 1]); c = h.w.conn(); } } note_state(h.w.hash()); }
    h.w.verify(); h.list(); note_case(h.w.trace);
}
SUITE(hook_files) {
    HookRun h; h.w.keys = {"k1", "k2"}; inst_set_datasize = 130; h.deviations = 1; h.begin(); int c = h.w.conn();
    std::vector<strs> ops{{"NSJUMP"}, {"SET", "k1", str(40, 'x')}, {"SET", "k2", str(60, 'y')}, {"DEL", "k1"}, {"DEL", "k2"}, {"RELOAD", "default"}};
    for(int i = 0; i < tier_pick(4, 6); i++) { int op = choose(ops.size() + 1, "op"); if(op < (int) ops.size()) h.exec(c, ops[op]); else { h.reboot(15); c = h.w.conn(); } note_state(h.w.hash()); }
    h.w.verify(); h.reboot(15); note_case(h.w.trace);
}
SUITE(hook_rotate) {
    HookRun h; h.w.keys = {"k1"}; inst_set_datasize = 130; h.rotates = true; h.deviations = 1; h.begin({"--rotate", "1"}); int c = h.w.conn(), o = h.w.conn(); h.exec(o, {"NSNEW", "a"}); h.exec(o, {"SELECT", "a"});
    std::vector<strs> ops{{"SET", "k1", str(40, 'x')}, {"DEL", "k1"}, {"NSJUMP"}};
    for(int i = 0; i < tier_pick(3, 4); i++) { int op = choose(2 * ops.size() + 4, "op"); if(op < (int) ops.size()) h.exec(c, ops[op]); else if((op -= ops.size()) < (int) ops.size()) h.exec(o, ops[op]); else if((op -= ops.size()) == 0) h.idle(3000000); else if(op == 1) h.exec(o, {"RELOAD", "a"}); else if(op == 2) { h.reboot(15); c = h.w.conn(); o = h.w.conn(); h.exec(o, {"SELECT", "a"}); } else h.idle(1000000); note_state(h.w.hash()); }
    h.idle(3000000); h.w.verify(); h.reboot(15); h.w.verify(); note_case(h.w.trace);
}
SUITE(hook_seq) {
    HookRun h; h.w.mode = 1; inst_set_datasize = 130; h.deviations = 1; h.begin(); int c = h.w.conn();
    std::vector<strs> ops{{"NSJUMP"}, {"SET", "", str(60, 'x')}, {"SET", le64(0), "changed"}, {"SET", le64(0), str(70, 'z')}, {"DEL", le64(0)}, {"DEL", le64(1)}, {"RELOAD", "default"}};
    for(int i = 0; i < tier_pick(4, 6); i++) { int op = choose(ops.size(), "op"); h.exec(c, ops[op]); note_state(h.w.hash()); }
    h.w.verify(); h.reboot(choose(2, "stop") * 15); note_case(h.w.trace);
}
SUITE(hook_flush) {
    HookRun h; h.w.keys = {"k1"}; h.deviations = 1; h.begin(); int c = h.w.conn(); for(auto &a : std::vector<strs>{{"NSNEW", "p"}, {"NSSET", "p", "password", "pw"}, {"NSSET", "p", "public", "0"}, {"SELECT", "p", "pw"}}) h.exec(c, a);
    std::vector<strs> ops{{"FLUSH"}, {"SET", "k1", "v"}, {"DEL", "k1"}, {"NSJUMP"}, {"RELOAD", "p"}, {"NSSET", "p", "worm", "1"}, {"NSSET", "p", "public", "1"}};
    for(int i = 0; i < tier_pick(4, 5); i++) { int op = choose(ops.size(), "op"); h.exec(c, ops[op]); note_state(h.w.hash()); }
    h.w.verify(); h.reboot(15); h.w.verify(); note_case(h.w.trace);
}
// how HOOKS shows them as time passes and processes end
SUITE(hook_list) {
    HookRun h; h.deviations = 3; h.begin(); int c = h.w.conn(); h.exec(c, {"NSNEW", "a"});
    for(int i = 0; i < tier_pick(3, 5); i++) {
        int op = choose(8, "op");
        if(op == 7) { if(h.w.trace.find("orphan") != str::npos) return; h.w.trace += "orphan ends; "; orphans++; h.w.d.tick(2); }
        else if(op == 0) h.exec(c, {"NSSET", "a", "maxsize", "100"}); else if(op == 1) h.exec(c, {"NSJUMP"}); else if(op == 2) h.exec(c, {"RELOAD", "a"}); else if(op == 3) h.idle(200000000); else if(op == 4) h.idle(301000000); else if(op == 5) h.idle(1000000);
        else { std::vector<int> run; for(size_t k = 0; k < hook_calls.size(); k++) if(hook_calls[k].running) run.push_back(k); if(run.empty()) return; int k = run[choose(run.size(), "which")]; h.w.trace += hook_calls[k].argv[1] + " ends; "; hook_finish(k, choose(2, "status") * 3); h.w.d.tick(2); }
        h.list(); note_state(fnvs(h.w.trace));
    }
    note_case(h.w.trace);
}
// a program which cannot be started is like one that fails
SUITE(hook_nofork) {
    HookRun h; h.w.keys = {"k1"}; h.deviations = 1; h.begin(); int c = h.w.conn(); h.exec(c, {"NSNEW", "a"}); h.exec(c, {"SET", "k1", "v"});
    std::vector<strs> ops{{"NSNEW", "b"}, {"NSSET", "a", "maxsize", "100"}, {"NSJUMP"}, {"RELOAD", "a"}, {"NSDEL", "a"}, {"SET", "k1", "w"}}; std::set<str> fine;
    for(int i = 0; i < 3; i++) { bool broken = choose(2, "fork"); strs &a = ops[choose(ops.size(), "op")]; if(broken) { fork_errno = EAGAIN; h.w.trace += "(no fork) "; h.w.exec(c, a); h.expect({}); fork_errno = 0; auto t = changed({}, {}, ""); } else { size_t n = hook_calls.size(); h.w.exec(c, a); h.seen = hook_calls.size(); CHECK(a[0] == "SET" || hook_calls.size() > n || h.w.trace.find("no fork") != str::npos || a[0] == "NSNEW" || a[0] == "NSDEL" || a[0] == "NSSET" || a[0] == "RELOAD", "%s: the hook is not executed", h.w.trace.c_str()); } h.w.d.tick(2); }
    h.w.verify(); Reply r = h.w.d.cmd(h.w.obs, {"HOOKS"}); CHECK(r.t == '*', "%s: HOOKS answers %s", h.w.trace.c_str(), r.show().c_str()); h.w.d.term(); h.w.d.boot(); h.w.obs = h.w.d.conn(); h.w.cli.clear(); h.w.verify(); note_case(h.w.trace); note_state(h.w.hash());
}
// every number of hooks at once, long paths and names
SUITE(hook_many) {
    HookRun h; h.deviations = 0; h.begin(); int c = h.w.conn(); static const int counts[] = {1, 7, 8, 9, 15, 16, 17, 33, 64, 65, 200}; int n = counts[choose(11, "count")], how = choose(3, "kind"), slow = choose(2, "slow"); str a(how == 2 ? 128 : 1, 'a'); h.w.trace += fmt("%d hooks of kind %d%s; ", n, how, slow ? " running" : ""); h.exec(c, {"NSNEW", a}); if(how == 2) { h.exec(c, {"SELECT", a}); for(int i = 0; i < 3; i++) h.exec(c, {"NSJUMP"}); }
    if(slow) hook_outcome = [](const strs &x) { return x[1] == "jump-index" ? 0 : -1; };
    for(int i = 0; i < n; i++) { if(how == 0) h.exec(c, {"NSSET", a, "maxsize", "100"}); else if(how == 1) h.exec(c, {"NSJUMP"}); else h.exec(c, {"RELOAD", a}); }
    h.list(); size_t total = 0; for(size_t i = 0; i < hook_calls.size(); i++) if(hook_calls[i].running) { hook_finish(i, 0); total++; } h.w.d.tick(2); h.list(); h.idle(400000000); h.list(); Reply r = h.w.d.cmd(h.w.obs, {"HOOKS"}); CHECK(r.t == '*' && r.a.empty(), "%s: after a long time HOOKS answers %zu entries", h.w.trace.c_str(), r.a.size()); note_case(h.w.trace); note_state(n * 6 + how * 2 + slow);
}
// a long list of index files modified in place
SUITE(hook_dirty) {
    HookRun h; h.w.mode = 1; h.deviations = 0; h.begin(); int c = h.w.conn(); static const int counts[] = {1, 40, 300, 900, 1500}; int n = counts[choose(tier_pick(4, 5), "count")]; bool reset = choose(2, "hook succeeds"); hook_outcome = [](const strs &x) { return x[1] == "jump-index" ? 1 : 0; };
    for(int i = 0; i < n; i++) { CHECK(h.w.d.cmd(c, {"SET", "", "v"}).bulk(le64(i)), "SET"); CHECK(h.w.d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); } for(int i = 0; i < n; i++) { CHECK(h.w.d.cmd(c, {"DEL", le64(i)}).ok(), "DEL"); h.dirty["default"].insert(i); } CHECK(hook_calls.size() == h.seen + 2 * n, "%d jumps run %zu hooks", n, hook_calls.size() - h.seen); h.seen = hook_calls.size();
    if(reset) hook_outcome = nullptr; if(choose(2, "late")) h.idle(400000000); h.exec(c, {"NSJUMP"}); h.list(); h.exec(c, {"NSJUMP"}); h.list(); h.reboot(15); note_case(fmt("%d files, %d", n, reset)); note_state(n * 2 + reset);
}
// startup: only a successful ready event lets the server start
SUITE(hook_ready) {
    static const int codes[] = {0, 1, 2, 127, 255}; int r = codes[choose(5, "ready")], i = codes[choose(5, "init")]; bool tcp = choose(2, "tcp"), fork_fails = choose(2, "fork"); hook_outcome = [&](const strs &a) { return a[1] == "ready" ? r : a[1] == "namespaces-init" ? i : 0; }; Daemon d; d.tcp = tcp; d.extra = {"--mode", "user", "--hook", HOOK}; if(fork_fails) fork_errno = ENOMEM; RunStatus s = d.start(); fork_errno = 0;
    if(fork_fails) { CHECK(s == RS_EXIT, "the server starts although the ready hook cannot be executed"); return; } if(s == RS_CRASH) fail("crash at startup"); if(r == 0) CHECK(s == RS_IDLE, "the server does not start although the ready hook succeeds"); else { CHECK(s == RS_EXIT, "the server starts although the ready hook returns %d", r); }
    CHECK(hook_calls.size() == (s == RS_EXIT ? hook_calls.size() : 2) && hook_calls.size() >= 2 && hook_calls[0].argv[1] == "namespaces-init" && hook_calls[1].argv[1] == "ready", "hooks at startup"); hook_outcome = nullptr; if(s == RS_EXIT) { d.boot(); } int c = d.conn(); CHECK(d.cmd(c, {"SET", "k", "v"}).bulk("k"), "SET"); note_case(fmt("ready %d, init %d", r, i)); note_state(r * 256 + i);
}
// offloaded data files
struct Offload {
    Daemon d; int c = -1; UserModel m; strs keys; std::map<str, str> away; str trace; std::vector<str> asked; int how = 0;
    void hook() { hook_outcome = [this](const strs &a) { if(a[1] != "missing-data") return 0; asked.push_back(a.size() > 3 ? a[3] : str()); CHECK(a.size() == 4, "missing-data has %zu arguments", a.size()); if(how == 1) return 1; auto f = away.find(a[3]); if(how == 0 && f != away.end()) { vfs.put(a[3], f->second); away.erase(f); } return 0; }; }
};
SUITE(hook_missing) {
    Offload o; Daemon &d = o.d; o.hook(); d.extra = {"--mode", "user", "--hook", HOOK}; d.boot(); int c = d.conn(); UserModel m; strs keys{"k0", "k1", "k2", "k3"};
    for(int i = 0; i < 3; i++) { user_set(d, c, m, keys[i], fmt("value-%d", i)); if(i == 1) user_set(d, c, m, "k0", "newer"); CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); } user_set(d, c, m, "k3", "last");
    // k0: file 1 (older version in 0), k1: file 1, k2: file 2, k3: active file 3
    if(choose(2, "restart")) { d.restart(); c = d.conn(); o.trace += "restart; "; }
    int mask = choose(7, "missing") + 1; for(int f = 0; f < 3; f++) if(mask >> f & 1) { str p = data_dir() + fmt("/d%d", f); o.away[p] = vfs.read(p); vfs.rm(p); o.trace += fmt("d%d away; ", f); } auto gone = o.away; o.how = choose(3, "hook"); o.trace += o.how == 0 ? "hook restores; " : o.how == 1 ? "hook fails; " : "hook does nothing; ";
    if(choose(2, "restart now")) { d.restart(); c = d.conn(); o.trace += "restart; "; CHECK(o.asked.empty(), "%s: hook at start", o.trace.c_str()); }
    auto file_of = [&](const str &k) { return data_dir() + fmt("/d%d", k == "k0" || k == "k1" ? 1 : k == "k2" ? 2 : 3); };
    for(int step = 0; step < 2; step++) {
        int op = choose(8, "op"), ki = choose(4, "key"); const str &k = keys[ki]; str p = file_of(k); bool absent = o.away.count(p) && m.live.count(k); o.asked.clear(); size_t calls = hook_calls.size(); int expect_calls = 0; bool moved = false;
        auto readable = [&] { return !absent || o.how == 0; }; bool live = m.live.count(k); str v = live ? m.live[k].back().val : str();
        if(op == 0) { o.trace += "GET " + k + "; "; expect_calls = absent; Reply r = d.cmd(c, {"GET", k}); if(!live) CHECK(r.nil(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else if(readable()) CHECK(r.bulk(v), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else CHECK(r.err(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); }
        else if(op == 1) { o.trace += "CHECK " + k + "; "; expect_calls = absent; Reply r = d.cmd(c, {"CHECK", k}); if(!live) CHECK(r.nil() || r.err(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else if(readable()) CHECK(r.is(1), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else CHECK(r.err() || r.is(0) || r.is(-1), "%s: answers %s", o.trace.c_str(), r.show().c_str()); }
        else if(op == 2) { o.trace += "EXISTS, LENGTH, KEYTIME, SCAN; "; CHECK(d.cmd(c, {"EXISTS", k}).is(live), "%s: EXISTS", o.trace.c_str()); if(live) { CHECK(d.cmd(c, {"LENGTH", k}).is(v.size()), "%s: LENGTH", o.trace.c_str()); CHECK(d.cmd(c, {"KEYTIME", k}).is(m.live[k].back().ts), "%s: KEYTIME", o.trace.c_str()); } auto s = scan_all(d, c, "SCAN"); strs g; for(auto &x : s) g.push_back(x.key); CHECK(g == m.order, "%s: SCAN lists %zu keys", o.trace.c_str(), g.size()); auto rs = scan_all(d, c, "RSCAN"); CHECK(rs.size() == m.order.size(), "%s: RSCAN lists %zu keys", o.trace.c_str(), rs.size()); }
        else if(op == 3) { o.trace += "DEL " + k + "; "; Reply r = d.cmd(c, {"DEL", k}); if(live) { CHECK(r.ok(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); m.del(k); } else CHECK(r.err(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); }
        else if(op == 4) { o.trace += "SET " + k + " another; "; advance(1000000); Reply r = d.cmd(c, {"SET", k, "another length"}); if(live && v == "another length") CHECK(r.nil(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else { CHECK(r.bulk(k), "%s: answers %s", o.trace.c_str(), r.show().c_str()); m.set(k, "another length", vnow()); moved = true; } }
        else if(op == 5) { o.trace += "SET " + k + " same; "; advance(1000000); if(!live) continue; Reply r = d.cmd(c, {"SET", k, v}); expect_calls = absent; if(readable()) CHECK(r.nil(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else { CHECK(r.bulk(k) || r.nil() || r.err(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); if(r.bulk(k)) { m.set(k, v, vnow()); moved = true; } } }
        else if(op == 6) { o.trace += "MGET; "; Reply r = d.cmd(c, {"MGET", "k0", "k1", "k2", "k3"}); std::set<str> files; for(auto &x : keys) if(m.live.count(x) && o.how == 0) files.insert(file_of(x)); CHECK(r.t == '*' && r.a.size() == 4, "%s: answers %s", o.trace.c_str(), r.show().c_str()); for(int x = 0; x < 4; x++) { auto i = m.live.find(keys[x]); if(i == m.live.end()) CHECK(r.a[x].nil(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else if(r.a[x].t == '$') CHECK(r.a[x].bulk(i->second.back().val), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else CHECK((r.a[x].err() || r.a[x].nil()) && o.how && gone.count(file_of(keys[x])), "%s: answers %s", o.trace.c_str(), r.show().c_str()); } expect_calls = -1; }
        else { o.trace += "HISTORY k0; "; Reply r = d.cmd(c, {"HISTORY", "k0"}); if(m.live.count("k0")) { bool ab = gone.count(file_of("k0")) && o.how; if(!ab) CHECK(r.t == '*' && r.a.size() == 3 && r.a[2].bulk(m.live["k0"].back().val), "%s: answers %s", o.trace.c_str(), r.show().c_str()); else CHECK(r.t == '*' ? r.a.size() == 3 && (r.a[2].nil() || r.a[2].bulk(m.live["k0"].back().val)) : r.err(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); } else CHECK(r.err(), "%s: answers %s", o.trace.c_str(), r.show().c_str()); expect_calls = -1; }
        if(expect_calls >= 0) { CHECK((int) o.asked.size() == expect_calls, "%s: the missing-data hook runs %zu times instead of %d", o.trace.c_str(), o.asked.size(), expect_calls); CHECK(hook_calls.size() - calls == o.asked.size(), "%s: another hook is executed", o.trace.c_str()); if(expect_calls) CHECK(o.asked[0] == p, "%s: the missing-data hook gets %s", o.trace.c_str(), o.asked[0].c_str()); }
        else for(auto &x : o.asked) CHECK(gone.count(x), "%s: the missing-data hook gets %s", o.trace.c_str(), x.c_str());
        (void) moved; if(op == 4 || op == 5) if(m.live.count(k) && live && m.live[k].back().val != v) { } note_transition();
        if(op == 3 || op == 4 || op == 5) break;
    }
    // everything comes back with the files
    hook_outcome = nullptr; for(auto &f : o.away) vfs.put(f.first, f.second); if(choose(2, "restart at the end")) { d.restart(); c = d.conn(); o.trace += "restart; "; } verify_user(d, c, m, keys, V_ALL); note_case(o.trace); note_state(vfs.hash("/z"));
}
// ---------------------------------------------------------------- P28
static Snap below(const str &dir) { Snap s; for(auto &f : vfs.snapshot(dir)) if(f.first.size() < 10 || f.first.substr(f.first.size() - 10) != "/.lockfile") s.insert(f); return s; }
static void same(const Snap &a, const Snap &b, const str &how) { for(auto &f : a) { auto i = b.find(f.first); if(i == b.end()) fail("%s: %s has disappeared", how.c_str(), f.first.c_str()); if(i->second != f.second) fail("%s: %s is modified", how.c_str(), f.first.c_str()); } for(auto &f : b) if(!a.count(f.first)) fail("%s: %s is created", how.c_str(), f.first.c_str()); }
static const char *SHARES[] = {"both directories", "the data directory", "the index directory", "the directories exchanged", "nothing"};
static void second_dirs(Daemon &d, int share) { d.dir = "/y"; vfs.mkdirs("/y"); str data = share == 0 || share == 1 ? "/z/data" : share == 3 ? "/z/index" : "/y/data", index = share == 0 || share == 2 ? "/z/index" : share == 3 ? "/z/data" : "/y/index"; for(auto &x : strs{"--data", data, "--index", index}) d.extra.push_back(x); }
// a second server at any moment of the life of the first one
SUITE(lock_life) {
    Daemon a, b(inst_second()); bool hook = choose(2, "hook"); a.extra = {"--mode", "user"}; if(hook) { a.extra.push_back("--hook"); a.extra.push_back(HOOK); hook_outcome = [](const strs &x) { return x[1] == "ready" || x[1] == "namespaces-init" || x[1] == "close" || x[1] == "jump-index" ? 0 : -1; }; } bool seq = choose(2, "mode of the second"); b.extra = {"--mode", seq ? "seq" : "user"}; int share = choose(5, "shared"); second_dirs(b, share); str trace = fmt("sharing %s%s%s; ", SHARES[share], hook ? ", slow hooks" : "", seq ? ", other mode" : "");
    a.boot(); int c = a.conn(); UserModel m; strs keys{"k1", "k2"}; bool up = true;
    for(int i = 0; i < tier_pick(3, 4); i++) {
        int op = choose(9, "op"); if(!up && op < 4) return;
        if(op == 0) { trace += "SET; "; user_set(a, c, m, keys[i & 1], fmt("v%d", i)); } else if(op == 1) { trace += "NSJUMP; "; CHECK(a.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); } else if(op == 2) { trace += "RELOAD; "; CHECK(a.cmd(c, {"RELOAD", "default"}).ok(), "RELOAD"); } else if(op == 3) { trace += "DEL; "; if(!m.live.count("k1")) return; user_del(a, c, m, "k1"); }
        else if(op < 7) { if(!up) { if(op != 4) return; trace += "start; "; a.boot(); c = a.conn(); up = true; } else { trace += op == 4 ? "STOP; " : op == 5 ? "TERM; " : "KILL; "; if(op == 4) a.stop(c); else if(op == 5) a.term(); else a.crash(); up = false; } }
        else {
            trace += "second starts; "; bool free = !up || share == 4; auto before = below("/z"); RunStatus r = b.start(); note_transition(); if(r == RS_CRASH) fail("%s: the second server crashes", trace.c_str());
            if(!free) { CHECK(r == RS_EXIT, "%s: the second server starts", trace.c_str()); same(before, below("/z"), trace); }
            else if(share == 4 || (!seq && share == 0)) { CHECK(r == RS_IDLE, "%s: the second server does not start", trace.c_str()); if(share == 0) { int e = b.conn(); verify_user(b, e, m, keys, V_GET); } if(op == 8) b.stop(); else b.crash(); }
            else { if(r == RS_IDLE) { b.stop(); return; } if(share == 0 && seq) same(before, below("/z"), trace + "(other mode) "); else return; }
        }
        if(up) verify_user(a, c, m, keys, V_GET); note_state(vfs.hash("/z") * 2 + up);
    }
    if(up) { a.restart(); c = a.conn(); } else { a.boot(); c = a.conn(); } verify_user(a, c, m, keys, V_BASIC); note_case(trace);
}
// two servers starting at the same time: the second one runs at one file operation of the first one
SUITE(lock_race) {
    Daemon a, b(inst_second()); bool used = choose(2, "used before"); a.extra = {"--mode", "user"}; b.extra = {"--mode", "user"}; UserModel m; strs keys{"k1"}; if(used) { a.boot(); int c = a.conn(); user_set(a, c, m, "k1", "v"); CHECK(a.cmd(c, {"NSNEW", "n"}).ok(), "NSNEW"); a.stop(c); } int share = choose(4, "shared"); second_dirs(b, share); int at = choose(tier_pick(60, 90), "moment"), count = 0; bool started = false; RunStatus rb = RS_DEAD; Snap s1, s2; bool locked = false; str where;
    sys_hook = [&](SysKind k, const str &p, long) { SysAct none; if(started) return none; if(count++ != at) return none; started = true; where = str(sk_name(k)) + " " + p; s1 = below("/z"); rb = b.start(); s2 = below("/z"); return none; };
    RunStatus ra = a.start(); sys_hook = nullptr; (void) locked; if(!started) { if(ra == RS_IDLE) a.stop(); return; } str how = fmt("sharing %s, the second server starts before %s of the first one", SHARES[share], where.c_str()); if(ra == RS_CRASH || rb == RS_CRASH) fail("%s: crash", how.c_str());
    CHECK(ra == RS_EXIT || rb == RS_EXIT, "%s: both serve", how.c_str()); if(share == 0) CHECK(ra == RS_IDLE || rb == RS_IDLE, "%s: none serves", how.c_str()); if(share == 0 && rb == RS_EXIT) same(s1, s2, how);
    for(auto *d : {&a, &b}) if((d == &a ? ra : rb) == RS_IDLE) { int c = d->conn(); if(share == 0 || d == &a) { if(used && (share == 0 || d == &a)) verify_user(*d, c, m, keys, V_GET); } CHECK(d->cmd(c, {"SET", "k2", "w"}).bulk("k2"), "%s: SET", how.c_str()); d->stop(c); }
    if(share == 0) { a.boot(); int c = a.conn(); CHECK(a.cmd(c, {"GET", "k2"}).bulk("w"), "%s: lost", how.c_str()); if(used) CHECK(a.cmd(c, {"GET", "k1"}).bulk("v"), "%s: lost", how.c_str()); } note_case(how); note_state(fnvs(how)); note_transition();
}
// every creation mode and every mode of a later start
SUITE(mode_start) {
    static const char *modes[] = {"user", "seq", "mixed"}; int m1 = choose(3, "created in"), m2 = choose(3, "started in"); World w; w.mode = m1; w.keys = {"k1"}; w.start(); int c = w.conn(); str trace = fmt("created in %s; ", modes[m1]); int steps = choose(tier_pick(3, 4), "steps");
    for(int i = 0; i < steps; i++) {
        auto put = [&] { if(w.ns[w.cli[c].ns].seq) w.exec(c, {"SET", "", "v"}); else w.exec(c, {"SET", "k1", "v"}); };
        switch(choose(7, "op")) { case 0: put(); break; case 1: w.exec(c, {"NSJUMP"}); break; case 2: w.exec(c, {"NSNEW", "n"}); break; case 3: w.exec(c, {"SELECT", "n"}); break; case 4: w.exec(c, {"NSSET", "n", "mode", choose(2, "mode") ? "seq" : "user"}); break; case 5: if(w.ns[w.cli[c].ns].seq) w.exec(c, {"DEL", le64(0)}); else w.exec(c, {"DEL", "k1"}); break; case 6: w.exec(c, {"NSSET", "default", "mode", "seq"}); break; }
    }
    if(choose(2, "kill")) w.d.crash(); else w.d.stop(); auto before = below("/z"); bool fits = true; for(auto &n : w.ns) if(m2 < 2 && n.second.seq != (m2 == 1)) fits = false; w.trace += fmt("start in %s; ", modes[m2]);
    Daemon d; d.extra = {}; if(m2 < 2) d.extra = {"--mode", modes[m2]}; RunStatus r = d.start(); note_transition(); if(r == RS_CRASH) fail("%s: crash", w.trace.c_str()); if(fits) { CHECK(r == RS_IDLE, "%s: the server does not start", w.trace.c_str()); d.stop(); } else { CHECK(r == RS_EXIT, "%s: the server starts", w.trace.c_str()); same(before, below("/z"), w.trace); }
    w.cli.clear(); w.d.boot(); w.obs = w.d.conn(); w.verify(); note_case(w.trace);
}
// the mode can be changed only while nothing was ever written
SUITE(mode_switch) {
    World w; w.mode = 2; w.keys = {"k1"}; w.start(); int c = w.conn(); for(auto &a : std::vector<strs>{{"NSNEW", "n"}, {"NSSET", "n", "password", "pw"}, {"NSSET", "n", "public", "0"}, {"SELECT", "n", "pw"}}) w.exec(c, a);
    for(int i = 0; i < tier_pick(4, 5); i++) {
        auto &n = w.ns["n"]; int op = choose(9, "op"); bool seq = n.seq;
        if(op == 0) w.exec(c, seq ? strs{"SET", "", "v"} : strs{"SET", "k1", "v"}); else if(op == 1) { str id = seq ? le64(n.sq.last) : str("k1"); w.exec(c, {"DEL", id}); } else if(op == 2) w.exec(c, {"NSJUMP"}); else if(op == 3) w.exec(c, {"FLUSH"}); else if(op == 4) w.exec(c, {"RELOAD", "n"}); else if(op == 5) w.exec(c, {"NSSET", "n", "mode", "user"}); else if(op == 6) w.exec(c, {"NSSET", "n", "mode", "seq"}); else if(op == 7) w.exec(c, {"NSSET", "n", "mode", "other"}); else { w.reboot(choose(2, "signal")); c = w.conn(); w.exec(c, {"SELECT", "n", "pw"}); }
        note_state(w.hash());
    }
    w.verify(); w.reboot(); w.verify(); note_case(w.trace);
}

// ---------------------------------------------------------------- P32
static str info_get(const str &text, const char *field) { str k = str(field) + ": "; size_t p = 0; while(p < text.size()) { size_t e = text.find('\n', p); if(e == str::npos) e = text.size(); str l = text.substr(p, e - p); if(l.compare(0, k.size(), k) == 0) return l.substr(k.size()); p = e + 1; } return "(missing)"; }
// what the operating system, the connections and the commands themselves show since the server started
struct Tally {
    Daemon d; uint64_t valid = 0, unknown = 0, denied = 0, clients = 0, payload = 0, fails[4] = {0, 0, 0, 0}; int64_t since = 0; int obs = -1; str trace; bool reads = true, quiet = false;
    void begin() { valid = unknown = denied = clients = payload = 0; for(auto &f : fails) f = 0; since = clock_us / 1000000; d.boot(); obs = conn(); }
    int conn() { clients++; return d.conn(); }
    // payload bytes the server reads: everything but the headers of files (28 bytes) and of records (18 bytes)
    void watch() { sys_hook = [this](SysKind k, const str &p, long len) { if(k == SK_READ && p.find("/data/") != str::npos && len != 28 && len != 18) payload += len; return SysAct(); }; }
    Reply exec(int c, const strs &a, int refused = 0) { str s; for(auto &x : a) s += (s.empty() ? "" : " ") + (x.size() > 30 ? fmt("%s...(%zu)", x.substr(0, 3).c_str(), x.size()) : x); trace += fmt("[%d] ", c) + s + "; "; if(refused == 2) unknown++; else valid++; if(refused == 1) denied++; Reply r = d.cmd(c, a); if(refused == 1) CHECK(r.err() && r.has("Permission denied"), "%s: answers %s", trace.c_str(), r.show().c_str()); if(refused == 2) CHECK(r.err() && r.has("not supported"), "%s: answers %s", trace.c_str(), r.show().c_str()); return r; }
    void check(bool sizes = true) {
        Traffic t = inst_traffic(d.in); strs cmd{"INFO"}; valid++; Reply r = d.cmd(obs, cmd); CHECK(r.t == '$', "%s: INFO answers %s", trace.c_str(), r.show().c_str()); note_transition();
        auto is = [&](const char *f, uint64_t v) { str g = info_get(r.s, f); CHECK(g == fmt("%lu", v), "%s: INFO tells %s %s instead of %lu", trace.c_str(), f, g.c_str(), v); };
        auto mb = [&](const char *f, uint64_t v) { str g = info_get(r.s, f), e = fmt("%.2f", v / 1048576.0); CHECK(g == e, "%s: INFO tells %s %s instead of %s", trace.c_str(), f, g.c_str(), e.c_str()); };
        is("commands_executed", valid); is("commands_failed", unknown); is("commands_unauthorized", denied); is("clients_lifetime", clients); is("boot_time", since); is("uptime", clock_us / 1000000 - since);
        uint64_t rx = t.rx + resp_cmd(cmd).size(); is("network_rx_bytes", rx); mb("network_rx_mb", rx); is("network_tx_bytes", t.tx); mb("network_tx_mb", t.tx);
        if(sizes) { is("data_disk_write_bytes", t.wrote[0]); mb("data_disk_write_mb", t.wrote[0]); is("index_disk_write_bytes", t.wrote[1]); mb("index_disk_write_mb", t.wrote[1]); if(reads) { is("data_disk_read_bytes", payload); mb("data_disk_read_mb", payload); } }
        static const char *kinds[] = {"data_disk_read_failed", "data_disk_write_failed", "index_disk_read_failed", "index_disk_write_failed"}; for(int i = 0; i < 4; i++) is(kinds[i], fails[i]);
    }
    void reboot(int how) { trace += how == 0 ? "STOP; " : how == 1 ? "TERM; " : "KILL; "; if(how == 0) d.stop(obs); else if(how == 1) d.term(); else d.crash(); begin(); }
};
SUITE(info_counters) {
    Tally t; bool seq = choose(2, "mode"); t.d.extra = {"--mode", seq ? "seq" : "user", "--admin", "root"}; inst_set_datasize = 120; t.watch(); t.begin(); int c = t.conn(); uint64_t last = 0; bool admin = false;
    auto key = [&](bool fresh) { return seq ? fresh || !last ? str() : le64(last - 1) : str("k1"); }; str half;
    for(int i = 0; i < tier_pick(4, 5); i++) {
        int op = choose(13, "op"); if(!half.empty() && op != 9 && op < 10) return;
        if(op == 0) { Reply r = t.exec(c, {"SET", key(true), str(20 + i, 'a' + i)}); CHECK(r.t == '$', "%s: answers %s", t.trace.c_str(), r.show().c_str()); last++; }
        else if(op == 1) t.exec(c, {"GET", key(false)}); else if(op == 2) t.exec(c, {"CHECK", key(false)}); else if(op == 3) { if(seq && !last) return; t.exec(c, {"SET", key(false), "another"}); } else if(op == 4) t.exec(c, {"DEL", key(false)});
        else if(op == 5) t.exec(c, {"UNKNOWN", "x"}, 2); else if(op == 6) t.exec(c, {"NSNEW", "a"}, !admin); else if(op == 7) { if(admin) return; Reply r = t.exec(c, {"AUTH", choose(2, "password") ? "root" : "wrong"}); admin = r.ok(); }
        else if(op == 8) { t.trace += "two at once; "; t.valid++; t.unknown++; t.d.push(c, resp_cmd({"SCAN"}) + resp_cmd({"NOPE"})); t.d.tick(2); t.d.take(c); }
        else if(op == 9) { str m = resp_cmd({"EXISTS", key(false)}); if(half.empty()) { t.trace += "half a request; "; half = m.substr(m.size() / 2); t.d.push(c, m.substr(0, m.size() / 2)); } else { t.trace += "the other half; "; t.d.push(c, half); half.clear(); t.valid++; } t.d.tick(2); t.d.take(c); }
        else if(op == 10) { t.trace += "another client; "; t.d.hangup(c); c = t.conn(); admin = false; half.clear(); }
        else if(op == 11) { static const int secs[] = {1, 3600, 86400 * 400}; int s = choose(3, "wait"); t.trace += fmt("%d s; ", secs[s]); advance(secs[s] * 1000000l); t.d.tick(1); }
        else { t.reboot(choose(3, "stop")); c = t.conn(); admin = false; half.clear(); }
        t.check(); note_state(fnvs(t.trace));
    }
    note_case(t.trace);
}
// every command, allowed or refused, with every number of arguments
SUITE(info_commands) {
    static const char *names[] = {"PING", "TIME", "AUTH", "HOOKS", "INDEX", "DATA", "SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK", "SCAN", "SCANX", "RSCAN", "KSCAN", "HISTORY", "KEYCUR", "LENGTH", "KEYTIME", "INFO", "DBSIZE", "NSNEW", "NSDEL", "NSLIST", "NSSET", "NSINFO", "NSJUMP", "SELECT", "RELOAD", "FLUSH", "WAIT", "MIRROR", "MASTER", "get", "Set", "UNKNOWN", "GETS", "SETXX", "X"};
    int n = choose(41, "command"), argc = choose(4, "arguments"), what = choose(3, "argument"), who = choose(3, "client"), big = choose(2, "big"); Tally t; t.reads = false; t.d.extra = {"--admin", "root"}; t.begin(); int c = t.conn(); str value(big ? 300000 : 30, 'v'); t.exec(c, {"SET", "k1", value}); if(who) t.exec(c, {"AUTH", "root"}); if(who == 2) { for(auto &a : std::vector<strs>{{"NSNEW", "a"}, {"NSSET", "a", "password", "pw"}, {"SELECT", "a"}}) t.exec(c, a); }
    strs cmd{names[n]}; for(int i = 0; i < argc; i++) cmd.push_back(what == 0 ? "k1" : what == 1 ? "1" : str(200, 'z')); str m = resp_cmd(cmd); t.trace += fmt("(%s%s) %s with %d arguments %s; ", who == 0 ? "client" : who == 1 ? "admin" : "in another namespace", big ? ", large value" : "", names[n], argc, cmd.back().c_str());
    t.d.push(c, m); t.d.tick(2); str out = t.d.take(c); bool ends = t.d.closed(c); if(out.find("-Command not supported") == 0) t.unknown++; else t.valid++; CHECK(n < 37 ? t.unknown == 0 : t.unknown == 1, "%s: answers %s", t.trace.c_str(), out.substr(0, 60).c_str()); if(out.find("-Permission denied") == 0) t.denied++; (void) ends; t.check(); t.check(); note_case(t.trace); note_state(fnvs(t.trace));
}
// replies larger than what a client takes: only what left is counted
SUITE(info_slow) {
    Tally t; t.watch(); t.begin(); int c = t.conn(), e = t.conn(); t.exec(c, {"SET", "k1", str(5000, 'v')}); static const long caps[] = {0, 1, 100, 4999, 5010, 6000};
    for(int i = 0; i < tier_pick(3, 4); i++) { int op = choose(9, "op"); if(op < 6) { t.trace += fmt("the client takes %ld more; ", caps[op]); sock_writable(t.d.in, c, caps[op]); t.d.tick(2); } else if(op == 6) { t.trace += "GET; "; t.valid++; t.d.push(c, resp_cmd({"GET", "k1"})); t.d.tick(2); } else if(op == 7) { t.trace += "the client leaves; "; t.d.hangup(c, choose(2, "reset")); c = t.conn(); } else t.exec(e, {"GET", "k1"}); t.check(); note_state(fnvs(t.trace)); }
    note_case(t.trace);
}
// reads and writes the system refuses
SUITE(info_fault) {
    Tally t; bool seq = choose(2, "mode"); t.d.extra = {"--mode", seq ? "seq" : "user"}; t.reads = false; t.begin(); int c = t.conn(); str id = seq ? "" : "k1"; Reply r = t.exec(c, {"SET", id, "value"}); if(seq) id = r.s; t.exec(c, {"SET", seq ? str() : str("k2"), "other"});
    uint64_t ns[2] = {0, 0};
    for(int i = 0; i < tier_pick(2, 3); i++) {
        std::vector<strs> ops{{"SET", seq ? str() : str("k3"), fmt("new %d", i)}, {"SET", id, fmt("changed %d", i)}, {"GET", id}, {"DEL", id}, {"CHECK", id}, {"LENGTH", id}, {"SCAN"}, {"HISTORY", id}, {"NSJUMP"}}; strs &a = ops[choose(ops.size(), "op")]; int at = choose(tier_pick(6, 9), "fault"), count = 0; str where; bool hit = false;
        sys_hook = [&](SysKind k, const str &p, long len) { SysAct s; bool data = p.find("/data/") != str::npos, index = p.find("/index/") != str::npos; if(!(k == SK_WRITE && (data || index)) && !(k == SK_READ && data && len != 28 && len != 18)) return s; if(hit || count++ != at) return s; hit = true; where = fmt("%s %s of %ld bytes", sk_name(k), p.c_str(), len); s.err = EIO; if(k == SK_WRITE) t.fails[data ? 1 : 3]++; else t.fails[0]++; if(k == SK_WRITE) ns[index]++; return s; };
        t.trace += "("; t.exec(c, a); sys_hook = nullptr; if(!hit) return; t.trace += where + " fails) "; t.check(false);
        t.valid++; Reply q = t.d.cmd(t.obs, {"NSINFO", "default"}); CHECK(info_get(q.s, "stats_data_io_errors") == fmt("%lu", ns[0]) && info_get(q.s, "stats_index_io_errors") == fmt("%lu", ns[1]), "%s: NSINFO tells %s errors of the data files and %s of the index files instead of %lu and %lu", t.trace.c_str(), info_get(q.s, "stats_data_io_errors").c_str(), info_get(q.s, "stats_index_io_errors").c_str(), ns[0], ns[1]); note_state(fnvs(t.trace));
    }
    t.exec(c, {"SET", seq ? str() : str("k9"), "after"}); t.check(false); note_case(t.trace);
}
