// P31: the replication utilities (db-sync, db-replicate). Their client library (hiredis) is answered here, command by
// command, by real daemons; between two commands other clients may act.
#include "hist.h"
#include <hiredis/hiredis.h>
#include <cstdarg>
struct Link { Daemon *d; int sock; str out, in; bool source; };
static std::map<redisContext *, Link> links;
static Daemon *src, *dst;
static std::function<void(Link &, const str &)> sync_hook;   // before anything is sent (the bytes) and before a reply is read ("")
static std::function<void(Link &)> stuck_hook;               // the reply does not come
static void broken(redisContext *c, int err, const char *msg) { c->err = err; snprintf(c->errstr, sizeof c->errstr, "%s", msg); }
static redisReply *convert(const Reply &r) {
    redisReply *o = (redisReply *) calloc(1, sizeof *o); auto text = [&](int t) { o->type = t; o->len = r.s.size(); o->str = (char *) malloc(r.s.size() + 1); memcpy(o->str, r.s.c_str(), r.s.size() + 1); };
    switch(r.t) {
        case '+': text(REDIS_REPLY_STATUS); break; case '-': text(REDIS_REPLY_ERROR); break; case '$': text(REDIS_REPLY_STRING); break;
        case ':': o->type = REDIS_REPLY_INTEGER; o->integer = r.n; break;
        case '*': o->type = REDIS_REPLY_ARRAY; o->elements = r.a.size(); o->element = (redisReply **) calloc(r.a.size() + 1, sizeof(void *)); for(size_t i = 0; i < r.a.size(); i++) o->element[i] = convert(r.a[i]); break;
        default: o->type = REDIS_REPLY_NIL;
    }
    return o;
}
static str format(const char *f, va_list ap) {
    strs a; str t; bool open = false;
    for(; *f; f++) {
        if(*f == ' ') { if(open) a.push_back(t); t.clear(); open = false; continue; }
        open = true; if(*f != '%') { t += *f; continue; }
        f++; if(*f == 's') t += va_arg(ap, const char *); else if(*f == 'b') { const char *b = va_arg(ap, const char *); size_t n = va_arg(ap, size_t); if(n) t.append(b, n); } else if(*f == '%') t += '%';
        else { str spec = "%"; while(*f && !strchr("diouxXeEfFgGc", *f)) spec += *f++; spec += *f; int l = std::count(spec.begin(), spec.end(), 'l') + std::count(spec.begin(), spec.end(), 'z'); t += strchr("eEfFgG", *f) ? fmt(spec.c_str(), va_arg(ap, double)) : l ? fmt(spec.c_str(), va_arg(ap, long)) : fmt(spec.c_str(), va_arg(ap, int)); }
    }
    if(open) a.push_back(t); return resp_cmd(a);
}
static bool flush(redisContext *c, Link &l) {
    if(c->err) return false; if(l.out.empty()) return true; str o; o.swap(l.out); if(sync_hook) sync_hook(l, o); logf("[%s] %s", l.source ? "source" : "target", esc(o, 120).c_str());
    if(!inst_alive(l.d->in) || l.d->closed(l.sock)) { broken(c, REDIS_ERR_EOF, "Server closed the connection"); return false; }
    l.d->push(l.sock, o); try { l.d->run(); } catch(Exited &) {} catch(Crashed &) {} note_transition(); return true;
}
static redisReply *next(redisContext *c) {
    Link &l = links[c]; if(!flush(c, l)) return nullptr; if(sync_hook) sync_hook(l, "");
    for(int i = 0; i < 50; i++) {
        if(l.sock >= 0) l.in += l.d->take(l.sock); Reply r; size_t p = 0; bool bad = false; if(resp_parse(l.in, p, r, &bad)) { l.in.erase(0, p); logf("    -> %s", r.show().c_str()); return convert(r); }
        if(bad) { broken(c, REDIS_ERR_PROTOCOL, "Protocol error"); return nullptr; }
        if(!inst_alive(l.d->in) || l.d->closed(l.sock)) { broken(c, REDIS_ERR_EOF, "Server closed the connection"); return nullptr; }
        if(!stuck_hook) fail("the daemon does not answer"); stuck_hook(l);
    }
    fail("the daemon does not answer");
}
struct Out { Out(); ~Out(); bool was; };
bool sut_enter(bool in);
Out::Out() : was(sut_enter(false)) {}
Out::~Out() { sut_enter(was); }
extern "C" {
redisContext *redisConnectWithTimeout(const char *ip, int port, const struct timeval) {
    Out o; redisContext *c = (redisContext *) calloc(1, sizeof *c); str h = ip ? ip : ""; bool s = h == "source.host" && port == 9900, t = h == "target.host" && port == 7777; Daemon *d = s ? src : t ? dst : nullptr;
    int k = d && inst_alive(d->in) ? inst_connect(d->in) : -1; if(k < 0) { broken(c, REDIS_ERR_IO, "Connection refused"); return c; }
    try { d->run(); } catch(Exited &) {} catch(Crashed &) {} c->fd = k; links[c] = Link{d, k, "", "", s}; return c;
}
redisContext *redisConnect(const char *ip, int port) { struct timeval t = {0, 0}; return redisConnectWithTimeout(ip, port, t); }
int redisSetTimeout(redisContext *, const struct timeval) { return REDIS_OK; }
void redisFree(redisContext *c) { Out o; if(!c) return; auto l = links.find(c); if(l != links.end()) { if(inst_alive(l->second.d->in)) try { l->second.d->hangup(l->second.sock); } catch(Exited &) {} catch(Crashed &) {} links.erase(l); } free(c); }
void freeReplyObject(void *p) { Out o; redisReply *r = (redisReply *) p; if(!r) return; for(size_t i = 0; i < r->elements; i++) freeReplyObject(r->element[i]); free(r->element); free(r->str); free(r); }
int redisvAppendCommand(redisContext *c, const char *f, va_list ap) { Out o; links[c].out += format(f, ap); return REDIS_OK; }
int redisAppendCommand(redisContext *c, const char *f, ...) { va_list ap; va_start(ap, f); int r = redisvAppendCommand(c, f, ap); va_end(ap); return r; }
int redisGetReply(redisContext *c, void **r) { Out o; redisReply *x = next(c); if(!x) { if(r) *r = nullptr; return REDIS_ERR; } if(r) *r = x; else freeReplyObject(x); return REDIS_OK; }
void *redisvCommand(redisContext *c, const char *f, va_list ap) { if(redisvAppendCommand(c, f, ap) != REDIS_OK) return nullptr; void *r; return redisGetReply(c, &r) == REDIS_OK ? r : nullptr; }
void *redisCommand(redisContext *c, const char *f, ...) { va_list ap; va_start(ap, f); void *r = redisvCommand(c, f, ap); va_end(ap); return r; }
int redisAppendCommandArgv(redisContext *c, int n, const char **a, const size_t *l) { Out o; strs v; for(int i = 0; i < n; i++) v.push_back(l ? str(a[i], l[i]) : str(a[i])); links[c].out += resp_cmd(v); return REDIS_OK; }
void *redisCommandArgv(redisContext *c, int n, const char **a, const size_t *l) { redisAppendCommandArgv(c, n, a, l); void *r; return redisGetReply(c, &r) == REDIS_OK ? r : nullptr; }
}
typedef std::map<str, str> Content;
static str shown(const Content &m) { str s = "{"; for(auto &x : m) s += " " + esc(x.first, 20) + "=" + esc(x.second, 20); return s + " }"; }
// every key a database lists, with its payload
static Content content(Daemon &d) { int c = d.conn(); Content m; for(auto &x : scan_all(d, c, "SCAN")) { Reply r = d.cmd(c, {"GET", x.key}); if(r.t != '$') fail("GET of the listed key %s answers %s", esc(x.key).c_str(), r.show().c_str()); if(m.count(x.key)) fail("SCAN lists %s twice", esc(x.key).c_str()); m[x.key] = r.s; } d.hangup(c); return m; }
static Content of(const Hist &h) { Content m; if(h.seq) for(auto &x : h.q.live) m[le64(x.first)] = x.second.val; else for(auto &x : h.m.live) m[x.first] = x.second.back().val; return m; }
static Content over(Content a, const Content &b) { for(auto &x : b) a[x.first] = x.second; return a; }
static int slice_every;   // a scan slice ends after so many readings of the clock
static int utility(const str &name, const strs &more = {}) {
    Instance *t = inst_tool(name); strs a{name, "--source-host", "source.host", "--remote-host", "target.host", "--remote-port", "7777"}; for(auto &x : more) a.push_back(x); int reads = 0;
    if(slice_every) clock_hook = [&] { if(++reads % slice_every == 0) clock_us += 2500; };
    str o; sut_output = &o; RunStatus r = inst_start(t, a); sut_output = nullptr; clock_hook = nullptr; links.clear(); if(r == RS_CRASH) fail("%s crashes", name.c_str()); if(r != RS_EXIT) fail("%s does not end", name.c_str());
    int code = inst_exit_code(t); inst_reset(t); logf("%s: exit %d, output %s", name.c_str(), code, esc(o, 600).c_str()); return code & 255;
}
struct Pair {
    Hist h; Daemon e; Content had;
    Pair() : e(inst_second()) { src = &h.d; dst = &e; e.dir = "/y"; e.tcp = true; vfs.mkdirs("/y"); }
    void target(const strs &args, const Content &first) { e.extra = args; e.boot(); int c = e.conn(); for(auto &x : first) { Reply r = e.cmd(c, {"SET", x.first, x.second}); if(r.t != '$') fail("SET answers %s", r.show().c_str()); } had = first; e.hangup(c); }
};
static void sync_run(Pair &p, int depth) {
    Hist &h = p.h; h.start(); for(int i = 0; i < depth; i++) h.step();
    int t = choose(3, "target"); strs ks = h.keys; p.target({"--mode", "user"}, t == 0 ? Content{} : t == 1 ? Content{{"other", "kept"}, {ks[0], "former"}} : Content{{ks[0], h.vals[0]}, {"o", ""}}); slice_every = choose(3, "slice");
    auto before = vfs.snapshot("/z"); str how = h.trace + fmt("target %d; slices %d; db-sync", t, slice_every); int v = utility("db-sync"); if(v) fail("%s: ends with %d", how.c_str(), v); if(before != vfs.snapshot("/z")) fail("%s: the source is modified", how.c_str());
    Content want = over(p.had, of(h)), got = content(p.e); if(got != want) fail("%s: the target holds %s, expected %s", how.c_str(), shown(got).c_str(), shown(want).c_str()); note_case(how); note_state(vfs.hash("/y"));
    p.e.restart(); got = content(p.e); if(got != want) fail("%s, target restarted: it holds %s, expected %s", how.c_str(), shown(got).c_str(), shown(want).c_str()); h.verify(V_GET);
}
SUITE(sync_user) { Pair p; p.h.keys = {"k1", str("\0\xff %b\r\n", 7), str(255, 'k')}; p.h.vals = {"v1", str("\0 %s\r\n$1", 8), ""}; sync_run(p, tier_pick(3, 4)); }
SUITE(sync_files) { Pair p; inst_set_datasize = 120; p.h.vals = {str(50, 'x'), str(90, 'y')}; p.h.extras = {"NSJUMP", "RELOAD", "KILL"}; sync_run(p, tier_pick(3, 4)); }
// many keys, slices of every length
SUITE(sync_many) {
    static const int counts[] = {0, 1, 2, 127, 128, 129, 257, 700}; Pair p; Hist &h = p.h; int n = counts[choose(tier_pick(7, 8), "keys")], gone = n ? choose(3, "deleted") : 0; h.start();
    for(int i = 0; i < n; i++) user_set(h.d, h.c, h.m, fmt("key-%d", i), fmt("payload of %d", i)); if(gone) for(int i = 0; i < n; i++) if(gone == 1 ? i % 3 == 0 : i < n - 1) user_del(h.d, h.c, h.m, fmt("key-%d", i));
    static const int every[] = {0, 1, 2, 3, 5, 128, 129, 130, 257}; slice_every = every[choose(9, "slice")]; p.target({}, {}); str how = fmt("%d keys, %zu left, slices %d; db-sync", n, h.m.live.size(), slice_every); int v = utility("db-sync"); if(v) fail("%s: ends with %d", how.c_str(), v);
    Content got = content(p.e), want = of(h); if(got != want) fail("%s: the target holds %zu keys, %s", how.c_str(), got.size(), got.size() < 20 ? shown(got).c_str() : "not those of the source"); note_case(how); note_state(vfs.hash("/y"));
}
// a sequential source: into a key-value target, the identifiers become keys; a sequential target cannot take them
SUITE(sync_seq) {
    Pair p; Hist &h = p.h; h.seq = true; h.start(); int depth = tier_pick(4, 5); for(int i = 0; i < depth; i++) h.step(); slice_every = choose(3, "slice"); bool seq = choose(2, "target"); p.target({"--mode", seq ? "seq" : "user"}, {});
    str how = h.trace + fmt("slices %d; db-sync into %s", slice_every, seq ? "seq" : "user"); int v = utility("db-sync"); Content got = content(p.e), want = of(h); note_case(how); note_state(vfs.hash("/y"));
    if(!seq) { if(v) fail("%s: ends with %d", how.c_str(), v); if(got != want) fail("%s: the target holds %s, expected %s", how.c_str(), shown(got).c_str(), shown(want).c_str()); }
    else { if(!v && got != want) fail("%s: ends with success, the target holds %s, expected %s", how.c_str(), shown(got).c_str(), shown(want).c_str()); if(!got.empty()) fail("%s: the target holds %s", how.c_str(), shown(got).c_str()); }
}
// something refuses, fails or disappears on the way: no success without a complete copy, and never anything the source does not have
static void honest(Pair &p, const str &how, int v, const Content &want, const Content &got) {
    if(!v && got != over(p.had, want)) fail("%s: ends with success, the target holds %s, expected %s", how.c_str(), shown(got).c_str(), shown(over(p.had, want)).c_str());
    for(auto &x : got) { auto w = want.find(x.first); Content::const_iterator o = p.had.find(x.first); if((w == want.end() || w->second != x.second) && (o == p.had.end() || o->second != x.second)) fail("%s: the target holds %s=%s", how.c_str(), esc(x.first).c_str(), esc(x.second, 60).c_str()); }
    note_case(how + fmt(" -> %d", v)); note_state(fnvs(how) + v);
}
static void four(Pair &p) { Hist &h = p.h; h.start(); for(int i = 0; i < 4; i++) { user_set(h.d, h.c, h.m, fmt("k%d", i), str(10 * i, 'a' + i)); if(i == 1) h.d.cmd(h.c, {"NSJUMP"}); } }
SUITE(sync_refused) {
    Pair p; Hist &h = p.h; four(p); int kind = choose(5, "refusal"); Daemon &e = p.e; static const char *names[] = {"protected", "limited to 40 bytes", "stopped", "no source", "limited to 10 bytes"}; str how = names[kind]; strs args; if(kind == 0) args = {"--admin", "root", "--protect"}; if(kind == 1) args = {"--maxsize", "40"}; if(kind == 4) args = {"--maxsize", "10"};
    p.target(args, kind == 0 || kind == 4 ? Content{} : Content{{"k2", "former"}, {"other", "kept"}}); if(kind == 2) e.stop(); if(kind == 3) h.d.stop();
    slice_every = choose(3, "slice"); int v = utility("db-sync"); if(kind == 2) e.boot(); if(!v) fail("target %s: db-sync ends with success", how.c_str()); honest(p, how + fmt(", slices %d", slice_every), v, of(h), content(e));
}
SUITE(sync_fault) {
    Pair p; Hist &h = p.h; four(p); p.target({}, {{"k2", "former"}, {"other", "kept"}}); slice_every = choose(3, "slice"); bool target = choose(2, "side"); int kind = choose(4, "fault"), at = choose(120, "point"), n = 0; bool hit = false; str what;
    // 0, 1: a file operation fails or is short (a short read of an index file is its end); 2: the process dies at a file operation; 3: before a command
    if(kind < 3) sys_hook = [&](SysKind k, const str &f, long len) { SysAct a; if(f.substr(0, 3) != (target ? "/y/" : "/z/") || (k != SK_READ && k != SK_WRITE && k != SK_OPEN) || (kind == 1 && (k == SK_OPEN || (k == SK_READ && f.find("/index/") != str::npos)))) return a; if(n++ == at) { hit = true; what = str(sk_name(k)) + " " + f; if(kind == 0) a.err = EIO; else if(kind == 1) a.limit = len / 2; else a.crash = true; } return a; };
    else sync_hook = [&](Link &l, const str &b) { if(l.source == target || b.empty()) return; if(n++ == at) { hit = true; what = esc(b, 40); inst_kill(l.d->in); } };
    int v = utility("db-sync"); sys_hook = nullptr; sync_hook = nullptr; if(!hit) return; str how = fmt("%s, fault %d at %d (%s), slices %d", target ? "target" : "source", kind, at, what.c_str(), slice_every);
    if(!inst_alive(h.d.in)) h.d.boot(); if(!inst_alive(p.e.in)) p.e.boot(); honest(p, how, v, of(h), content(p.e)); if(kind >= 2 && !v && target) fail("%s: db-sync ends with success", how.c_str());
}
// an entry whose payload cannot be read or is damaged
SUITE(sync_damaged) {
    Pair p; Hist &h = p.h; four(p); int which = choose(4, "entry"); str k = fmt("k%d", which); h.d.stop(h.c); int f = which / 2; str path = data_dir() + fmt("/d%d", f), b = vfs.read(path); size_t at = b.find(k); CHECK(at != str::npos, "entry not found"); int how = choose(3, "damage");
    if(how == 0) b[at - 18] ^= 1; else if(how == 1) b.resize(at + 2); else b[at] ^= 0x20; vfs.put(path, b); h.d.boot(); p.target({}, {}); slice_every = choose(2, "slice"); int c = h.d.conn(); Content want = of(h), now; for(auto &x : want) { Reply r = h.d.cmd(c, {"GET", x.first}); if(r.t == '$') now[x.first] = r.s; }
    int v = utility("db-sync"); honest(p, fmt("%s damaged (%d), slices %d", k.c_str(), how, slice_every), v, now.size() == want.size() ? now : want, content(p.e));
}
// another client acts on the source meanwhile
SUITE(sync_race) {
    Pair p; Hist &h = p.h; four(p); if(choose(2, "deleted")) user_del(h.d, h.c, h.m, "k2"); p.target({}, {{"k2", "former"}}); slice_every = choose(3, "slice"); std::map<str, std::set<str>> ever; std::set<str> stable; Content first = of(h); for(auto &x : first) ever[x.first].insert(x.second), stable.insert(x.first);
    int left = tier_pick(1, 2), points = 0; str how = fmt("slices %d;", slice_every);
    sync_hook = [&](Link &l, const str &b) {
        points++; if(!left || l.d != &h.d) return; int op = choose(9, "meanwhile"); if(!op) return; left--; str k = op == 1 ? "new" : op < 6 ? fmt("k%d", op - 2) : fmt("k%d", op - 5); how += fmt(" at %d: %s %s;", points, op < 6 ? "SET" : "DEL", k.c_str());
        advance(1000000); if(op < 6) { user_set(h.d, h.c, h.m, k, "meanwhile"); ever[k].insert("meanwhile"); } else user_del(h.d, h.c, h.m, k); stable.erase(k); };
    int v = utility("db-sync"); sync_hook = nullptr; if(v) fail("%s: ends with %d", how.c_str(), v); Content got = content(p.e); note_case(how); note_state(vfs.hash("/y"));
    for(auto &k : stable) if(!got.count(k) || got[k] != first[k]) fail("%s: the target holds %s, expected %s=%s", how.c_str(), shown(got).c_str(), k.c_str(), first[k].c_str());
    for(auto &x : got) if(!(p.had.count(x.first) && p.had[x.first] == x.second) && !ever[x.first].count(x.second)) fail("%s: the target holds %s=%s", how.c_str(), x.first.c_str(), esc(x.second).c_str());
}
// ---------------------------------------------------------------- db-replicate: every key set on the source reaches the target
static void replicate_run(Pair &p, int rounds, int racing) {
    Hist &h = p.h; slice_every = choose(3, "slice"); str how = h.trace + fmt("slices %d; db-replicate;", slice_every); std::set<str> late, gone; bool answered = false, set = false; std::map<str, std::set<str>> ever; for(auto &x : of(h)) ever[x.first].insert(x.second);
    auto act = [&](int op) { advance(1000000); str k = op == 0 ? "new" : op == 1 ? str("\0n", 2) : fmt("k%d", op - 2); if(op == 4) { k = "k1"; how += " DEL k1"; user_del(h.d, h.c, h.m, k); gone.insert(k); } else { str v = fmt("value %zu", how.size()); how += " SET " + esc(k); user_set(h.d, h.c, h.m, k, v); ever[k].insert(v); gone.erase(k); } return k; };
    auto compare = [&](const char *when) {
        Content got = content(p.e), want = of(h); note_state(vfs.hash("/y")); for(auto &x : got) if(!(p.had.count(x.first) && p.had[x.first] == x.second) && !ever[x.first].count(x.second)) fail("%s %s: the target holds %s=%s", how.c_str(), when, esc(x.first).c_str(), esc(x.second).c_str());
        for(auto &x : want) if(!late.count(x.first) && (!got.count(x.first) || got[x.first] != x.second)) fail("%s %s: the target holds %s, expected %s=%s", how.c_str(), when, shown(got).c_str(), esc(x.first).c_str(), esc(x.second).c_str());
    };
    // it waits: everything set before the end of its former wait has been copied
    stuck_hook = [&](Link &l) {
        compare("waiting"); if(!rounds--) inst_leave(0); late.clear(); int op = choose(6, "event"); how += ";";
        if(op == 5) { how += " timeout"; advance(5100000); h.d.tick(2); } else { int more = racing ? choose(2, "burst") : 0; if(op == 4 && !more) { act(4); how += " timeout"; advance(5100000); h.d.tick(2); return; } act(op); if(more) act(0); } };
    sync_hook = [&](Link &l, const str &b) { if(!racing || l.d != &h.d || b.find("WAIT") != str::npos) return; int op = choose(5, "meanwhile"); if(!op) return; racing--; how += fmt(" (meanwhile, %s)", b.empty() ? "reply" : esc(b, 30).c_str()); late.insert(act(op - 1)); };
    int v = utility("db-replicate"); stuck_hook = nullptr; sync_hook = nullptr; if(v) fail("%s: ends with %d", how.c_str(), v); if(rounds >= 0) fail("%s: db-replicate ends", how.c_str()); note_case(how); h.verify(V_GET);
}
SUITE(replicate_user) { Pair p; p.h.start(); int n = tier_pick(3, 4); p.h.keys = {"k0", "k1"}; for(int i = 0; i < n; i++) p.h.step(); p.target({}, {{"other", "kept"}, {"k0", "former"}}); replicate_run(p, tier_pick(2, 3), 0); }
SUITE(replicate_race) { Pair p; Hist &h = p.h; int n = choose(tier_pick(2, 3), "keys"); h.start(); h.trace = fmt("%d keys; ", n * 3); for(int i = 0; i < n * 3; i++) user_set(h.d, h.c, h.m, fmt("k%d", i), fmt("first %d", i)); p.target({}, {}); replicate_run(p, tier_pick(2, 3), tier_pick(1, 2)); }
// a sequential source: new entries are copied; an update of the last known one does not stop the replication
SUITE(replicate_seq) {
    Pair p; Hist &h = p.h; h.seq = true; h.start(); int n = choose(4, "entries"), rounds = tier_pick(4, 5); for(int i = 0; i < n; i++) { seq_insert(h.d, h.c, h.q, fmt("first %d", i)); h.given.push_back(h.q.last); } if(n > 1 && choose(2, "deleted")) seq_del(h.d, h.c, h.q, h.given[0]);
    p.target({}, {}); slice_every = choose(3, "slice"); str how = fmt("%d entries; slices %d; db-replicate;", n, slice_every); std::map<str, std::set<str>> ever; for(auto &x : of(h)) ever[x.first].insert(x.second);
    stuck_hook = [&](Link &l) {
        Content got = content(p.e), want = of(h); for(auto &x : got) if(!ever[x.first].count(x.second)) fail("%s: the target holds %s=%s", how.c_str(), esc(x.first).c_str(), esc(x.second).c_str());
        for(auto &x : want) if(!got.count(x.first)) fail("%s: the target holds %s, %s is missing", how.c_str(), shown(got).c_str(), esc(x.first).c_str()); note_state(vfs.hash("/y"));
        if(!rounds--) inst_leave(0); int op = choose(h.given.size() ? 4 : 2, "event"); advance(1000000); str v = fmt("value %d", rounds);
        if(op == 0) { how += " INSERT;"; seq_insert(h.d, h.c, h.q, v); h.given.push_back(h.q.last); ever[le64(h.q.last)].insert(v); } else if(op == 1) { how += " timeout;"; advance(5100000); h.d.tick(2); }
        else { uint64_t id = op == 2 ? h.given.back() : h.given[0]; how += fmt(" UPDATE %s;", op == 2 ? "last" : "first"); bool live = h.q.live.count(id); seq_update(h.d, h.c, h.q, id, v); if(live) ever[le64(id)].insert(v); else { advance(5100000); h.d.tick(2); } } };
    int v = utility("db-replicate"); stuck_hook = nullptr; if(v) fail("%s: ends with %d", how.c_str(), v); if(rounds >= 0) fail("%s: db-replicate ends", how.c_str()); note_case(how);
}
// something fails on the way: db-replicate ends with a failure, or everything is there once it waits again
SUITE(replicate_fault) {
    Pair p; Hist &h = p.h; four(p); p.target({}, {{"k2", "former"}}); slice_every = choose(3, "slice"); bool target = choose(2, "side"); int kind = choose(3, "fault"), at = choose(150, "point"), n = 0, rounds = 1, waits = -1; bool hit = false; str what;
    if(kind < 2) sys_hook = [&](SysKind k, const str &f, long len) { SysAct a; if(f.substr(0, 3) != (target ? "/y/" : "/z/") || (k != SK_READ && k != SK_WRITE && k != SK_OPEN)) return a; if(n++ == at) { hit = true; what = str(sk_name(k)) + " " + f; if(kind == 0) a.err = EIO; else a.crash = true; } return a; };
    else sync_hook = [&](Link &l, const str &b) { if(l.source == target || b.empty()) return; if(n++ == at) { hit = true; what = esc(b, 40); inst_kill(l.d->in); } };
    std::map<str, std::set<str>> ever; for(auto &x : of(h)) ever[x.first].insert(x.second);
    auto look = [&](bool full) {
        auto s = sys_hook; auto y = sync_hook; sys_hook = nullptr; sync_hook = nullptr; if(!inst_alive(h.d.in)) h.d.boot(); if(!inst_alive(p.e.in)) p.e.boot(); Content got = content(p.e), want = of(h); sys_hook = s; sync_hook = y;
        str how = fmt("%s, fault %d at %d (%s), slices %d", target ? "target" : "source", kind, at, what.c_str(), slice_every); note_case(how); note_state(fnvs(how));
        for(auto &x : got) if(!(p.had.count(x.first) && p.had[x.first] == x.second) && !ever[x.first].count(x.second)) fail("%s: the target holds %s=%s", how.c_str(), esc(x.first).c_str(), esc(x.second, 60).c_str());
        if(full && got != over(p.had, want)) fail("%s: db-replicate goes on, the target holds %s, expected %s", how.c_str(), shown(got).c_str(), shown(over(p.had, want)).c_str()); };
    stuck_hook = [&](Link &l) { if(kind || !hit || waits++ >= 0) look(true); if(!rounds-- || (hit && waits > 0)) inst_leave(77); if(hit) { advance(5100000); h.d.tick(2); rounds++; return; } advance(1000000); auto s = sys_hook; auto y = sync_hook; sys_hook = nullptr; sync_hook = nullptr; for(auto k : {"new", "k1"}) user_set(h.d, h.c, h.m, k, "later"), ever[k].insert("later"); sys_hook = s; sync_hook = y; };
    int v = utility("db-replicate"); sys_hook = nullptr; sync_hook = nullptr; stuck_hook = nullptr; if(!hit) return; if(!v) fail("%s: db-replicate ends with success", what.c_str()); if(v != 77) look(false);
}
