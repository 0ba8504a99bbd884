// the wire: segmentation (P16), hostile input (P17), slow readers (P18), WAIT (P19)
#include "world.h"
struct Req { str bytes; str want; bool prefix = false; };     // want: exact reply bytes, or its beginning for errors
static Req R(const strs &a, const str &want) { return {resp_cmd(a), want, false}; }
static Req E(const strs &a) { return {resp_cmd(a), "-", true}; }
static str bulk(const str &s) { return fmt("$%zu\r\n", s.size()) + s + "\r\n"; }
static const str NIL = "$-1\r\n", OK = "+OK\r\n";
static str join(const std::vector<Req> &v) { str s; for(auto &r : v) s += r.bytes; return s; }
// the reply stream must consist of exactly these replies, in order
static void expect(const str &got, const std::vector<Req> &v, const str &how) {
    size_t p = 0; int k = 0;
    for(auto &r : v) {
        k++;
        if(!r.prefix) { if(got.compare(p, r.want.size(), r.want) != 0) fail("%s: reply %d of %zu is \"%s\" instead of \"%s\"", how.c_str(), k, v.size(), esc(got.substr(p, r.want.size() + 40), 160).c_str(), esc(r.want, 160).c_str()); p += r.want.size(); }
        else { size_t e = got.find("\r\n", p); if(e == str::npos || got[p] != '-') fail("%s: reply %d of %zu is \"%s\" instead of one error", how.c_str(), k, v.size(), esc(got.substr(p, 80), 160).c_str()); p = e + 2; }
    }
    if(p != got.size()) fail("%s: %zu bytes follow the last of %zu replies: \"%s\"", how.c_str(), got.size() - p, v.size(), esc(got.substr(p), 160).c_str());
}
static std::vector<Req> stream(int i) {
    str bin = str("\r\n*1\r\n$4\r\nPING\r\n\0\xff$", 21);
    switch(i) {
        case 0: return {R({"PING"}, "+PONG\r\n"), R({"SET", "k", "v1"}, bulk("k")), R({"GET", "k"}, bulk("v1")), R({"DEL", "k"}, OK), R({"GET", "k"}, NIL)};
        case 1: return {R({"SET", "bin", bin}, bulk("bin")), R({"GET", "bin"}, bulk(bin)), R({"SET", bin, ""}, bulk(bin)), R({"GET", bin}, bulk("")), R({"LENGTH", "bin"}, ":21\r\n")};
        case 2: return {E({"NOPE", "x"}), E({"SET", "only-key"}), R({"SET", "a", "1"}, bulk("a")), E({"DEL", "missing"}), R({"MGET", "a", "b"}, "*2\r\n" + bulk("1") + NIL), E({""}), R({"EXISTS", "a"}, ":1\r\n")};
        case 3: return {R({"set", "k", "0123456789"}, bulk("k")), R({"Set", "k", "0123456789"}, NIL), R({"get", "k"}, bulk("0123456789")), R({"DbSize"}, ":1\r\n"), R({"SET", "", "x"}, "-"), R({"PING"}, "+PONG\r\n")};
        case 4: return {R({"NSNEW", "n"}, OK), R({"SELECT", "n"}, OK), R({"SET", "k", "in-n"}, bulk("k")), R({"SELECT", "default"}, OK), R({"EXISTS", "k"}, ":0\r\n"), E({"SELECT", "missing"}), R({"SELECT", "n"}, OK), R({"GET", "k"}, bulk("in-n"))};
    }
    return {};
}
static std::vector<Req> fixup(std::vector<Req> v) { for(auto &r : v) if(r.want == "-") r.prefix = true; return v; }
static void finish(Daemon &d, int c, const std::vector<Req> &v, const str &how, str got) {
    d.tick(2); got += d.take(c); expect(got, v, how);
    Reply r = d.cmd(c, {"PING"}); if(!(r.t == '+' && r.s == "PONG")) fail("%s: PING after the stream answers %s", how.c_str(), r.show().c_str());
    int o = d.conn(); r = d.cmd(o, {"PING"}); if(!(r.t == '+')) fail("%s: another connection is not served", how.c_str());
}
// every way of cutting the stream into three (thorough: four) chunks
SUITE(seg_cuts) {
    Daemon d; d.boot(); int i = choose(5, "stream"); auto v = fixup(stream(i)); str s = join(v); int c = d.conn(); str how = fmt("stream %d cut at", i);
    int parts = (thorough() && i < 3) ? 4 : 3; size_t from = 0; str got;
    for(int k = 1; k < parts && from + 1 < s.size(); k++) { size_t n = 1 + choose(s.size() - from, "cut"); how += fmt(" %zu", from + n); d.push(c, s.substr(from, n)); d.run(); note_transition(); got += d.take(c); from += n; if(from >= s.size()) break; }
    if(from < s.size()) { d.push(c, s.substr(from)); d.run(); note_transition(); got += d.take(c); }
    finish(d, c, v, how, got); note_state(fnvs(how)); note_case(how);
}
// byte after byte, and pairs of bytes
SUITE(seg_bytes) {
    Daemon d; d.boot(); int i = choose(5, "stream"), n = 1 + choose(tier_pick(40, 120), "size"); auto v = fixup(stream(i)); str s = join(v), got; int c = d.conn();
    for(size_t p = 0; p < s.size(); p += n) { d.push(c, s.substr(p, n)); d.run(); note_transition(); got += d.take(c); }
    finish(d, c, v, fmt("stream %d in chunks of %d bytes", i, n), got); note_case(fmt("stream %d chunks of %d", i, n));
}
// data arriving while the daemon reads: at each of its recv calls
SUITE(seg_race) {
    Daemon d; d.boot(); int i = choose(5, "stream"); auto v = fixup(stream(i)); str s = join(v); int c = d.conn(); size_t cut = 1 + choose(s.size() - 1, "cut"); int at = choose(4, "arrival"), count = 0; bool sent = false;
    size_t cut2 = choose(2, "third") ? std::min(s.size(), cut + 1 + choose(12, "cut2") * 3) : s.size();
    recv_hook = [&](VSock &k) { if(k.id != c || sent) return; if(count++ == at) { sent = true; k.rx += s.substr(cut, cut2 - cut); sock_push(d.in, c, ""); } };
    d.push(c, s.substr(0, cut)); d.run(); str got = d.take(c); recv_hook = nullptr; if(!sent) { d.push(c, s.substr(cut, cut2 - cut)); d.run(); got += d.take(c); } if(cut2 < s.size()) { d.push(c, s.substr(cut2)); d.run(); got += d.take(c); } note_transition(3);
    finish(d, c, v, fmt("stream %d, bytes after %zu (up to %zu) arriving at recv call %d", i, cut, cut2, at), got); note_case(fmt("stream %d %zu %d", i, cut, at));
}
// requests ending, and chunks cut, around multiples of the receive buffer
static str pattern(size_t n, int seed) { str s(n, 0); uint32_t x = seed * 2654435761u + 12345; for(size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; s[i] = x >> 24; } return s; }
SUITE(seg_bounds) {
    Daemon d; d.boot(); int c = d.conn(); int blocks = 1 + choose(tier_pick(2, 3), "blocks"); std::vector<Req> v; size_t B = 8192; int pre = choose(3, "prefix"); if(pre == 1) v.push_back(R({"PING"}, "+PONG\r\n")); if(pre == 2) { v.push_back(R({"SET", "p", pattern(100, 7)}, bulk("p"))); v.push_back(R({"GET", "p"}, bulk(pattern(100, 7)))); }
    int delta = choose(tier_pick(90, 130), "size"); size_t base = B * blocks + 10 - join(v).size(); str val = pattern(base - delta, 3); v.push_back(R({"SET", "k", val}, bulk("k"))); v.push_back(R({"GET", "k"}, bulk(val))); v.push_back(R({"PING"}, "+PONG\r\n"));
    str s = join(v); long cuts[] = {(long) s.size(), (long) B - 1, (long) B, (long) B + 1, 2 * (long) B - 1, 2 * (long) B, 2 * (long) B + 1, (long) s.size() - 1, (long) s.size() - 14, (long) s.size() - 15, (long) s.size() - 13, (long) s.size() - 30, 1, 20, 4000}; int k = choose(15, "cut"); long cut = std::min<long>(cuts[k], s.size());
    bool together = choose(2, "second chunk during recv"); str got; int n = 0;
    if(together) recv_hook = [&](VSock &x) { if(x.id == c && n++ == 1 && cut < (long) s.size()) { x.rx += s.substr(cut); sock_push(d.in, c, ""); } };
    d.push(c, s.substr(0, cut)); d.run(); got = d.take(c); recv_hook = nullptr; if(cut < (long) s.size() && !(together && n >= 2)) { d.push(c, s.substr(cut)); d.run(); got += d.take(c); }
    note_transition(2); finish(d, c, v, fmt("%zu byte value, prefix %d, cut at %ld, %s", val.size(), pre, cut, together ? "second chunk during the read" : "separate chunks"), got); note_state(fnvs(val) + cut * 3 + together); note_case(fmt("%zu byte value prefix %d cut %ld", val.size(), pre, cut));
}
// long pipelines of small requests, at every alignment to the receive buffer
SUITE(seg_pipeline) {
    Daemon d; d.boot(); int c = d.conn(); std::vector<Req> v; int align = choose(tier_pick(64, 200), "align"), kind = choose(3, "kind"); v.push_back(R({"SET", "first", str(align, 'f')}, bulk("first")));
    int count = kind == 0 ? 1300 : 500; for(int i = 0; i < count; i++) { if(kind == 0) v.push_back(R({"PING"}, "+PONG\r\n")); else if(kind == 1) { str k = fmt("key%d", i % 50), x = fmt("value-%d", i); v.push_back(R({"SET", k, x}, bulk(k))); if(i % 3 == 0) v.push_back(R({"GET", k}, bulk(x))); } else v.push_back(i % 2 ? E({"DEL", "missing"}) : R({"GET", "first"}, bulk(str(align, 'f')))); }
    str s = join(v), got; int mode = choose(4, "chunks"); size_t sz = mode == 0 ? s.size() : mode == 1 ? 8192 : mode == 2 ? 8191 : 4097; for(size_t p = 0; p < s.size(); p += sz) { d.push(c, s.substr(p, sz)); d.run(); note_transition(); got += d.take(c); }
    finish(d, c, v, fmt("%zu pipelined requests (kind %d), aligned at %d, chunks of %zu", v.size(), kind, align, sz), got); note_case(fmt("pipeline kind %d align %d chunks %zu", kind, align, sz));
}
// two connections whose chunks interleave in every order
SUITE(seg_two) {
    Daemon d; d.boot(); int c[2] = {d.conn(), d.conn()}; std::vector<Req> v[2]; v[0] = {R({"SET", "a", "from-0"}, bulk("a")), R({"GET", "a"}, bulk("from-0"))}; v[1] = {R({"SET", "b", str("x\r\ny", 4)}, bulk("b")), R({"MGET", "b"}, "*1\r\n" + bulk(str("x\r\ny", 4)))};
    str s[2] = {join(v[0]), join(v[1])}, got[2]; int step = tier_pick(3, 1); size_t cut[2]; for(int i = 0; i < 2; i++) cut[i] = 1 + step * choose((s[i].size() - 1) / step, "cut"); int pos[2] = {0, 0}; str how = fmt("cuts %zu/%zu order", cut[0], cut[1]); bool batch = choose(2, "same wakeup");
    for(int k = 0; k < 4; k++) { int w = pos[0] == 2 ? 1 : pos[1] == 2 ? 0 : choose(2, "who"); how += fmt(" %d", w); d.push(c[w], pos[w]++ == 0 ? s[w].substr(0, cut[w]) : s[w].substr(cut[w])); note_transition(); if(!batch || k % 2) { d.run(); got[0] += d.take(c[0]); got[1] += d.take(c[1]); } }
    for(int i = 0; i < 2; i++) finish(d, c[i], v[i], how, got[i]); note_case(how);
}
// big payloads
SUITE(seg_big) {
    Daemon d; stall_limit = 5000000; d.boot(); int c = d.conn(); size_t M = 8 * 1024 * 1024; size_t sizes[] = {M, M - 1, M - 2, 65536, 1000000, M / 2}; size_t n = sizes[choose(tier_pick(4, 6), "size")]; str val = pattern(n, 5); std::vector<Req> v{R({"SET", "big", val}, bulk("big")), R({"GET", "big"}, bulk(val)), R({"LENGTH", "big"}, fmt(":%zu\r\n", n)), R({"CHECK", "big"}, ":1\r\n")};
    str s = join(v), got; size_t chunks[] = {s.size(), 65536, 8192, 8191, 100003}; size_t sz = chunks[choose(5, "chunks")]; for(size_t p = 0; p < s.size(); p += sz) { d.push(c, s.substr(p, sz)); d.run(); got += d.take(c); note_transition(); }
    finish(d, c, v, fmt("value of %zu bytes in chunks of %zu", n, sz), got); note_case(fmt("value of %zu bytes in chunks of %zu", n, sz));
}

// ---------------------------------------------------------------- P17
struct Guard {                                          // known data, watched from another connection
    Daemon d; int obs = -1; std::map<str, str> kv{{"g1", "guarded-1"}, {"g2", str("\0\r\n", 3)}}; bool seq = false; str id;
    void boot(strs extra = {}) { d.extra = extra; d.boot(); obs = d.conn(); if(!seq) for(auto &k : kv) CHECK(d.cmd(obs, {"SET", k.first, k.second}).bulk(k.first), "SET"); else { Reply r = d.cmd(obs, {"SET", "", "guarded"}); id = r.s; } }
    void look(const str &how) { try { look_(how); } catch(Exited &e) { fail("%s: the daemon exits (%d)", how.c_str(), e.code); } }
    void look_(const str &how) {
        if(seq) { Reply r = d.cmd(obs, {"GET", id}); if(!r.bulk("guarded")) fail("%s: another connection reads %s", how.c_str(), r.show().c_str()); return; }
        for(auto &k : kv) { Reply r = d.cmd(obs, {"GET", k.first}); if(!r.bulk(k.second)) fail("%s: another connection reads %s for %s", how.c_str(), r.show().c_str(), k.first.c_str()); }
    }
    // push bytes, daemon must come back; returns what was sent
    str feed(int c, const str &b, const str &how) { try { d.push(c, b); d.run(); } catch(Exited &e) { fail("%s: the daemon exits (%d)", how.c_str(), e.code); } catch(Crashed &) { fail("%s: the daemon dies", how.c_str()); } note_transition(); return d.take(c); }
};
static void well_formed(const str &out, const str &how) { size_t p = 0; bool bad = false; Reply r; while(p < out.size()) if(!resp_parse(out, p, r, &bad)) fail("%s: malformed reply \"%s\"", how.c_str(), esc(out, 200).c_str()); }
static void end_input(Guard &g, int c, const str &how, str out, bool every_end = true) {
    well_formed(out, how); bool closed = g.d.closed(c);
    if(!closed) { int e = every_end ? choose(3, "end") : fnvs(how) % 3; try { if(e == 0) g.d.tick(1); else { sock_close(g.d.in, c, e == 2); g.d.run(); } } catch(Exited &x) { fail("%s: the daemon exits (%d)", how.c_str(), x.code); } }
    g.look(how); int n = g.d.conn(); Reply r = g.d.cmd(n, {"PING"}); if(!(r.t == '+' && r.s == "PONG")) fail("%s: a new connection gets %s", how.c_str(), r.show().c_str()); note_case(how); note_state(fnvs(how));
}
// every sequence of protocol tokens
SUITE(fuzz_tokens) {
    Guard g; g.boot(); int c = g.d.conn(); strs tok{"*", "$", "\r\n", "1", "3", "-", "GET", "g1", "99999999999", "0", "\n", str(1, '\0'), "SET", ":"}; bool split = choose(2, "chunks"); str in, out; int n = tier_pick(3, 4);
    strs start{"", "*1\r\n", "*3\r\n$3\r\nSET\r\n$2\r\n", "*2\r\n$3\r\nGET\r\n"}; in = start[choose(start.size(), "start")]; if(split && in.size()) out += g.feed(c, in, in);
    for(int i = 0; i < n; i++) { str t = tok[choose(tok.size(), "token")]; in += t; if(split) { out += g.feed(c, t, "input \"" + esc(in, 200) + "\" token by token"); if(g.d.closed(c)) break; } }
    if(!split) out += g.feed(c, in, "input \"" + esc(in, 200) + "\"");
    str how = "input \"" + esc(in, 200) + "\""; g.kv.erase("g1"); end_input(g, c, how, out, false);
}
// every command with every combination of arguments
static const strs COMMANDS{"*", "WAIT", "MIRROR", "MASTER", "PING", "TIME", "AUTH", "HOOKS", "INDEX", "DATA", "SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK", "SCAN", "SCANX", "RSCAN", "KSCAN", "HISTORY", "KEYCUR", "LENGTH", "KEYTIME", "INFO", "DBSIZE", "NSNEW", "NSDEL", "NSLIST", "NSSET", "NSINFO", "NSJUMP", "SELECT", "RELOAD", "FLUSH", "UNKNOWN", ""};
static strs arguments(bool seq) { return {"", "x", "0", "1", "-1", "99999999999999999999", "default", "N", str(300, 'A'), str(16, '\xff'), str(64, '7'), seq ? str(8, '\0') : str("h1"), "RAW", "*"}; }
static void fuzz_args(int mode) {
    Guard g; g.seq = mode == 1; g.boot(g.seq ? strs{"--mode", "seq", "--admin", "root"} : strs{"--admin", "root"}); int c = g.d.conn(); g.d.cmd(c, {"AUTH", "root"}); CHECK(g.d.cmd(g.obs, {"AUTH", "root"}).ok(), "AUTH"); g.d.cmd(g.obs, {"NSNEW", "N"}); if(!g.seq) { g.d.cmd(g.obs, {"SET", "h1", "one"}); g.d.cmd(g.obs, {"SET", "h1", "two"}); g.d.cmd(g.obs, {"SET", "h1", "three"}); }
    int st = choose(tier_pick(3, 5), "state"); if(st == 1) g.d.cmd(c, {"SELECT", "N"}); if(st == 2) { g.d.cmd(c, {"NSJUMP"}); } if(st == 3) { g.d.cmd(c, {"SELECT", "N"}); CHECK(g.d.cmd(g.obs, {"NSDEL", "N"}).ok(), "NSDEL"); } if(st == 4) { g.d.cmd(c, {"MASTER"}); }
    strs alpha = arguments(g.seq); int cmd = choose(COMMANDS.size(), "command"); strs a{COMMANDS[cmd]}; int max = st == 0 ? tier_pick(3, 4) : tier_pick(2, 3); int n = choose(max + 1, "argc"); if(n == max && max >= 3) alpha = {"", "1", "-1", "N", str(16, '\xff'), "default", g.seq ? str(8, '\0') : str("h1"), "RAW"};
    for(int i = 0; i < n; i++) a.push_back(alpha[choose(alpha.size(), "arg")]);
    str how; for(auto &x : a) how += (how.empty() ? "" : " ") + (x.empty() ? str("''") : esc(x, 20)); how = fmt("state %d: ", st) + how; auto before = vfs.snapshot("/z/data"); auto bi = vfs.snapshot("/z/index"); str out = g.feed(c, resp_cmd(a), how);
    size_t p = 0; Reply r; bool bad = false; bool wait = a[0] == "WAIT" && out.empty(); if(!wait && !g.d.closed(c) && out.empty()) fail("%s: no reply and the connection stays open", how.c_str());
    well_formed(out, how); if(out.size() && resp_parse(out, p, r, &bad)) { if(p != out.size()) fail("%s: more than one reply: \"%s\"", how.c_str(), esc(out, 200).c_str()); if(r.err() && (before != vfs.snapshot("/z/data") || bi != vfs.snapshot("/z/index"))) fail("%s: answered with an error (%s) but the stored files changed", how.c_str(), r.show().c_str()); }
    // the connection goes on working
    if(a[0] != "MIRROR" && a[0] != "MASTER" && st != 4 && st != 3 && !wait) { if(g.d.closed(c)) fail("%s: the connection was closed on a well-formed request", how.c_str()); r = g.d.cmd(c, {"PING"}); if(r.t != '+') fail("%s: then PING answers %s", how.c_str(), r.show().c_str()); }
    if(st == 2 || st == 0) { if(a[0] == "FLUSH" || a[0] == "DEL" || a[0] == "SELECT") {} }
    if(g.seq && (a[0] == "SET" || a[0] == "SETX" || a[0] == "DEL") && a.size() > 1 && a[1] == str(8, '\0')) { note_case(how); return; }
    if(a[0] == "NSSET") g.d.cmd(g.obs, {"NSSET", "default", "lock", "0"});
    end_input(g, c, how, "", false);
}
SUITE(fuzz_args_user) { fuzz_args(0); }
SUITE(fuzz_args_seq) { fuzz_args(1); }
// every length around a limit, at every argument position of every command
SUITE(fuzz_lengths) {
    Guard g; int mode = choose(2, "mode"); g.seq = mode == 1; g.boot(g.seq ? strs{"--mode", "seq", "--admin", "root"} : strs{"--admin", "root"}); int c = g.d.conn(); g.d.cmd(c, {"AUTH", "root"}); g.d.cmd(g.obs, {"AUTH", "root"}); g.d.cmd(g.obs, {"NSNEW", "N"}); g.d.cmd(g.obs, {"NSSET", "N", "password", str(63, 'p')});
    static const int lens[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 41, 62, 63, 64, 65, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193, 65535, 65536};
    static const std::vector<strs> rest{{"x", "x", "x"}, {"N", "password", "x"}, {"RAW", "0", "26"}, {"DIRTY", "RESET", "x"}, {"SECURE", "N", "x"}, {"N", "SECURE", "x"}};
    int cmd = choose(COMMANDS.size(), "command"); auto &f = rest[choose(tier_pick(4, 6), "others")]; int n = 1 + choose(tier_pick(3, 4), "argc"), at = choose(n, "position"); int len = lens[choose(sizeof lens / sizeof *lens, "length")]; strs a{COMMANDS[cmd]}; for(int i = 0; i < n; i++) a.push_back(i < 3 ? f[i] : str("x")); a[1 + at] = str(len, (thorough() ? choose(2, "byte") : len & 1) ? '1' : 'A');
    str how = g.seq ? "seq:" : ""; for(auto &x : a) how += " " + (x.size() > 10 ? fmt("%c*%zu", x[0], x.size()) : x); if(g.seq && (a[0] == "SET" || a[0] == "SETX")) return;
    str out = g.feed(c, resp_cmd(a), how); bool wait = a[0] == "WAIT" && out.empty(); if(!wait && !g.d.closed(c) && out.empty()) fail("%s: no reply and the connection stays open", how.c_str()); well_formed(out, how);
    if(a[0] == "NSSET") g.d.cmd(g.obs, {"NSSET", "default", "lock", "0"}); end_input(g, c, how, "", false); note_case(how);
}
// every one-byte change, removal, repetition and truncation of valid requests
SUITE(fuzz_mutate) {
    Guard g; g.boot(); int c = g.d.conn(); std::vector<strs> base{{"SET", "mk", "mutated"}, {"GET", "g2"}, {"MGET", "a", "b", "c"}, {"NSNEW", "M"}, {"NSSET", "default", "lock", "0"}, {"SCAN"}, {"HISTORY", "g1"}, {"DATA", "RAW", "0", "26"}, {"WAIT", "SET", "200"}, {"AUTH", "SECURE", "CHALLENGE"}}; auto &b = base[choose(base.size(), "request")]; str s = resp_cmd(b) + (choose(2, "followed") ? resp_cmd({"PING"}) : "");
    int kind = choose(5, "kind"); size_t p = choose(s.size(), "position"); str how; static const str repl = str("\0\r\n*$-0129:a\xff ", 14);
    if(kind == 0) { char ch = repl[choose(repl.size(), "byte")]; how = fmt("byte %zu -> ", p) + esc(str(1, ch)); s[p] = ch; } else if(kind == 1) { how = fmt("byte %zu removed", p); s.erase(p, 1); } else if(kind == 2) { how = fmt("byte %zu doubled", p); s.insert(p, 1, s[p]); } else if(kind == 3) { how = fmt("cut at %zu", p); s.resize(p); } else { how = fmt("'9' inserted at %zu", p); s.insert(p, "9"); }
    how = b[0] + ", " + how; str out; int cut = choose(2, "chunks"); if(cut && s.size() > 2) { out = g.feed(c, s.substr(0, s.size() / 2), how); if(!g.d.closed(c)) out += g.feed(c, s.substr(s.size() / 2), how); } else out = g.feed(c, s, how); end_input(g, c, how, out, false);
}
// cursors and file references chosen by the client
SUITE(fuzz_cursor) {
    Guard g; g.boot(); int c = g.d.conn(); g.d.cmd(g.obs, {"SET", "h1", "one"}); g.d.cmd(g.obs, {"NSJUMP"}); g.d.cmd(g.obs, {"SET", "h1", "two"}); g.d.cmd(g.obs, {"SET", "s1", "x"});
    const char *cm[] = {"SCAN", "RSCAN", "SCANX", "HISTORY", "DATA", "KSCAN", "KEYCUR"}; int k = choose(7, "command"); strs a{cm[k]}; str how;
    if(k == 4) { strs ids{"0", "1", "2", "65535", "65536", "-1", "4294967295", "4294967296", "18446744073709551615", "x", ""}, offs{"0", "1", "25", "26", "27", "40", "52", "70", "100", "120", "1000000", "-1", "9223372036854775807", "18446744073709551615", "x", ""}; a.push_back("RAW"); a.push_back(ids[choose(ids.size(), "file")]); int o = choose(offs.size() + 150, "offset"); a.push_back(o < (int) offs.size() ? offs[o] : fmt("%d", o - (int) offs.size())); }
    else {
        // a real cursor, then changed
        Reply r = g.d.cmd(g.obs, {"SCAN"}); str cur = r.a[0].s; int kind = choose(4, "kind"); if(kind == 0) { size_t p = choose(cur.size(), "position"); static const unsigned char bs[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x20}; cur[p] = bs[choose(7, "byte")]; } else if(kind == 1) cur = cur.substr(0, choose(cur.size(), "length")); else if(kind == 2) cur += str(1 + choose(3, "more"), '\0'); else { unsigned ids[] = {0, 1, 2, 3, 0xffff, 0x7fff}; unsigned offs[] = {0, 1, 26, 27, 28, 60, 61, 100, 0x7fffffff, 0xffffffff}; uint16_t id = ids[choose(6, "file")]; uint32_t of = offs[choose(10, "offset")]; size_t at = choose(cur.size() > 6 ? cur.size() - 5 : 1, "at"); memcpy(&cur[at], &id, 2); if(at + 6 <= cur.size()) memcpy(&cur[at + 2], &of, 4); }
        if(k == 3) { a.push_back("h1"); } a.push_back(cur);
    }
    for(auto &x : a) how += (how.empty() ? "" : " ") + esc(x, 60); str out = g.feed(c, resp_cmd(a), how); if(out.empty() && !g.d.closed(c)) fail("%s: no reply", how.c_str()); if(out.size() && out[0] != '-') { Reply r; size_t p = 0; bool bad = false; if(!resp_parse(out, p, r, &bad)) fail("%s: malformed reply", how.c_str()); if(out.size() > 5000) fail("%s: the reply has %zu bytes", how.c_str(), out.size()); } end_input(g, c, how, out);
}
// disconnection at every point of valid traffic, with a new connection on the same descriptor
SUITE(fuzz_hangup) {
    Guard g; g.boot(); if(choose(2, "tcp")) { g.d.stop(); g.d.tcp = true; vfs.rmtree("/z"); vfs.mkdirs("/z"); g.boot(); } int c = g.d.conn(); auto v = fixup(stream(choose(5, "stream"))); str s = join(v); size_t p = choose(s.size() + 1, "cut"); int how_end = choose(4, "end"); str how = fmt("hang up (%d) after %zu bytes", how_end, p);
    if(how_end == 3) { send_hook = [&](VSock &k, long n) -> long { return k.id == c ? -2 : n; }; }
    try { g.d.push(c, s.substr(0, p)); if(how_end != 2) g.d.run(); sock_close(g.d.in, c, how_end == 1); g.d.run(); } catch(Exited &e) { fail("%s: the daemon exits (%d)", how.c_str(), e.code); } send_hook = nullptr; note_transition(2);
    if(!g.d.closed(c)) { g.d.tick(2); if(!g.d.closed(c)) fail("%s: the connection is not closed", how.c_str()); }
    int n = g.d.conn(); str got; for(auto &r : std::vector<Req>{R({"SET", "after", "x"}, bulk("after")), R({"GET", "after"}, bulk("x"))}) { got = g.feed(n, r.bytes, how); if(got != r.want) fail("%s: the next connection gets \"%s\"", how.c_str(), esc(got).c_str()); }
    g.look(how); note_case(how);
}
// replication source requests (owner id after the command)
SUITE(fuzz_master) {
    Guard g; g.boot(); int c = g.d.conn(); CHECK(g.d.cmd(c, {"MASTER"}).t == '+', "MASTER"); strs alpha{"", "1", "0", "-1", str(32, '9'), str(33, '9'), str(300, 'x'), "SET", "m1", "v"}; int n = 1 + choose(4, "argc"); strs a; for(int i = 0; i < n; i++) a.push_back(i == 0 ? (choose(2, "cmd") ? "SET" : "PING") : alpha[choose(alpha.size(), "arg")]); str how = "after MASTER:"; for(auto &x : a) how += " " + (x.empty() ? str("''") : esc(x, 20)); str out = g.feed(c, resp_cmd(a), how); if(out.empty() && !g.d.closed(c)) fail("%s: neither an answer nor a disconnection", how.c_str()); Reply r; size_t p = 0; bool bad = false; if(out.size() && (!resp_parse(out, p, r, &bad) || p != out.size())) fail("%s: reply \"%s\"", how.c_str(), esc(out).c_str());
    out = g.feed(c, resp_cmd({"PING", "7"}), how); if(!g.d.closed(c) && out != "+PONG\r\n") fail("%s: then PING answers \"%s\"", how.c_str(), esc(out).c_str()); end_input(g, c, how, out);
}

// ---------------------------------------------------------------- P18
static void drain(Daemon &d, int c) { for(int k = 0; k < 400; k++) { size_t n = socks[c]->tx.size(); sock_writable(d.in, c, -1); d.run(); if(socks[c]->tx.size() == n && !socks[c]->was_full) { d.tick(1); if(socks[c]->tx.size() == n) return; } } }
static int budget;
static long accept_some(long n) {                        // how much of n bytes the socket takes now
    if(budget <= 0 || n <= 0) return n;
    int k = choose(n > 2 ? 5 : n > 1 ? 3 : 2, "accept"); if(k == 0) return n; budget--;
    return k == 1 ? 0 : k == 2 ? 1 : k == 3 ? n - 1 : n / 2;
}
static std::vector<Req> slow_reqs() { return {R({"PING"}, "+PONG\r\n"), R({"GET", "v"}, bulk(pattern(50, 1))), R({"MGET", "v", "none", "w"}, "*3\r\n" + bulk(pattern(50, 1)) + NIL + bulk("")), E({"GET"}), R({"SET", "v", pattern(50, 1)}, NIL), R({"EXISTS", "w"}, ":1\r\n"), R({"DBSIZE"}, ":2\r\n")}; }
SUITE(slow_reader) {
    Daemon d; d.boot(); int s = d.conn(); d.cmd(s, {"SET", "v", pattern(50, 1)}); d.cmd(s, {"SET", "w", ""}); int c = d.conn(); auto reqs = slow_reqs(); std::vector<Req> sent; str how; budget = param("budget", tier_pick(2, 3));
    send_hook = [&](VSock &k, long n) -> long { if(k.id != c) return n; long r = accept_some(n); if(r < n) how += fmt(" (%ld of %ld bytes accepted)", r, n); return r; };
    int depth = tier_pick(3, 3);
    for(int i = 0; i < depth; i++) {
        int o = choose(reqs.size(), "request"); sent.push_back(reqs[o]); how += " " + esc(reqs[o].bytes.substr(0, 14), 14); d.push(c, reqs[o].bytes); d.run(); note_transition();
        if(socks[c]->was_full && choose(2, "writable")) { how += " writable"; sock_writable(d.in, c, -1); d.run(); }
    }
    budget = 0; drain(d, c); send_hook = nullptr; str got = d.take(c); expect(got, sent, how); Reply r = d.cmd(c, {"PING"}); CHECK(r.t == '+', "%s: then PING answers %s", how.c_str(), r.show().c_str()); note_state(fnvs(how)); note_case(how);
}
// pipelined requests in one chunk, every short pattern of partial writes
SUITE(slow_pipeline) {
    Daemon d; d.boot(); int s = d.conn(); d.cmd(s, {"SET", "v", pattern(50, 1)}); d.cmd(s, {"SET", "w", ""}); int c = d.conn(); auto reqs = slow_reqs(); std::vector<Req> sent; for(int i = 0; i < 5; i++) sent.push_back(reqs[(i * 3 + 1) % 7]); str how = "pipeline:"; budget = param("budget", tier_pick(4, 6));
    send_hook = [&](VSock &k, long n) -> long { if(k.id != c) return n; long r = accept_some(n); how += fmt(" %ld/%ld", r, n); return r; };
    d.push(c, join(sent)); d.run(); for(int k = 0; k < 12 && socks[c]->was_full; k++) { sock_writable(d.in, c, -1); d.run(); note_transition(); } budget = 0; drain(d, c); send_hook = nullptr; expect(d.take(c), sent, how); note_state(fnvs(how)); note_case(how);
}
// a fixed acceptance per writable event, for every amount, on big replies
SUITE(slow_trickle) {
    Daemon d; d.boot(); int s = d.conn(); int kind = choose(3, "kind"); size_t n = kind == 0 ? 300 : kind == 1 ? 9000 : 70000; str val = pattern(n, 9); d.cmd(s, {"SET", "v", val}); d.cmd(s, {"SET", "w", ""}); int c = d.conn(); long step = kind == 0 ? 1 + choose(120, "step") : kind == 1 ? 64 + 97 * choose(60, "step") : 1000 + 1313 * choose(40, "step");
    std::vector<Req> v{R({"GET", "v"}, bulk(val)), R({"PING"}, "+PONG\r\n"), R({"MGET", "v", "v", "w"}, "*3\r\n" + bulk(val) + bulk(val) + bulk("")), E({"NOPE"}), R({"GET", "w"}, bulk(""))}; bool pipe = choose(2, "pipelined"); socks[c]->sndcap = step; str how = fmt("%ld bytes accepted per writable event, %s", step, pipe ? "pipelined" : "one by one");
    if(pipe) { d.push(c, join(v)); d.run(); } else for(auto &r : v) { d.push(c, r.bytes); d.run(); if(choose(2, "writable")) { sock_writable(d.in, c, step); d.run(); } }
    for(int k = 0; k < 100000 && socks[c]->was_full; k++) { sock_writable(d.in, c, step); d.run(); note_transition(); } if(socks[c]->was_full) fail("%s: never finished", how.c_str()); sock_writable(d.in, c, -1); d.run(); expect(d.take(c), v, how); note_case(how); note_state(fnvs(how));
}
// two slow connections and disconnections with replies pending; the descriptors are reused
SUITE(slow_two) {
    Daemon d; d.boot(); int s = d.conn(); d.cmd(s, {"SET", "v", pattern(50, 1)}); d.cmd(s, {"SET", "w", ""}); int c[2] = {d.conn(), d.conn()}; auto reqs = slow_reqs(); std::vector<Req> sent[2]; str how; budget = param("budget", tier_pick(1, 2)); bool gone[2] = {false, false}; std::vector<int> fresh;
    send_hook = [&](VSock &k, long n) -> long { if(k.id != c[0] && k.id != c[1]) return n; long r = accept_some(n); if(r < n) how += fmt(" (%ld/%ld)", r, n); return r; };
    for(int i = 0; i < param("acts", tier_pick(4, 4)); i++) {
        std::vector<int> acts; for(int w = 0; w < 2; w++) if(!gone[w]) { acts.push_back(w); acts.push_back(2 + w); if(socks[c[w]]->was_full) acts.push_back(4 + w); acts.push_back(6 + w); } if(acts.empty()) break;
        int a = acts[choose(acts.size(), "act")], w = a % 2; note_transition();
        if(a < 4) { const Req &r = reqs[a < 2 ? 1 : 2]; sent[w].push_back(r); how += fmt(" [%d]%s", w, a < 2 ? "GET" : "MGET"); d.push(c[w], r.bytes); d.run(); }
        else if(a < 6) { how += fmt(" [%d]writable", w); sock_writable(d.in, c[w], -1); d.run(); }
        else { how += fmt(" [%d]hangup", w); gone[w] = true; sock_close(d.in, c[w], choose(2, "reset")); d.run(); int n = d.conn(); fresh.push_back(n); d.push(n, reqs[1].bytes); d.run(); str g = d.take(n); if(g != reqs[1].want) fail("%s: a new connection gets \"%s\"", how.c_str(), esc(g).c_str()); }
    }
    budget = 0; for(int w = 0; w < 2; w++) if(!gone[w]) { drain(d, c[w]); expect(d.take(c[w]), sent[w], how + fmt(" connection %d", w)); } for(int n : fresh) { d.tick(1); if(d.take(n).size()) fail("%s: stale bytes on a new connection", how.c_str()); }
    send_hook = nullptr; Reply r = d.cmd(s, {"GET", "v"}); CHECK(r.bulk(pattern(50, 1)), "%s: another connection reads %s", how.c_str(), r.show().c_str()); note_state(fnvs(how)); note_case(how);
}

// ---------------------------------------------------------------- P19
struct Waiter { bool waiting = false; str cmd; str ns; int64_t t0 = 0; long ms = 0; bool detached = false; };
static void wait_model(int conns, std::vector<std::pair<int, strs>> ops, int depth, bool del) {
    Daemon d; d.boot(); std::vector<int> c; std::vector<str> ns(conns, "default"); std::vector<Waiter> w(conns); std::vector<bool> gone(conns, false), det(conns, false); for(int i = 0; i < conns; i++) c.push_back(d.conn()); d.cmd(c[0], {"NSNEW", "N"}); str how; bool exists = true;
    auto check_idle = [&](bool must) { for(int i = 0; i < conns; i++) { if(gone[i]) continue; str o = d.take(c[i]); if(o.empty()) { if(w[i].waiting && must && clock_us - w[i].t0 > w[i].ms * 1000 + 1000) fail("%s: connection %d waited more than %ld ms and got no timeout", how.c_str(), i, w[i].ms); continue; } if(!w[i].waiting) fail("%s: connection %d gets \"%s\" unasked", how.c_str(), i, esc(o).c_str()); if(o != "-Timeout\r\n") fail("%s: connection %d is released by nothing with \"%s\"", how.c_str(), i, esc(o).c_str()); if(clock_us - w[i].t0 < w[i].ms * 1000) fail("%s: connection %d times out after %ld us, before its %ld ms", how.c_str(), i, (long) (clock_us - w[i].t0), w[i].ms); w[i].waiting = false; } };
    for(int step = 0; step < depth; step++) {
        int ticks = 3; int o = choose(ops.size() + ticks + conns - 1 + del, "op"); note_transition();
        if(o < (int) ops.size()) {
            int i = ops[o].first; const strs &a = ops[o].second; str t; for(auto &x : a) t += (t.empty() ? "" : " ") + x; if(gone[i] || w[i].waiting) return; how += fmt(" [%d]", i) + t + ";";
            d.push(c[i], resp_cmd(a)); d.run(); str out = d.take(c[i]);
            if(det[i]) { if(out.empty() || out[0] != '-') fail("%s: a connection whose namespace was removed gets \"%s\"", how.c_str(), esc(out).c_str()); gone[i] = d.closed(c[i]); check_idle(false); continue; }
            str name; for(auto ch : a[0]) name += toupper(ch);
            bool known = false; for(auto &k : COMMANDS) if(k == name && k != "UNKNOWN" && !k.empty()) known = true;
            if(name == "WAIT") { bool bad = a.size() < 2 || a[1] == "NOSUCH"; long ms = a.size() > 2 ? atol(a[2].c_str()) : 5000; if(a.size() > 2 && (ms < 100 || ms > 1800000)) bad = true; if(bad) { if(out.empty() || out[0] != '-') fail("%s: answered \"%s\"", how.c_str(), esc(out).c_str()); } else { if(out.size()) fail("%s: answered at once with \"%s\"", how.c_str(), esc(out).c_str()); w[i].waiting = true; str wc; for(auto ch : a[1]) wc += toupper(ch); w[i].cmd = wc; w[i].ns = ns[i]; w[i].t0 = clock_us; w[i].ms = ms; } }
            else { if(out.empty()) fail("%s: no reply", how.c_str()); if(name == "SELECT" && out == OK) ns[i] = a[1]; if(name == "NSDEL" && out == OK) { exists = false; for(int k = 0; k < conns; k++) if(ns[k] == a[1]) { det[k] = true; w[k].detached = true; } } if(name == "NSNEW" && out == OK) exists = true; size_t p = 0; Reply r; bool badf = false; if(!resp_parse(out, p, r, &badf) || p != out.size()) fail("%s: reply \"%s\"", how.c_str(), esc(out).c_str()); }
            for(int k = 0; k < conns; k++) {
                if(k == i || gone[k]) continue; str got = d.take(c[k]); bool rel = known && w[k].waiting && !det[k] && w[k].ns == ns[i] && (w[k].cmd == "*" || w[k].cmd == name);
                if(rel) { if(got != "+" + name + "\r\n") fail("%s: connection %d, waiting for %s, gets \"%s\"", how.c_str(), k, w[k].cmd.c_str(), esc(got).c_str()); w[k].waiting = false; }
                else if(got.size()) { if(w[k].waiting && got == "-Timeout\r\n" && clock_us - w[k].t0 >= w[k].ms * 1000) { w[k].waiting = false; } else fail("%s: connection %d%s gets \"%s\"", how.c_str(), k, w[k].waiting ? fmt(", waiting for %s in %s,", w[k].cmd.c_str(), w[k].ns.c_str()).c_str() : "", esc(got).c_str()); }
            }
        } else if((o -= ops.size()) < ticks) {
            if(o == 0) { how += " idle;"; d.tick(1); check_idle(true); }
            else { how += o == 1 ? " +99ms;" : " +1s;"; advance(o == 1 ? 99000 : 1000000); d.tick(1); check_idle(true); }
        } else if((o -= ticks) < conns - 1) { if(gone[o]) return; how += fmt(" [%d]hangup;", o); gone[o] = true; w[o].waiting = false; d.hangup(c[o]); check_idle(false); }
        else { how += " new;"; int i = conns - 1; (void) i; if(!exists) return; for(int k = 0; k < conns; k++) if(gone[k]) { c[k] = d.conn(); gone[k] = det[k] = false; w[k] = Waiter(); ns[k] = "default"; break; } }
        uint64_t h = 3; for(int k = 0; k < conns; k++) h = fnvs(ns[k] + w[k].cmd + fmt("%d%d%d %ld", (int) w[k].waiting, (int) gone[k], (int) det[k], w[k].waiting ? (long) (clock_us - w[k].t0) : 0), h); note_state(h);
    }
    // everybody still works, waiters time out
    for(int k = 0; k < 40; k++) { bool any = false; for(int i = 0; i < conns; i++) if(w[i].waiting && !gone[i]) any = true; if(!any) break; how += " +200ms;"; advance(200000); d.tick(1); check_idle(true); }
    for(int i = 0; i < conns; i++) if(!gone[i] && !det[i] && !w[i].waiting) { Reply r = d.cmd(c[i], {"PING"}); if(!(r.t == '+' && r.s == "PONG")) fail("%s: then connection %d gets %s for PING", how.c_str(), i, r.show().c_str()); }
    note_case(how);
}
SUITE(wait_two) { wait_model(3, {{0, {"WAIT", "SET"}}, {0, {"WAIT", "*", "300"}}, {0, {"SELECT", "N"}}, {1, {"WAIT", "GET", "100"}}, {1, {"wait", "set", "500"}}, {2, {"SET", "k", "v"}}, {2, {"GET", "k"}}, {2, {"PING"}}, {2, {"SELECT", "N"}}, {2, {"SELECT", "default"}}, {2, {"NOSUCH"}}, {1, {"SET", "q", "v"}}}, tier_pick(4, 5), false); }
SUITE(wait_one) { wait_model(2, {{0, {"WAIT", "SET", "300"}}, {0, {"WAIT", "DEL", "100"}}, {0, {"WAIT", "*", "1000"}}, {0, {"WAIT", "SET", "99"}}, {0, {"WAIT", "SET", "1800001"}}, {0, {"WAIT", "NOSUCH"}}, {0, {"WAIT"}}, {0, {"PING"}}, {1, {"SET", "k", "v"}}, {1, {"DEL", "k"}}, {1, {"SETX", "k", "w"}}, {1, {"set", "k"}}, {1, {"SELECT", "N"}}}, tier_pick(4, 5), false); }
SUITE(wait_delete) { wait_model(3, {{0, {"SELECT", "N"}}, {0, {"WAIT", "SET", "300"}}, {0, {"WAIT", "*"}}, {0, {"PING"}}, {1, {"SELECT", "N"}}, {1, {"SET", "k", "v"}}, {1, {"WAIT", "NSDEL"}}, {2, {"NSDEL", "N"}}, {2, {"NSNEW", "N"}}, {2, {"SET", "k", "x"}}}, tier_pick(4, 5), true); }
// clients which never leave the server idle: timeouts are noticed at least every hundred requests, never early, and once
SUITE(wait_busy) {
    Daemon d; d.boot(); int a = d.conn(), b = d.conn(), c = d.conn(); static const int ms[] = {100, 150, 1000, 5000}, gaps[] = {100, 3000, 40000, 150000}; int ta = ms[choose(4, "timeout")], tb = ms[choose(4, "other timeout")]; int64_t gap = gaps[choose(4, "gap")]; int rounds = 260 + ta * 1000 / gap + tb * 1000 / gap; if(rounds > 3000) return; int later = choose(3, "other starts"), release = choose(3, "release"), warm = choose(3, "warm up") * 37; bool again = choose(2, "again"); str how = fmt("WAIT SET %d and WAIT GET %d, a request every %ld us", ta, tb, (long) gap);
    for(int i = 0; i < warm; i++) { advance(gap); CHECK(d.cmd(c, {"PING"}).t == '+', "PING"); }
    int64_t sa = clock_us, sb = -1; d.push(a, resp_cmd({"WAIT", "SET", fmt("%d", ta)})); d.run(); bool da = false, db = false; int64_t slack = 115 * gap + 2000000 / 10;
    auto see = [&](const char *awaited) {
        str g = d.take(a); if(!g.empty()) { CHECK(!da, "%s: a second answer %s", how.c_str(), esc(g, 30).c_str()); da = true; if(awaited && str(awaited) == "SET") CHECK(g == "+SET\r\n", "%s: answers %s", how.c_str(), esc(g, 30).c_str()); else { CHECK(g == "-Timeout\r\n", "%s: answers %s", how.c_str(), esc(g, 30).c_str()); CHECK(clock_us - sa >= ta * 1000ll, "%s: the timeout comes after %ld us", how.c_str(), (long) (clock_us - sa)); } }
        else CHECK(da || clock_us - sa <= ta * 1000ll + slack, "%s: no timeout after %ld us", how.c_str(), (long) (clock_us - sa));
        g = d.take(b); if(!g.empty()) { CHECK(sb >= 0 && !db, "%s: an unexpected answer %s", how.c_str(), esc(g, 30).c_str()); db = true; if(awaited && str(awaited) == "GET") CHECK(g == "+GET\r\n", "%s: answers %s", how.c_str(), esc(g, 30).c_str()); else { CHECK(g == "-Timeout\r\n", "%s: answers %s", how.c_str(), esc(g, 30).c_str()); CHECK(clock_us - sb >= tb * 1000ll, "%s: the second timeout comes after %ld us", how.c_str(), (long) (clock_us - sb)); } }
        else CHECK(sb < 0 || db || clock_us - sb <= tb * 1000ll + slack, "%s: no second timeout after %ld us", how.c_str(), (long) (clock_us - sb));
    };
    for(int i = 0; i < rounds && !(da && db); i++) {
        if(sb < 0 && i >= later * 40) { sb = clock_us; d.push(b, resp_cmd({"WAIT", "GET", fmt("%d", tb)})); d.run(); }
        advance(gap); bool rel = release && i == 60; const char *w = nullptr; if(rel) { w = release == 1 ? "SET" : "GET"; if(release == 1) CHECK(d.cmd(c, {"SET", "k", "v"}).bulk("k"), "SET"); else d.cmd(c, {"GET", "k"}); } else CHECK(d.cmd(c, {"PING"}).t == '+', "PING"); see(w);
        if(again && da && release == 1 && i == 60) { again = false; da = false; sa = clock_us; d.push(a, resp_cmd({"WAIT", "SET", fmt("%d", ta)})); d.run(); }
    }
    CHECK(da && db, "%s: a WAIT is never answered", how.c_str()); for(int k : {a, b}) CHECK(d.cmd(k, {"PING"}).t == '+', "%s: the connection does not go on", how.c_str()); note_case(how); note_state(fnvs(how) ^ release); note_transition(rounds);
}

// many connections, more than the daemon's tables are made for at first, in every order of arrival and departure
SUITE(crowd) {
    static const int sizes[] = {1, 20, 27, 28, 29, 31, 32, 33, 60, 63, 64, 65, 66, 100, 130, 260}; Daemon d; d.extra = {"--admin", "pw"}; d.boot(); int n = sizes[choose(sizeof sizes / sizeof *sizes, "connections")], leave = choose(6, "leave"), at_once = choose(2, "at once"), twice = choose(2, "come back"); std::vector<int> c; str how = fmt("%d connections", n);
    std::map<int, bool> adm; for(int i = 0; i < n; i++) { c.push_back(d.conn()); if(i % 3 == 0) { Reply r = d.cmd(c[i], {"AUTH", "pw"}); CHECK(r.ok(), "AUTH answers %s", r.show().c_str()); adm[c[i]] = true; } }
    auto one = [&](int k, const strs &a, const str &want) { str got = d.take(k); if(want == "-" ? got.empty() || got[0] != '-' : want == "*" ? got.empty() || got[0] != '*' : got != want) fail("%s: connection %d (of %zu) gets %s for %s instead of %s", how.c_str(), k, c.size(), esc(got, 60).c_str(), a[0].c_str(), esc(want, 60).c_str()); };
    auto all = [&](auto req) { if(at_once) { for(int k : c) d.push(k, resp_cmd(req(k).first)); d.run(); d.tick(1); for(int k : c) one(k, req(k).first, req(k).second); } else for(size_t i = c.size(); i-- > 0;) { d.push(c[i], resp_cmd(req(c[i]).first)); d.run(); one(c[i], req(c[i]).first, req(c[i]).second); } note_transition(c.size()); };
    int round = 0; auto use = [&]() {
        round++; auto key = [&](int k) { return fmt("key-%d", k); }; auto val = [&](int k) { return fmt("value %d of %d", round, k); };
        all([&](int k) { return std::make_pair(strs{"SET", key(k), val(k)}, bulk(key(k))); }); std::map<int, int> next; for(size_t i = 0; i < c.size(); i++) next[c[i]] = c[(i * 7 + 1) % c.size()];
        all([&](int k) { return std::make_pair(strs{"GET", key(next[k])}, bulk(val(next[k]))); }); all([&](int k) { return std::make_pair(strs{"HOOKS"}, str(adm[k] ? "*" : "-")); });
        // all wait, but one
        size_t who = round % 2 ? 0 : c.size() - 1; for(size_t i = 0; i < c.size(); i++) if(i != who) { d.push(c[i], resp_cmd({"WAIT", "SET"})); d.run(); str g = d.take(c[i]); if(!g.empty()) fail("%s: connection %d gets %s waiting", how.c_str(), c[i], esc(g, 40).c_str()); }
        d.push(c[who], resp_cmd({"SET", "trigger", val(who)})); d.run(); one(c[who], {"SET"}, bulk("trigger")); for(size_t i = 0; i < c.size(); i++) if(i != who) one(c[i], {"WAIT"}, "+SET\r\n");
    };
    use(); note_state(n * 64 + leave * 4 + at_once * 2 + twice);
    std::vector<int> stay, gone; for(int i = 0; i < n; i++) { bool go = leave == 1 ? i % 2 == 0 : leave == 2 ? i < n / 2 : leave == 3 ? i >= n / 2 : leave == 4 ? i != n - 1 : leave == 5 ? i != 0 : false; (go ? gone : stay).push_back(c[i]); }
    if(stay.empty()) return; for(int k : gone) { d.hangup(k); adm.erase(k); } c = stay; how += fmt(", %zu leave", gone.size()); use();
    if(twice) { for(size_t i = 0; i < gone.size(); i++) c.push_back(d.conn()); how += " and come back"; use(); }
    note_case(how);
}
