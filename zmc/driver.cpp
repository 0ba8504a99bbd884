#include "driver.h"
str Reply::show() const {
    switch(t) {
        case '+': case '-': return str(1, t) + esc(s);
        case ':': return fmt(":%lld", n);
        case '$': return "\"" + esc(s, 60) + "\"";
        case 'n': return "nil"; case 'N': return "nil-array";
        case 'X': return "closed"; case '?': return "nothing";
        case '*': { str o = "["; for(size_t i = 0; i < a.size(); i++) o += (i ? ", " : "") + a[i].show(); return o + "]"; }
    }
    return "?";
}
static bool line(const str &b, size_t &p, str &o) { size_t e = b.find("\r\n", p); if(e == str::npos) return false; o = b.substr(p, e - p); p = e + 2; return true; }
static bool number(const str &s, long long &v) { if(s.empty()) return false; size_t i = s[0] == '-'; if(i == s.size()) return false; for(size_t k = i; k < s.size(); k++) if(s[k] < '0' || s[k] > '9') return false; v = atoll(s.c_str()); return true; }
bool resp_parse(const str &b, size_t &pos, Reply &r, bool *bad) {
    if(pos >= b.size()) return false;
    size_t p = pos + 1; str l; char t = b[pos];
    if(t != '+' && t != '-' && t != ':' && t != '$' && t != '*') { *bad = true; return false; }
    if(!line(b, p, l)) return false;
    r = Reply(); r.t = t;
    if(t == '+' || t == '-') { r.s = l; pos = p; return true; }
    if(!number(l, r.n)) { *bad = true; return false; }
    if(t == ':') { pos = p; return true; }
    if(t == '$') {
        if(r.n == -1) { r.t = 'n'; pos = p; return true; }
        if(r.n < 0) { *bad = true; return false; }
        if(b.size() < p + r.n + 2) { if(b.size() >= p + r.n + 1 && b[p + r.n] != '\r') *bad = true; return false; }
        r.s = b.substr(p, r.n); if(b.compare(p + r.n, 2, "\r\n") != 0) { *bad = true; return false; }
        pos = p + r.n + 2; return true;
    }
    if(r.n == -1) { r.t = 'N'; pos = p; return true; }
    if(r.n < 0) { *bad = true; return false; }
    for(long long i = 0; i < r.n; i++) { Reply x; if(!resp_parse(b, p, x, bad)) return false; r.a.push_back(x); }
    pos = p; return true;
}
str resp_cmd(const strs &a) { str o = fmt("*%zu\r\n", a.size()); for(auto &x : a) { o += fmt("$%zu\r\n", x.size()); o += x; o += "\r\n"; } return o; }
strs Daemon::argv() const {
    strs a{"zdb", "--data", dir + "/data", "--index", dir + "/index"};
    if(tcp) { a.push_back("--port"); a.push_back("9900"); } else { a.push_back("--socket"); a.push_back(dir + "/sock"); }
    for(auto &x : extra) a.push_back(x);
    return a;
}
RunStatus Daemon::start() { return inst_start(in, argv()); }
long first_jumps = 0;
void Daemon::boot() {
    RunStatus r = start();
    if(r == RS_CRASH) throw Crashed();
    if(r != RS_IDLE) fail("the daemon does not start (exit code %d)", inst_exit_code(in));
    // --param jumps=N: the history begins with many (empty) files already
    static bool aged = false; if(aged || in != inst_main()) return; aged = true;
    if(long n = first_jumps ? first_jumps : param("jumps", 0)) { stall_limit = std::max<long>(stall_limit, n * 40); auto h = sys_hook; sys_hook = nullptr; auto o = hook_outcome; hook_outcome = nullptr; int c = conn(); while(n--) if(!cmd(c, {"NSJUMP"}).ok()) fail("NSJUMP"); hangup(c); sys_hook = h; hook_outcome = o; hook_calls.clear(); }
}
int Daemon::conn() { int c = inst_connect(in); if(c < 0) fail("the daemon does not listen"); run(); return c; }
void Daemon::run(bool t) {
    RunStatus r = inst_run(in, t);
    if(r == RS_IDLE) return;
    if(r == RS_CRASH) throw Crashed();
    if(r == RS_EXIT) throw Exited{inst_exit_code(in)};
    fail("the daemon is not running");
}
str Daemon::take(int c) { str o; o.swap(socks[c]->tx); return o; }
bool Daemon::closed(int c) { return socks[c]->sut_closed; }
Reply Daemon::recv1(int c) {
    str b = take(c); Reply r; size_t p = 0; bool bad = false;
    if(b.empty()) { r.t = closed(c) ? 'X' : '?'; r.closed = closed(c); return r; }
    if(!resp_parse(b, p, r, &bad)) fail("malformed or incomplete reply: %s", esc(b, 400).c_str());
    if(p != b.size()) fail("more than one reply to a single command: %s", esc(b, 400).c_str());
    r.closed = closed(c);
    return r;
}
Reply Daemon::cmd(int c, const strs &a) {
    if(!socks[c]->tx.empty()) fail("unexpected bytes on the connection: %s", esc(socks[c]->tx, 200).c_str());
    if(g_verbose) { str s; for(auto &x : a) s += " " + (x.empty() ? str("''") : esc(x, 60)); logf("[conn %d]%s", c, s.c_str()); }
    if(closed(c)) { Reply r; r.t = 'X'; r.closed = true; return r; }
    push(c, resp_cmd(a)); note_transition();
    run();
    Reply r = recv1(c);
    if(g_verbose) logf("    -> %s%s", r.show().c_str(), r.closed && r.t != 'X' ? " (closed)" : "");
    return r;
}
void Daemon::stop(int c) {
    logf("[conn %d] STOP", c);
    push(c, resp_cmd({"STOP"}));
    try { run(); } catch(Exited &e) { if(e.code != 0) fail("STOP ends the daemon with exit code %d", e.code); return; }
    fail("STOP did not stop the daemon (reply %s)", esc(take(c)).c_str());
}
void Daemon::stop() { int c = conn(); stop(c); }
void Daemon::term(int sig) { const char *n = sig == 2 ? "SIGINT" : sig == 11 ? "SIGSEGV" : "SIGTERM"; logf("%s", n); inst_signal(in, sig); if(inst_alive(in)) fail("%s did not stop the daemon", n); }
str data_dir(const str &ns) { return "/z/data/" + ns; }
str index_dir(const str &ns) { return "/z/index/" + ns; }
str le64(uint64_t v) { return str((char *) &v, 8); }
str le32(uint32_t v) { return str((char *) &v, 4); }
uint64_t rd64(const str &s, size_t o) { uint64_t v = 0; if(o + 8 <= s.size()) memcpy(&v, s.data() + o, 8); return v; }
uint32_t rd32(const str &s, size_t o) { uint32_t v = 0; if(o + 4 <= s.size()) memcpy(&v, s.data() + o, 4); return v; }
void advance(int64_t us) { clock_us += us; }
uint32_t crc32c(const str &s) { uint32_t c = 0xffffffff; for(unsigned char b : s) { c ^= b; for(int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78 : c >> 1; } return ~c; }
uint32_t crc32z(const str &s) { uint32_t c = 0; for(unsigned char b : s) { c ^= b; for(int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78 : c >> 1; } return c; }
str crc32c_partner(const str &s) {
    // CRC is affine: flip bits with a zero-effect pattern found by Gaussian elimination over 40 bits
    if(s.size() < 5) return s;
    uint32_t base = crc32c(s); std::vector<std::pair<uint32_t, uint64_t>> basis;
    for(int bit = 0; bit < 40; bit++) {
        str t = s; t[bit / 8] ^= 1 << (bit % 8); uint32_t d = crc32c(t) ^ base; uint64_t m = 1ull << bit;
        for(auto &b : basis) if((d ^ b.first) < d) { d ^= b.first; m ^= b.second; }
        if(d == 0) { str r = s; for(int k = 0; k < 40; k++) if(m >> k & 1) r[k / 8] ^= 1 << (k % 8); return r; }
        basis.push_back({d, m}); std::sort(basis.begin(), basis.end(), [](auto &x, auto &y) { return x.first > y.first; });
    }
    return s;
}
str info_field(const str &text, const char *name) { str k = str(name) + ": "; size_t p = 0; while((p = text.find(k, p)) != str::npos) { if(p == 0 || text[p - 1] == '\n') { p += k.size(); size_t e = text.find('\n', p); return text.substr(p, e == str::npos ? e : e - p); } p++; } return "<none>"; }
