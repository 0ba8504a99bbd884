#include "world.h"
str sha1hex(const str &m) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; str s = m; uint64_t bits = s.size() * 8ull; s += '\x80'; while(s.size() % 64 != 56) s += '\0'; for(int i = 7; i >= 0; i--) s += char(bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for(size_t o = 0; o < s.size(); o += 64) { uint32_t w[80]; for(int i = 0; i < 16; i++) w[i] = (uint8_t) s[o + 4 * i] << 24 | (uint8_t) s[o + 4 * i + 1] << 16 | (uint8_t) s[o + 4 * i + 2] << 8 | (uint8_t) s[o + 4 * i + 3]; for(int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for(int i = 0; i < 80; i++) { uint32_t f, k; if(i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if(i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if(i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6; uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    str r; for(int i = 0; i < 5; i++) r += fmt("%08x", h[i]); return r;
}
void World::start(const strs &extra) {
    d.extra = {}; if(mode < 2) { d.extra.push_back("--mode"); d.extra.push_back(mode ? "seq" : "user"); }
    if(!adminpw.empty()) { d.extra.push_back("--admin"); d.extra.push_back(adminpw); } if(protect) d.extra.push_back("--protect"); for(auto &x : extra) d.extra.push_back(x);
    d.boot(); ns["default"] = fresh_ns(); if(protect) ns["default"].pass = adminpw; obs = d.conn(); if(!adminpw.empty()) CHECK(d.cmd(obs, {"AUTH", adminpw}).ok(), "AUTH of the observer");
}
int World::conn() { int c = d.conn(); CliM k; k.writable = !protect; k.admin = adminpw.empty(); cli[c] = k; return c; }
void World::reboot(bool sig) {
    trace += sig ? "SIGTERM+start; " : "restart; "; if(sig) d.term(); else d.stop(); note_transition(); cli.clear(); for(auto &n : ns) { n.second.lock = 0; } 
    d.boot(); obs = d.conn(); if(!adminpw.empty()) CHECK(d.cmd(obs, {"AUTH", adminpw}).ok(), "AUTH of the observer");
}
static str cstr_of(const str &s) { return str(s.c_str()); }
Reply World::exec(int c, const strs &a) {
    CliM &k = cli[c]; str t; for(auto &x : a) t += (t.empty() ? "" : " ") + (x.empty() ? str("''") : esc(x, 24)); trace += fmt("[%d] ", c) + t + "; ";
    advance(1000000); int64_t ts = vnow(); const str &cmd = a[0]; auto argc = a.size();
    Reply r = d.cmd(c, a);
    auto bad = [&](const char *why) { fail("%s answers %s: %s   [%s]", t.c_str(), r.show().c_str(), why, trace.c_str()); };
    auto want_err = [&](const char *why, const char *sub = nullptr) { if(!r.err() || (sub && !r.has(sub))) bad(why); return r; };
    auto want_ok = [&](const char *why) { if(!r.ok()) bad(why); return r; };
    if(k.gone) { if(r.t != 'X') bad("the connection should be closed"); return r; }
    if(k.detached) { k.gone = r.closed; if(r.t == 'X') { k.gone = true; return r; } return want_err("the namespace of this connection was removed"); }
    auto it = ns.find(k.ns); if(it == ns.end()) internal_error("client on an unknown namespace"); NsM &n = it->second;
    auto nslookup = [&](const str &raw) { return ns.find(cstr_of(raw)); };
    auto admin_only = [&] { return !k.admin; };
    if(cmd == "AUTH") {
        if(argc == 2) { if(adminpw.empty()) return want_err("there is no admin password"); if(a[1] == adminpw) { want_ok("this is the exact admin password"); k.admin = true; } else want_err("this is not the admin password"); return r; }
        if(argc == 3 && a[2] == "CHALLENGE") { if(r.t != '+' || r.s.size() != 16) bad("a challenge is expected"); if(!nonces.insert(r.s).second) bad("this challenge was given before"); k.nonce = r.s; return r; }
        if(adminpw.empty()) return want_err("there is no admin password");
        if(k.nonce.empty()) return want_err("no challenge is pending on this connection"); if(a[2].size() != 40) return want_err("this is not a challenge response");
        bool good = a[2] == sha1hex(k.nonce + ":" + adminpw); k.nonce.clear(); if(good) { want_ok("this is the right challenge response"); k.admin = true; } else want_err("this is not the right response for this connection's challenge"); return r;
    }
    if(cmd == "SELECT") {
        auto i = nslookup(a[1]); if(i == ns.end()) return want_err("no such namespace"); NsM &s = i->second; bool w = true;
        if(!s.pass.empty()) {
            if(argc == 2) { if(!s.pub) return want_err("this namespace is private"); w = false; }
            else if(argc == 3) { if(a[2] != s.pass) return want_err("this is not the password of the namespace"); }
            else { if(k.nonce.empty()) return want_err("no challenge is pending on this connection"); if(a[3].size() != 40) return want_err("this is not a challenge response"); bool good = a[3] == sha1hex(k.nonce + ":" + s.pass); k.nonce.clear(); if(!good) return want_err("this is not the right response for this connection's challenge"); }
        }
        want_ok("this selection is allowed"); k.ns = i->first; k.writable = w; return r;
    }
    if(cmd == "NSLIST") { if(r.t != '*' || r.a.size() != ns.size()) bad("the list of namespaces is not the expected one"); for(auto &x : r.a) if(!ns.count(x.s)) bad("the list of namespaces is not the expected one"); return r; }
    if(cmd == "NSINFO") { auto i = nslookup(a[1]); if(i == ns.end()) return want_err("no such namespace"); if(r.t != '$' || (i->first.find('\n') == str::npos && info_field(r.s, "name") != i->first)) bad("information on this namespace is expected"); bool adm = info_field(r.s, "data_path") != "<none>"; if(adm != k.admin) bad("paths are for administrators only"); if(!k.admin && r.s.find("password_raw") != str::npos) bad("passwords are never for regular connections"); return r; }
    if(cmd == "DBSIZE") { if(!r.is(n.entries())) bad("wrong number of entries"); return r; }
    static const std::set<str> adm{"NSNEW", "NSDEL", "NSSET", "NSJUMP", "RELOAD", "HOOKS", "INDEX", "DATA", "MIRROR", "MASTER"};
    if(adm.count(cmd) && admin_only()) return want_err("this connection is not administrative");
    if(cmd == "HOOKS" || cmd == "INDEX" || cmd == "DATA") { return r; }
    if(cmd == "NSNEW") {
        str name = cstr_of(a[1]); if(a[1].size() > 128 || name.empty() || name == "." || name == ".." || name.find('/') != str::npos || name == "default" || name == ".lockfile" || ns.count(name)) return want_err("this namespace cannot be created");
        want_ok("this namespace can be created"); ns[name] = fresh_ns(); return r;
    }
    if(cmd == "NSDEL") {
        auto i = nslookup(a[1]); if(i == ns.end() || i->first == "default" || i->first == k.ns) return want_err("this namespace cannot be removed");
        want_ok("this namespace can be removed"); str name = i->first; ns.erase(i); for(auto &x : cli) if(!x.second.detached && x.second.ns == name) x.second.detached = true; return r;
    }
    if(cmd == "NSSET") {
        auto i = nslookup(a[1]); if(i == ns.end()) return want_err("no such namespace"); NsM &s = i->second; const str &p = a[2], &v = a[3];
        if(v.size() > 63 || v.empty()) return want_err("invalid value");
        if(p == "mode") { if(mode != 2 || !s.fresh || (v != "user" && v != "seq")) return want_err("the mode cannot be changed"); want_ok("the mode of a fresh namespace can be changed"); s.seq = v == "seq"; return r; }
        if(p == "lock" || p == "freeze") { want_ok("locks apply to every namespace"); s.lock = v[0] == '1' ? (p == "lock" ? 1 : 2) : 0; return r; }
        if(i->first == "default") return want_err("the default namespace cannot be changed");
        if(p == "maxsize") { want_ok("maxsize"); s.maxsize = atol(v.c_str()); } else if(p == "password") { want_ok("password"); s.pass = v == "*" ? str() : v; } else if(p == "public") { want_ok("public"); s.pub = v[0] == '1'; } else if(p == "worm") { want_ok("worm"); s.worm = v[0] == '1'; } else want_err("no such property");
        return r;
    }
    if(cmd == "NSJUMP") { want_ok("jump"); n.fresh = false; return r; }
    if(cmd == "RELOAD") { auto i = nslookup(a[1]); if(i == ns.end()) return want_err("no such namespace"); return want_ok("reload"); }
    bool protect_w = !k.writable;
    if(cmd == "FLUSH") {
        if(n.pub || n.pass.empty()) return want_err("only private, password protected namespaces can be flushed"); if(protect_w) return want_err("this selection is read-only"); if(n.lock == 2) return want_err("the namespace is frozen", "frozen"); if(n.lock) return want_err("the namespace is locked", "locked"); if(n.worm) return want_err("the namespace is in worm mode");
        want_ok("flush"); n.kv = UserModel(); n.sq = SeqModel(); n.fresh = true; return r;
    }
    // commands on data
    if(cmd == "SET" || cmd == "DEL") {
        bool with_ts = argc == (cmd == "SET" ? 4u : 3u); if(with_ts && !k.admin) return want_err("an explicit timestamp is for administrators"); if(with_ts) ts = atol(a.back().c_str());
        const str &key = a[1];
        if(key.size() > 255) return want_err("the key is too long"); if(protect_w) return want_err("this selection is read-only");
        if(n.lock == 2) return want_err("the namespace is frozen", "frozen"); if(n.lock == 1) return want_err("the namespace is locked", "locked");
        if(cmd == "DEL") {
            if(key.empty()) return want_err("a key is needed");
            bool live = n.seq ? key.size() == 8 && n.sq.live.count(rd64(key, 0)) : n.kv.live.count(key); if(!live) return want_err("there is no such key"); if(n.worm) return want_err("the namespace is in worm mode");
            want_ok("this key can be deleted"); if(!n.seq) n.kv.del(key); else { uint64_t id = rd64(key, 0); n.sq.live.erase(id); n.sq.dead.insert(id); n.sq.order.erase(std::remove(n.sq.order.begin(), n.sq.order.end(), id), n.sq.order.end()); }
            return r;
        }
        const str &v = a[2];
        if(n.seq) {
            if(key.empty()) {
                uint64_t used = 0; for(auto &x : n.sq.live) used += x.second.val.size(); if(n.maxsize && (long) (used + v.size()) > n.maxsize) return want_err("the limit would be exceeded");
                if(r.t != '$' || r.s.size() != 8) bad("a new id is expected"); uint64_t id = rd64(r.s, 0); if(n.sq.any && id <= n.sq.last) bad("ids increase"); n.sq.last = id; n.sq.any = true; n.sq.live[id] = {v, ts}; n.sq.order.push_back(id); n.fresh = false; return r;
            }
            auto i = key.size() == 8 ? n.sq.live.find(rd64(key, 0)) : n.sq.live.end(); if(i == n.sq.live.end()) return want_err("there is no such id"); if(n.worm) return want_err("the namespace is in worm mode");
            uint64_t used = 0; for(auto &x : n.sq.live) used += x.second.val.size(); if(n.maxsize && (long) (used - i->second.val.size() + v.size()) > n.maxsize) return want_err("the limit would be exceeded");
            if(i->second.val == v) { if(!r.nil()) bad("the value is identical"); return r; }
            if(!r.bulk(key)) bad("this id can be updated"); i->second = {v, ts}; return r;
        }
        if(key.empty()) return want_err("a key is needed"); auto i = n.kv.live.find(key); bool live = i != n.kv.live.end(); if(live && n.worm) return want_err("the namespace is in worm mode");
        if(n.maxsize && (long) (n.kv.datasize() - (live ? i->second.back().val.size() : 0) + v.size()) > n.maxsize) return want_err("the limit would be exceeded");
        if(live && i->second.back().val == v) { if(!r.nil()) bad("the value is identical"); return r; }
        if(!r.bulk(key)) bad("this key can be written"); n.kv.set(key, v, ts); n.fresh = false; return r;
    }
    if(cmd == "GET" || cmd == "EXISTS" || cmd == "LENGTH" || cmd == "CHECK" || cmd == "KEYTIME" || cmd == "MGET" || cmd == "SCAN" || cmd == "RSCAN" || cmd == "HISTORY" || cmd == "KSCAN") {
        if(n.lock == 2) return want_err("the namespace is frozen", "frozen");
        if(cmd == "SCAN" || cmd == "RSCAN") { size_t e = n.entries(); if(e == 0 ? !r.err() : r.t != '*') bad("listing"); return r; }
        if(cmd == "KSCAN") { if(n.seq) return want_err("not in this mode"); size_t e = 0; for(auto &x : n.kv.live) e += x.first.compare(0, a[1].size(), a[1]) == 0; if(e == 0) return want_err("no key matches"); if(r.t != '*' || r.a.size() != 2 || r.a[1].a.size() != e) bad("listing"); for(auto &x : r.a[1].a) if(!n.kv.live.count(x.s)) bad("listing"); return r; }
        const Ver *v = nullptr; if(n.seq) { auto i = a[1].size() == 8 ? n.sq.live.find(rd64(a[1], 0)) : n.sq.live.end(); if(i != n.sq.live.end()) v = &i->second; } else { auto i = n.kv.live.find(a[1]); if(i != n.kv.live.end()) v = &i->second.back(); }
        if(cmd == "HISTORY") { if(!v) return want_err("there is no such key"); if(r.t != '*' || r.a.size() != 3 || !r.a[2].bulk(v->val)) bad("history"); return r; }
        if(cmd == "MGET") { if(r.t != '*' || r.a.size() != 1 || (v ? !r.a[0].bulk(v->val) : !r.a[0].nil())) bad("value"); return r; }
        if(cmd == "EXISTS") { if(!r.is(v != nullptr)) bad("existence"); return r; }
        if(!v) { if(!r.nil()) bad("there is no such key"); return r; }
        if(cmd == "GET" ? !r.bulk(v->val) : cmd == "LENGTH" ? !r.is(v->val.size()) : cmd == "KEYTIME" ? !r.is(v->ts) : !r.is(1)) bad("wrong value");
        return r;
    }
    internal_error("no prediction for %s", cmd.c_str());
}
uint64_t World::hash() { uint64_t h = vfs.hash("/z"); for(auto &n : ns) { auto &m = n.second; h = fnvs(n.first + "|" + m.pass + fmt("|%d%d%d%d%ld", m.seq, m.pub, m.worm, m.lock, m.maxsize), h); h = h * 31 + m.kv.hash() + m.sq.hash(); } for(auto &c : cli) h = fnvs(fmt("%d %s %d%d%d %s", c.first, c.second.ns.c_str(), c.second.detached, c.second.writable, c.second.admin, c.second.nonce.c_str()), h); return h; }
void World::verify(bool scan) {
    auto die = [&](const str &s) { fail("%s   [%s]", s.c_str(), trace.c_str()); };
    Reply l = d.cmd(obs, {"NSLIST"}); std::set<str> got, want; for(auto &x : l.a) { if(!got.insert(x.s).second) die("NSLIST lists " + esc(x.s) + " twice"); } for(auto &n : ns) want.insert(n.first);
    if(got != want) { str s; for(auto &x : got) s += esc(x, 20) + " "; str w; for(auto &x : want) w += esc(x, 20) + " "; die("NSLIST answers [" + s + "] instead of [" + w + "]"); }
    for(auto &p : ns) {
        NsM &m = p.second; const str &name = p.first; str tag = "namespace " + esc(name, 24) + ": ";
        Reply i = d.cmd(obs, {"NSINFO", name}); if(i.t != '$') die(tag + "NSINFO answers " + i.show());
        auto field = [&](const char *f, const str &v) { str g = info_field(i.s, f); if(g != v) die(tag + f + " is " + g + " instead of " + v); };
        if(name.find('\n') == str::npos) field("name", name); field("entries", fmt("%zu", m.entries())); field("public", m.pub ? "yes" : "no"); field("worm", m.worm ? "yes" : "no"); field("locked", m.lock ? "yes" : "no"); field("password", m.pass.empty() ? "no" : "yes"); field("data_limits_bytes", fmt("%ld", m.maxsize));
        str md = info_field(i.s, "mode"); if((md.find("seq") != str::npos) != m.seq) die(tag + "mode is " + md);
        uint64_t used = 0; for(auto &x : m.sq.live) used += x.second.val.size(); field("data_size_bytes", fmt("%lu", (unsigned long) (m.seq ? used : m.kv.datasize())));
        Reply s = m.pass.empty() ? d.cmd(obs, {"SELECT", name}) : d.cmd(obs, {"SELECT", name, m.pass}); if(!s.ok()) die(tag + "SELECT with its password answers " + s.show());
        if(!m.pass.empty()) { Reply w = d.cmd(obs, {"SELECT", name, m.pass + "x"}); if(!w.err()) die(tag + "SELECT with a wrong password answers " + w.show()); }
        Reply z = d.cmd(obs, {"DBSIZE"}); if(!z.is(m.entries())) die(tag + "DBSIZE answers " + z.show());
        if(m.lock == 2) { Reply g = d.cmd(obs, {"GET", "k1"}); if(!g.err() || !g.has("frozen")) die(tag + "frozen, but GET answers " + g.show()); g = d.cmd(obs, {"SCAN"}); if(!g.err() || !g.has("frozen")) die(tag + "frozen, but SCAN answers " + g.show()); for(auto &q : m.reads) { g = d.cmd(obs, q); if(!g.err() || !g.has("frozen")) die(tag + "frozen, but " + q[0] + " (" + esc(q[1], 40) + ") answers " + g.show()); } continue; }
        if(!m.seq) for(auto &k : keys) { Reply g = d.cmd(obs, {"GET", k}); auto f = m.kv.live.find(k); if(f == m.kv.live.end() ? !g.nil() : !g.bulk(f->second.back().val)) die(tag + "GET " + esc(k, 20) + " answers " + g.show() + " instead of " + (f == m.kv.live.end() ? str("nil") : "\"" + esc(f->second.back().val, 30) + "\"")); }
        else { for(auto &x : m.sq.live) { Reply g = d.cmd(obs, {"GET", le64(x.first)}); if(!g.bulk(x.second.val)) die(tag + fmt("GET of id %lu answers ", (unsigned long) x.first) + g.show()); } for(auto id : m.sq.dead) { Reply g = d.cmd(obs, {"GET", le64(id)}); if(!g.nil()) die(tag + fmt("GET of the deleted id %lu answers ", (unsigned long) id) + g.show()); } }
        std::set<str> pres; for(auto &k : keys) if(!k.empty()) pres.insert(k.substr(0, 1)); if(!m.seq) for(auto &pre : pres) { Reply g = d.cmd(obs, {"KSCAN", pre}); std::set<str> got, want; for(auto &x : m.kv.live) if(x.first.compare(0, pre.size(), pre) == 0) want.insert(x.first); if(want.empty() ? !g.err() : g.t != '*' || g.a.size() != 2 || g.a[1].a.size() != want.size()) die(tag + "KSCAN " + pre + " answers " + g.show()); if(!want.empty()) { for(auto &x : g.a[1].a) got.insert(x.s); if(got != want) die(tag + "KSCAN " + pre + " answers " + g.show()); } }
        if(cursors) { // requests with everything a client may hold from before, to try when frozen
            m.reads.clear(); str k = m.seq ? (m.sq.live.empty() ? str(8, '\0') : le64(m.sq.live.rbegin()->first)) : m.kv.live.empty() ? str("k1") : m.kv.live.rbegin()->first; for(auto q : {"MGET", "EXISTS", "LENGTH", "CHECK", "KEYTIME"}) m.reads.push_back({q, k}); m.reads.push_back({"MGET", k, k}); m.reads.push_back({"KEYCUR", k});
            if(!m.seq) { m.reads.push_back({"KSCAN", "k"}); m.reads.push_back({"HISTORY", k}); Reply g = d.cmd(obs, {"HISTORY", k}); if(g.t == '*' && !g.a[0].nil()) m.reads.push_back({"HISTORY", k, g.a[0].s}); }
            Reply g = d.cmd(obs, {"KEYCUR", k}); if(g.t == '$' && !g.nil()) { m.reads.push_back({"SCAN", g.s}); m.reads.push_back({"RSCAN", g.s}); }
            g = d.cmd(obs, {"SCAN"}); if(g.t == '*') { m.reads.push_back({"SCAN", g.a[0].s}); m.reads.push_back({"RSCAN", g.a[0].s}); }
        }
        if(scan) {
            auto sc = scan_all(d, obs, "SCAN"); strs w; if(m.seq) for(auto id : m.sq.order) w.push_back(le64(id)); else w = m.kv.order; bool same = sc.size() == w.size(); for(size_t j = 0; same && j < w.size(); j++) same = sc[j].key == w[j]; if(!same) { str gs, wsx; for(auto &x : sc) gs += esc(x.key, 16) + " "; for(auto &x : w) wsx += esc(x, 16) + " "; die(tag + "SCAN lists [" + gs + "] instead of [" + wsx + "]"); }
        }
    }
    NsM &def = ns["default"]; Reply s = def.pass.empty() ? d.cmd(obs, {"SELECT", "default"}) : d.cmd(obs, {"SELECT", "default", def.pass}); if(!s.ok()) die("the observer cannot select the default namespace again: " + s.show());
    if(strict_fs) for(auto dir : {"/z/index", "/z/data"}) { std::set<str> w{".lockfile"}; for(auto &n : ns) w.insert(n.first); strs l = vfs.list(dir); std::set<str> g(l.begin(), l.end()); if(g != w) { str gs; for(auto &x : g) gs += esc(x, 20) + " "; die(str(dir) + " holds [" + gs + "]"); } }
    if(strict_fs) { strs l = vfs.list("/z"); std::set<str> g(l.begin(), l.end()); if(g != std::set<str>{"data", "index", "sock"} && g != std::set<str>{"data", "index"}) { str gs; for(auto &x : l) gs += x + " "; die("the root directory holds [" + gs + "]"); } }
    note_state(hash());
}
