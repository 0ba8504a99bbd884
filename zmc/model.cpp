#include "model.h"
long step_us = 1000000;
int64_t vnow() { return clock_us / 1000000; }
static str K(const str &k) { return esc(k, 24); }
void user_set(Daemon &d, int c, UserModel &m, const str &k, const str &v) {
    advance(step_us);
    int64_t ts = vnow();
    Reply r = d.cmd(c, {"SET", k, v});
    auto i = m.live.find(k);
    if(i != m.live.end() && i->second.back().val == v) { CHECK(r.nil(), "SET of the identical value of %s answers %s instead of nil", K(k).c_str(), r.show().c_str()); return; }
    CHECK(r.bulk(k), "SET %s answers %s instead of the key", K(k).c_str(), r.show().c_str());
    m.set(k, v, ts);
}
void user_del(Daemon &d, int c, UserModel &m, const str &k) {
    advance(step_us);
    Reply r = d.cmd(c, {"DEL", k});
    if(m.live.count(k)) { CHECK(r.ok(), "DEL of the live key %s answers %s", K(k).c_str(), r.show().c_str()); m.del(k); }
    else CHECK(r.err(), "DEL of the missing key %s answers %s instead of an error", K(k).c_str(), r.show().c_str());
}
std::vector<ScanItem> scan_all(Daemon &d, int c, const char *cmd, const str &from, bool *started) {
    std::vector<ScanItem> out; str cur = from; int guard = 0;
    while(true) {
        if(++guard > 500) fail("%s never ends", cmd);
        Reply r = cur.empty() ? d.cmd(c, {cmd}) : d.cmd(c, {cmd, cur});
        if(r.err()) { CHECK(r.s == "No more data" || r.has("No more data"), "%s answers the error %s", cmd, r.show().c_str()); break; }
        CHECK(r.t == '*' && r.a.size() == 2 && r.a[0].t == '$' && r.a[1].t == '*', "%s answers %s", cmd, r.show().c_str());
        CHECK(!r.a[1].a.empty(), "%s answers an empty slice", cmd);
        if(started) *started = true;
        for(auto &e : r.a[1].a) {
            CHECK(e.t == '*' && e.a.size() == 3 && e.a[0].t == '$' && e.a[1].t == ':' && e.a[2].t == ':', "%s answers the entry %s", cmd, e.show().c_str());
            out.push_back({e.a[0].s, e.a[1].n, e.a[2].n});
        }
        CHECK(out.size() < 5000, "%s returns more and more entries", cmd);
        cur = r.a[0].s;
    }
    return out;
}
static void check_scan(const char *cmd, const std::vector<ScanItem> &got, const std::vector<ScanItem> &want) {
    str g, w; for(auto &x : got) g += K(x.key) + " "; for(auto &x : want) w += K(x.key) + " ";
    CHECK(got.size() == want.size(), "%s lists [%s] instead of [%s]", cmd, g.c_str(), w.c_str());
    for(size_t i = 0; i < got.size(); i++) {
        CHECK(got[i].key == want[i].key, "%s lists [%s] instead of [%s]", cmd, g.c_str(), w.c_str());
        CHECK(got[i].len == want[i].len, "%s: size of %s is %lld instead of %lld", cmd, K(got[i].key).c_str(), got[i].len, want[i].len);
        CHECK(got[i].ts == want[i].ts, "%s: timestamp of %s is %lld instead of %lld", cmd, K(got[i].key).c_str(), got[i].ts, want[i].ts);
    }
}
static void check_stats(Daemon &d, int c, size_t entries, long long size) {
    Reply r = d.cmd(c, {"DBSIZE"}); CHECK(r.is(entries), "DBSIZE answers %s instead of %zu", r.show().c_str(), entries);
    if(size < 0) return;
    Reply i = d.cmd(c, {"NSINFO", "default"});
    str e = info_field(i.s, "entries"), s = info_field(i.s, "data_size_bytes");
    CHECK(e == fmt("%zu", entries), "NSINFO reports %s entries instead of %zu", e.c_str(), entries);
    CHECK(s == fmt("%lld", size), "NSINFO reports a data size of %s instead of %lld", s.c_str(), size);
}
void verify_user(Daemon &d, int c, const UserModel &m, const strs &keys, int what) {
    strs mget{"MGET"}; 
    for(auto &k : keys) {
        if(k.empty() || k.size() > 255) continue;
        auto i = m.live.find(k); bool live = i != m.live.end(); const Ver *v = live ? &i->second.back() : nullptr;
        if(what & V_GET) {
            Reply r = d.cmd(c, {"GET", k});
            if(live) CHECK(r.bulk(v->val), "GET %s answers %s instead of \"%s\"", K(k).c_str(), r.show().c_str(), esc(v->val, 40).c_str());
            else CHECK(r.nil(), "GET of the missing key %s answers %s", K(k).c_str(), r.show().c_str());
            mget.push_back(k);
        }
        if(what & V_META) {
            Reply r = d.cmd(c, {"EXISTS", k}); CHECK(r.is(live), "EXISTS %s answers %s", K(k).c_str(), r.show().c_str());
            r = d.cmd(c, {"LENGTH", k});
            if(live) CHECK(r.is(v->val.size()), "LENGTH %s answers %s instead of %zu", K(k).c_str(), r.show().c_str(), v->val.size()); else CHECK(r.nil(), "LENGTH of the missing key %s answers %s", K(k).c_str(), r.show().c_str());
            r = d.cmd(c, {"KEYTIME", k});
            if(live) CHECK(r.is(v->ts), "KEYTIME %s answers %s instead of %ld", K(k).c_str(), r.show().c_str(), (long) v->ts); else CHECK(r.nil(), "KEYTIME of the missing key %s answers %s", K(k).c_str(), r.show().c_str());
        }
        if(what & V_CHECK) {
            Reply r = d.cmd(c, {"CHECK", k});
            if(live) CHECK(r.is(1), "CHECK of the intact key %s answers %s", K(k).c_str(), r.show().c_str()); else CHECK(r.nil(), "CHECK of the missing key %s answers %s", K(k).c_str(), r.show().c_str());
        }
        if(what & V_HISTORY) {
            if(!live) { Reply r = d.cmd(c, {"HISTORY", k}); CHECK(r.err(), "HISTORY of the missing key %s answers %s", K(k).c_str(), r.show().c_str()); continue; }
            str cur; const auto &h = i->second;
            for(size_t n = h.size(); n > 0; n--) {
                Reply r = cur.empty() ? d.cmd(c, {"HISTORY", k}) : d.cmd(c, {"HISTORY", k, cur});
                CHECK(r.t == '*' && r.a.size() == 3, "HISTORY %s answers %s at version %zu of %zu", K(k).c_str(), r.show().c_str(), n, h.size());
                CHECK(r.a[2].bulk(h[n - 1].val), "HISTORY %s: version %zu is %s instead of \"%s\"", K(k).c_str(), n, r.a[2].show().c_str(), esc(h[n - 1].val, 40).c_str());
                str ts = r.a[1].t == ':' ? fmt("%lld", r.a[1].n) : r.a[1].s;
                CHECK(ts == fmt("%ld", (long) h[n - 1].ts), "HISTORY %s: timestamp of version %zu is %s instead of %ld", K(k).c_str(), n, r.a[1].show().c_str(), (long) h[n - 1].ts);
                if(n > 1) { CHECK(r.a[0].t == '$', "HISTORY %s ends at version %zu of %zu", K(k).c_str(), n, h.size()); cur = r.a[0].s; }
                else CHECK(r.a[0].nil(), "HISTORY %s continues after the oldest version", K(k).c_str());
            }
        }
    }
    if((what & V_GET) && mget.size() > 1) {
        Reply r = d.cmd(c, mget); CHECK(r.t == '*' && r.a.size() == mget.size() - 1, "MGET answers %s", r.show().c_str());
        for(size_t j = 1; j < mget.size(); j++) { auto i = m.live.find(mget[j]); if(i == m.live.end()) CHECK(r.a[j - 1].nil(), "MGET of the missing key %s answers %s", K(mget[j]).c_str(), r.a[j - 1].show().c_str()); else CHECK(r.a[j - 1].bulk(i->second.back().val), "MGET %s answers %s", K(mget[j]).c_str(), r.a[j - 1].show().c_str()); }
    }
    if(what & V_STATS) check_stats(d, c, m.live.size(), m.datasize());
    if(what & (V_SCAN | V_RSCAN)) {
        std::vector<ScanItem> want; for(auto &k : m.order) { auto &v = m.live.at(k).back(); want.push_back({k, (long long) v.val.size(), v.ts}); }
        if(what & V_SCAN) check_scan("SCAN", scan_all(d, c, "SCAN"), want);
        if(what & V_RSCAN) { std::reverse(want.begin(), want.end()); check_scan("RSCAN", scan_all(d, c, "RSCAN"), want); }
    }
}
str seq_insert(Daemon &d, int c, SeqModel &m, const str &v) {
    advance(step_us); int64_t ts = vnow();
    Reply r = d.cmd(c, {"SET", "", v});
    CHECK(r.t == '$' && r.s.size() == 8, "sequential SET answers %s instead of an 8-byte id", r.show().c_str());
    uint64_t id = rd64(r.s, 0);
    CHECK(!m.any || id > m.last, "sequential SET answers the id %lu, not greater than the id %lu given before", (unsigned long) id, (unsigned long) m.last);
    m.last = id; m.any = true; m.live[id] = {v, ts}; m.order.push_back(id);
    return r.s;
}
void seq_update(Daemon &d, int c, SeqModel &m, uint64_t id, const str &v) {
    advance(step_us); int64_t ts = vnow();
    Reply r = d.cmd(c, {"SET", le64(id), v});
    auto i = m.live.find(id);
    if(i == m.live.end()) { CHECK(r.err(), "SET on the unknown or deleted id %lu answers %s instead of an error", (unsigned long) id, r.show().c_str()); return; }
    if(i->second.val == v) { CHECK(r.nil(), "SET of the identical value of id %lu answers %s instead of nil", (unsigned long) id, r.show().c_str()); return; }
    CHECK(r.bulk(le64(id)), "update of id %lu answers %s", (unsigned long) id, r.show().c_str());
    i->second = {v, ts};  // an updated id keeps its place in the enumeration
}
void seq_del(Daemon &d, int c, SeqModel &m, uint64_t id) {
    advance(step_us);
    Reply r = d.cmd(c, {"DEL", le64(id)});
    if(m.live.count(id)) { CHECK(r.ok(), "DEL of the live id %lu answers %s", (unsigned long) id, r.show().c_str()); m.live.erase(id); m.dead.insert(id); m.order.erase(std::remove(m.order.begin(), m.order.end(), id), m.order.end()); }
    else CHECK(r.err(), "DEL of the unknown or deleted id %lu answers %s instead of an error", (unsigned long) id, r.show().c_str());
}
void verify_seq(Daemon &d, int c, const SeqModel &m, int what, bool deadcheck) {
    for(auto &p : m.live) {
        str k = le64(p.first); auto &v = p.second;
        if(what & V_GET) { Reply r = d.cmd(c, {"GET", k}); CHECK(r.bulk(v.val), "GET of id %lu answers %s instead of \"%s\"", (unsigned long) p.first, r.show().c_str(), esc(v.val, 40).c_str()); }
        if(what & V_META) {
            Reply r = d.cmd(c, {"EXISTS", k}); CHECK(r.is(1), "EXISTS of id %lu answers %s", (unsigned long) p.first, r.show().c_str());
            r = d.cmd(c, {"LENGTH", k}); CHECK(r.is(v.val.size()), "LENGTH of id %lu answers %s instead of %zu", (unsigned long) p.first, r.show().c_str(), v.val.size());
            r = d.cmd(c, {"KEYTIME", k}); CHECK(r.is(v.ts), "KEYTIME of id %lu answers %s instead of %ld", (unsigned long) p.first, r.show().c_str(), (long) v.ts);
        }
        if(what & V_CHECK) { Reply r = d.cmd(c, {"CHECK", k}); CHECK(r.is(1), "CHECK of the intact id %lu answers %s", (unsigned long) p.first, r.show().c_str()); }
    }
    if(deadcheck) for(auto id : m.dead) { Reply r = d.cmd(c, {"GET", le64(id)}); CHECK(r.nil(), "GET of the deleted id %lu answers %s", (unsigned long) id, r.show().c_str()); r = d.cmd(c, {"EXISTS", le64(id)}); CHECK(r.is(0), "EXISTS of the deleted id %lu answers %s", (unsigned long) id, r.show().c_str()); }
    if(what & (V_SCAN | V_RSCAN)) {
        std::vector<ScanItem> want; for(auto id : m.order) { auto &v = m.live.at(id); want.push_back({le64(id), (long long) v.val.size(), v.ts}); }
        auto cmp = [&](const char *cmd, std::vector<ScanItem> w) {
            auto g = scan_all(d, c, cmd); str gs, ws; for(auto &x : g) gs += fmt("%lu ", (unsigned long) rd64(x.key, 0)); for(auto &x : w) ws += fmt("%lu ", (unsigned long) rd64(x.key, 0));
            CHECK(g.size() == w.size(), "%s lists the ids [%s] instead of [%s]", cmd, gs.c_str(), ws.c_str());
            for(size_t i = 0; i < g.size(); i++) { CHECK(g[i].key == w[i].key, "%s lists the ids [%s] instead of [%s]", cmd, gs.c_str(), ws.c_str()); CHECK(g[i].len == w[i].len && g[i].ts == w[i].ts, "%s: entry of id %lu has size %lld time %lld", cmd, (unsigned long) rd64(g[i].key, 0), g[i].len, g[i].ts); }
        };
        if(what & V_SCAN) cmp("SCAN", want);
        if(what & V_RSCAN) { std::reverse(want.begin(), want.end()); cmp("RSCAN", want); }
    }
}

// the namespace as clients see it
NsState ns_look(Daemon &d, const str &name, const strs &passwords, const strs &keys) {
    NsState s; int c = d.conn();
    Reply r = d.cmd(c, {"NSLIST"}); bool listed = false; for(auto &x : r.a) listed = listed || x.s == name;
    Reply i = d.cmd(c, {"NSINFO", name});
    CHECK(listed == !i.err(), "NSLIST and NSINFO disagree on the existence of %s", name.c_str());
    if(!listed) { Reply t = d.cmd(c, {"SELECT", name}); CHECK(t.err(), "SELECT of the absent namespace %s answers %s", name.c_str(), t.show().c_str()); d.hangup(c); return s; }
    s.exists = true; s.pub = info_field(i.s, "public") == "yes"; s.worm = info_field(i.s, "worm") == "yes"; s.maxsize = atol(info_field(i.s, "data_limits_bytes").c_str());
    bool prot = info_field(i.s, "password") == "yes"; s.pass = prot ? "?" : "";
    if(prot) for(auto &p : passwords) { int e = d.conn(); Reply t = d.cmd(e, {"SELECT", name, p}); if(t.ok()) { s.pass = p; } d.hangup(e); }
    int e = d.conn(); Reply t = s.pass.empty() ? d.cmd(e, {"SELECT", name}) : d.cmd(e, {"SELECT", name, s.pass});
    if(t.ok()) for(auto &k : keys) { Reply g = d.cmd(e, {"GET", k}); if(g.t == '$') s.kv[k] = g.s; else CHECK(g.nil(), "GET %s in %s answers %s", k.c_str(), name.c_str(), g.show().c_str()); }
    d.hangup(e); d.hangup(c);
    return s;
}
