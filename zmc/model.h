// reference models of the two key modes, and full comparison with a running daemon
#pragma once
#include "driver.h"

struct Ver { str val; int64_t ts; };
struct UserModel {
    std::map<str, std::vector<Ver>> live;           // every version since the key was (re)created
    strs order;                                     // live keys, oldest write first
    uint64_t datasize() const { uint64_t s = 0; for(auto &k : live) s += k.second.back().val.size(); return s; }
    void set(const str &k, const str &v, int64_t ts) { live[k].push_back({v, ts}); touch(k); }
    void touch(const str &k) { order.erase(std::remove(order.begin(), order.end(), k), order.end()); order.push_back(k); }
    void del(const str &k) { live.erase(k); order.erase(std::remove(order.begin(), order.end(), k), order.end()); }
    uint64_t hash() const { uint64_t h = 5; for(auto &k : live) { h = fnvs(k.first, h); for(auto &v : k.second) h = fnvs(v.val, h) * 31 + v.ts; } for(auto &o : order) h = fnvs(o, h); return h; }
};
struct SeqModel {
    std::map<uint64_t, Ver> live; std::set<uint64_t> dead; uint64_t last = 0; bool any = false;
    std::vector<uint64_t> order;                    // live ids, increasing
    uint64_t hash() const { uint64_t h = 9; for(auto &k : live) h = fnvs(k.second.val, h * 31 + k.first); for(auto d : dead) h = h * 131 + d; return h * 7 + last; }
};
extern long step_us;                                 // time between two operations (0: all within the same second)
int64_t vnow();                                      // virtual time in seconds

// every read command, on every key of the alphabet
enum { V_GET = 1, V_META = 2, V_CHECK = 4, V_STATS = 8, V_SCAN = 16, V_RSCAN = 32, V_HISTORY = 64, V_ALL = 127, V_BASIC = V_GET | V_META | V_CHECK };
void verify_user(Daemon &d, int c, const UserModel &m, const strs &keys, int what);
void verify_seq(Daemon &d, int c, const SeqModel &m, int what, bool deadcheck = true);
// one step: executes the command, checks the reply against the model, updates the model
void user_set(Daemon &d, int c, UserModel &m, const str &k, const str &v);
void user_del(Daemon &d, int c, UserModel &m, const str &k);
str seq_insert(Daemon &d, int c, SeqModel &m, const str &v);
void seq_update(Daemon &d, int c, SeqModel &m, uint64_t id, const str &v);
void seq_del(Daemon &d, int c, SeqModel &m, uint64_t id);
struct ScanItem { str key; long long len; long long ts; };
std::vector<ScanItem> scan_all(Daemon &d, int c, const char *cmd, const str &from = "", bool *started = nullptr);
// namespace administration: settings and content of a namespace as clients see them
struct NsState { bool exists = false; str pass; bool pub = true, worm = false; long maxsize = 0; std::map<str, str> kv; bool operator==(const NsState &o) const { return exists == o.exists && (!exists || (pass == o.pass && pub == o.pub && worm == o.worm && maxsize == o.maxsize && kv == o.kv)); } str show() const { if(!exists) return "absent"; str s = fmt("{password \"%s\", public %d, worm %d, limit %ld,", pass.c_str(), pub, worm, maxsize); for(auto &k : kv) s += " " + k.first; return s + "}"; } };
NsState ns_look(Daemon &d, const str &name, const strs &passwords, const strs &keys);
