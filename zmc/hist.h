// histories of one namespace together with the data log they must leave behind
#pragma once
#include "model.h"
struct Rec { int file = 0; uint32_t off = 0; str id, val; bool del = false, bad = false; int64_t ts = 0; uint32_t crc = 0, prev = 0; };
struct Hist {
    Daemon d; int c = -1; bool seq = false; UserModel m; SeqModel q; std::vector<Rec> log; std::vector<uint64_t> given; str trace;
    strs keys{"k1", "k2"}, vals{"v1", "value-2"}; std::vector<str> extras; bool update = true; // NSJUMP RELOAD STOP TERM KILL READS BAD IDLE
    Hist(Instance *i = nullptr) : d(i) {}
    void start(const strs &args = {}) { d.extra = {"--mode", seq ? "seq" : "user"}; for(auto &x : args) d.extra.push_back(x); d.boot(); c = d.conn(); }
    void reconnect() { c = d.conn(); }
    void step();                                       // one chosen operation
    void verify(int what) { if(seq) verify_seq(d, c, q, what); else verify_user(d, c, m, keys, what); }
    uint64_t hash() const { return seq ? q.hash() : m.hash(); }
};
extern int log_flags;                               // flags a record may have
std::vector<Rec> parse_log(const str &ns = "default", bool crashed = false);  // every record of every data file, fails on malformed content (crashed: the last file may be a file whose creation was interrupted)
void compare_log(const std::vector<Rec> &got, const std::vector<Rec> &want, const str &how);
void rebuild(const str &mode, const str &ns, const str &how, const strs &more = {});   // index removed and rebuilt by the tool
