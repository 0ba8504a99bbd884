// reference model of the whole server: namespaces, their settings and content, connections and their rights
#pragma once
#include "model.h"
struct NsM { bool seq = false, pub = true, worm = false, fresh = true; str pass; long maxsize = 0; int lock = 0; std::vector<strs> reads; UserModel kv; SeqModel sq;
    size_t entries() const { return seq ? sq.live.size() : kv.live.size(); } };
struct CliM { str ns = "default"; bool detached = false, writable = true, admin = true; str nonce; bool gone = false; };
struct World {
    Daemon d; str adminpw; bool protect = false; int mode = 0; // 0 user, 1 seq, 2 mixed
    std::map<str, NsM> ns; std::map<int, CliM> cli; int obs = -1; strs keys; str trace; bool strict_fs = true, cursors = false; std::set<str> nonces;
    void start(const strs &extra = {});           // boots and creates the observer
    int conn();
    Reply exec(int c, const strs &a);              // runs the command, compares with the prediction, updates the model
    void verify(bool scan = true);                 // everything visible, compared with the model
    void reboot(bool sig = false);                 // clean restart; connections are gone
    uint64_t hash();
    NsM fresh_ns() const { NsM n; n.seq = mode == 1; return n; }
};
str sha1hex(const str &s);
