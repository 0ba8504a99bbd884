// client side: RESP, connections, the daemon's life cycle
#pragma once
#include "zmc.h"
#include <algorithm>
#include <cstring>

struct Reply {
    char t = 0;            // '+', '-', ':', '$', '*', 'n' nil bulk, 'N' nil array, 'X' connection closed, '?' nothing
    str s; long long n = 0; std::vector<Reply> a; bool closed = false;
    bool err() const { return t == '-'; }
    bool ok() const { return t == '+' && s == "OK"; }
    bool nil() const { return t == 'n' || t == 'N'; }
    bool bulk(const str &v) const { return t == '$' && s == v; }
    bool is(long long v) const { return t == ':' && n == v; }
    bool has(const char *sub) const { return s.find(sub) != str::npos; }
    str show() const;
};
// parse one reply at pos; returns false when incomplete; bad framing sets *bad
bool resp_parse(const str &b, size_t &pos, Reply &r, bool *bad);
str resp_cmd(const strs &a);                 // *n $len ... encoding

struct Crashed {};                            // the daemon process died (injected crash)
struct Exited { int code; };                  // the daemon left on its own
void sock_push(Instance *i, int id, const str &d);
void sock_close(Instance *i, int id, bool rst);
void sock_writable(Instance *i, int id, long cap);

struct Daemon {
    Instance *in; strs extra; str dir = "/z"; bool tcp = false;
    Daemon(Instance *i = nullptr) : in(i ? i : inst_main()) {}
    strs argv() const;
    RunStatus start();                        // RS_IDLE when serving
    void boot();                              // start and insist on serving
    int conn();                               // socket id
    void run(bool timeout = false);           // deliver pending events; throws Crashed, Exited
    void tick(int n = 1) { while(n--) run(true); }
    void push(int c, const str &bytes) { sock_push(in, c, bytes); }
    void hangup(int c, bool rst = false) { sock_close(in, c, rst); run(); }
    str take(int c);                          // bytes sent to this connection since the last take
    bool closed(int c);
    Reply cmd(int c, const strs &a);          // exactly one reply, or the connection is closed
    Reply recv1(int c);                       // the reply that is already there
    void stop(int c);                         // STOP and a clean exit
    void stop();                              // through a fresh connection
    void term(int sig = 15);                              // clean stop by SIGTERM
    void crash() { inst_kill(in); }
    void restart() { stop(); boot(); }
};
extern long first_jumps;                     // files created before the history begins (also --param jumps=N)
str data_dir(const str &ns = "default");
str index_dir(const str &ns = "default");
str le64(uint64_t v); str le32(uint32_t v);
uint64_t rd64(const str &s, size_t o); uint32_t rd32(const str &s, size_t o);
void advance(int64_t us);
uint32_t crc32c(const str &s);
uint32_t crc32z(const str &s);                   // without initial and final inversion (what records store)
str crc32c_partner(const str &s);             // another value of the same length and checksum
str info_field(const str &text, const char *name);
