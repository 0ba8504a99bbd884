// zmc: explicit-state exploration of the real 0-db daemon.
//
// The daemon is loaded as a shared object and run on a coroutine; every system call it makes is
// answered by a deterministic in-memory operating system (os.cpp). A suite is a straight-line
// driver; choose(n) forks the whole process (checker, daemon, files, sockets) once per
// alternative, so that every combination of choices is executed exactly once.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef std::string str;
typedef std::vector<str> strs;

// ---------------------------------------------------------------- explorer
int choose(int n, const char *what = "");           // 0..n-1, every alternative explored
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // replay trace only
extern bool g_verbose;                                // true when replaying
void note_state(uint64_t h);                          // count a distinct state
void note_transition(int n = 1);
void note_case(const str &s);                         // sample of an execution (first ones kept)
void note_finding(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void done_path();                                     // end of this execution
bool thorough();
int tier_pick(int quick, int thoro);
long param(const char *name, long dflt);              // --param name=value
str sparam(const char *name, const char *dflt);
#define CHECK(cond, ...) do { if(!(cond)) fail(__VA_ARGS__); } while(0)
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
static inline uint64_t fnvs(const str &s, uint64_t h = 1469598103934665603ull) { h = fnv(s.data(), s.size(), h); uint64_t n = s.size(); return fnv(&n, sizeof n, h); }
str esc(const str &s, size_t max = 80);               // printable form
str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- virtual files
struct PendingWrite { uint64_t seq; int ino; long off; str data; bool trunc; };
struct Inode {
    int id; bool dir = false; str data; std::map<str, int> kids; long mtime = 0;
    int lock_owner = -1;                              // open file description holding flock
    str durable; bool dur_dirty = false;              // content as of the last flush
};
struct Vfs {
    std::map<int, std::shared_ptr<Inode>> inodes; int next = 2; uint64_t seq = 0;
    bool track = false;                               // record unflushed writes
    std::vector<PendingWrite> pending;
    bool readonly = false; strs ro_dirs;             // file systems which refuse every change
    bool ro(const str &p) const { if(readonly) return true; for(auto &d : ro_dirs) if(!p.compare(0, d.size(), d) && (p.size() == d.size() || p[d.size()] == '/')) return true; return false; }
    Vfs();
    int lookup(const str &path, str *leaf = nullptr, int *parent = nullptr);
    Inode *get(const str &path);
    Inode *ino(int id) { auto i = inodes.find(id); return i == inodes.end() ? nullptr : i->second.get(); }
    void mkdirs(const str &path);
    void put(const str &path, const str &data);
    bool exists(const str &path) { return get(path) != nullptr; }
    str read(const str &path);
    bool rm(const str &path);
    void rmtree(const str &path);
    strs list(const str &path);                       // names, sorted
    uint64_t hash(const str &path);
    std::map<str, str> snapshot(const str &path);      // path -> content, of every file below
    void flush_all();
};
extern Vfs vfs;

// ---------------------------------------------------------------- system call points
enum SysKind { SK_OPEN, SK_CREATE, SK_WRITE, SK_READ, SK_FSYNC, SK_UNLINK, SK_MKDIR, SK_TRUNC, SK_SEEK, SK_CLOSE, SK_STAT, SK_FALLOC, SK_RENAME, SK_OPENDIR, SK_FLOCK };
static inline bool sk_mutates(SysKind k) { return k == SK_CREATE || k == SK_WRITE || k == SK_UNLINK || k == SK_MKDIR || k == SK_TRUNC || k == SK_RENAME; }
const char *sk_name(SysKind k);
struct SysAct { int err = 0; long limit = -1; bool crash = false; bool crash_after = false; };
// called at every file operation made by the daemon; len is the byte count for reads and writes
extern std::function<SysAct(SysKind, const str &path, long len)> sys_hook;
extern long vfs_write_pos;                             // offset of the write being decided

// ---------------------------------------------------------------- clock, entropy
extern int64_t clock_us;                              // virtual time
extern std::function<void()> clock_hook;              // called at each reading by the daemon
extern uint64_t entropy_state;
extern uint64_t fs_blocks_free;

// ---------------------------------------------------------------- hooks (fork/exec) of the daemon
struct HookCall { strs argv; bool waited = false; bool running = true; int status = 0; int pid = 0, parent = 0; };
extern std::vector<HookCall> hook_calls;
// outcome: >=0 exit status, -1 keeps running (reported as such by non-blocking waits)
extern std::function<int(const strs &)> hook_outcome;
void hook_finish(size_t n, int status);                // the running hook number n ends
extern int orphans;                                    // finished processes left to the daemon by programs it started
extern std::string *sut_output;                        // when set, receives what the code under test prints on its standard output
extern int fork_errno;                                 // when non-zero, fork fails

// ---------------------------------------------------------------- sockets
struct VSock {
    int id; bool listening = false; bool opened = false; bool unixs = false; str addr, host;
    std::vector<int> backlog;
    str rx; size_t rxpos = 0; str tx; bool peer_closed = false, sut_closed = false, reset = false;
    std::vector<str> rx_later;                         // chunks that may arrive during a recv
    long sndcap = -1;                                  // bytes the socket still accepts, -1: no limit
    bool reg = false; uint32_t mask = 0; uint64_t evdata = 0;
    bool ev_in = false, ev_out = false, was_full = false, shut_sent = false;
};
extern std::map<int, std::shared_ptr<VSock>> socks;
// how many bytes of n does this send accept (-1: would block, -2: EPIPE/ECONNRESET)
extern std::function<long(VSock &, long n)> send_hook;
extern std::function<void(VSock &)> recv_hook;

// ---------------------------------------------------------------- daemon instances
enum RunStatus { RS_IDLE, RS_EXIT, RS_CRASH, RS_DEAD };
struct Instance;
Instance *instance_load(const char *sofile);
Instance *inst_main();                                 // the daemon (z.so)
Instance *inst_second();                               // another copy of the daemon
Instance *inst_tool(const str &name);                  // a tool of the repository
RunStatus inst_start(Instance *, const strs &argv);    // main(argc, argv) until idle/exit/crash
RunStatus inst_call(Instance *, std::function<void()> f); // run f as the instance's process
RunStatus inst_run(Instance *, bool timeout = false);  // deliver events until idle
[[noreturn]] void inst_leave(int code);                // from inside: the running process ends
RunStatus inst_signal(Instance *, int sig);            // run the installed handler
void inst_kill(Instance *);                            // the process dies here
void inst_reset(Instance *);                           // pristine image for the next start
struct Held { long blocks = 0, bytes = 0, fds = 0; };
Held inst_held(Instance *);                            // memory and descriptors held (plain builds)
struct Traffic { uint64_t rx = 0, tx = 0, clients = 0, wrote[2] = {0, 0}, got[2] = {0, 0}; };   // wrote, got: data files, index files
Traffic inst_traffic(Instance *);                      // what the instance's system calls moved since its start
bool inst_alive(Instance *);
int inst_exit_code(Instance *);
void *inst_sym(Instance *, const char *name);
extern int bucket_bits;                                // 0: leave the default index table
extern long inst_set_datasize;                         // 0: leave
extern uint64_t stall_limit;                           // system calls without idling
strs inst_listeners(Instance *);                       // "unix:path", "tcp:port@host"
extern int net_errno[3];                               // socket, bind, listen fail with this error
int inst_connect(Instance *, const str &to = "");      // new connection (to the first listener), returns socket id

// ---------------------------------------------------------------- suites
struct SuiteReg { SuiteReg(const char *name, void (*fn)()); };
#define SUITE(name) static void suite_##name(); static SuiteReg reg_##name(#name, suite_##name); static void suite_##name()
