// explorer: forks per choice, shared counters, violations and replay
#include "zmc.h"
#include <dlfcn.h>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern bool in_sut;
#define MAXPATH 4096
#define SETBITS 23
#define NSAMPLES 24
#define NFINDINGS 64
struct Shm {
    std::atomic<long> slots, stop, has_violation, has_internal, execs, transitions, states, forks, aborted, truncated, depth_max;
    std::atomic<long> nsamples, nfindings;
    int path_len; uint16_t path[MAXPATH]; char msg[8192]; char imsg[2048];
    char samples[NSAMPLES][400];
    char findings[NFINDINGS][300];
    double deadline;
};
static Shm *sh;
static std::atomic<uint64_t> *hset;
static std::vector<uint16_t> path;
static size_t replay_len = 0; static bool replaying = false;
bool g_verbose = false;
static int g_thorough = 0;
static std::map<str, str> g_params;
static pid_t root_pid;
static bool own_slot = true;
static int tracefd = -1;

static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
[[noreturn]] static void raw_exit(int c) { syscall(SYS_exit_group, c); __builtin_unreachable(); }

static std::map<str, void (*)()> &suites() { static std::map<str, void (*)()> s; return s; }
SuiteReg::SuiteReg(const char *name, void (*fn)()) { suites()[name] = fn; }

static void rawlog(int fd, const char *s, size_t n) { while(n) { ssize_t r = syscall(SYS_write, fd, s, n); if(r <= 0) return; s += r; n -= r; } }
void logf(const char *f, ...) {
    if(!g_verbose) return;
    char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b - 1, f, a); va_end(a);
    if(n > (int) sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    rawlog(tracefd, b, n);
}
str fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
str esc(const str &s, size_t max) {
    str o; char b[8];
    for(size_t i = 0; i < s.size(); i++) {
        if(o.size() > max) { o += fmt("...(%zu)", s.size()); break; }
        unsigned char c = s[i];
        if(c == '\r') o += "\\r"; else if(c == '\n') o += "\\n"; else if(c == '\\') o += "\\\\";
        else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
    }
    return o;
}
uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *) p;
    while(n >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
    while(n--) { h = (h ^ *c++) * 1099511628211ull; }
    return h ^ (h >> 31);
}
bool thorough() { return g_thorough; }
int tier_pick(int q, int t) { return g_thorough ? t : q; }
long param(const char *n, long d) { auto i = g_params.find(n); return i == g_params.end() ? d : atol(i->second.c_str()); }
str sparam(const char *n, const char *d) { auto i = g_params.find(n); return i == g_params.end() ? str(d) : i->second; }

void note_transition(int n) { sh->transitions += n; }
void note_state(uint64_t h) {
    if(!h) h = 1;
    uint64_t m = (1ull << SETBITS) - 1, i = (h * 0x9E3779B97F4A7C15ull) >> (64 - SETBITS);
    for(int k = 0; k < 4096; k++, i = (i + 1) & m) {
        uint64_t v = hset[i].load();
        if(v == h) return;
        if(v == 0) { uint64_t z = 0; if(hset[i].compare_exchange_strong(z, h)) { sh->states++; return; } if(z == h) return; }
    }
}
void note_case(const str &s) {
    long n = sh->execs.load();
    // keep the first few and then some at growing distances
    if(!(n < 4 || (n & (n - 1)) == 0)) return;
    long k = sh->nsamples++;
    if(k < NSAMPLES) { str e = s.substr(0, 399); memcpy(sh->samples[k], e.c_str(), e.size() + 1); }
}
void note_finding(const char *id, const char *f, ...) {
    char b[300]; int n = snprintf(b, sizeof b, "%s\t", id); va_list a; va_start(a, f); vsnprintf(b + n, sizeof b - n, f, a); va_end(a);
    long cur = std::min<long>(sh->nfindings.load(), NFINDINGS);
    for(long i = 0; i < cur; i++) if(strcmp(sh->findings[i], b) == 0) return;
    long k = sh->nfindings++;
    if(k < NFINDINGS) memcpy(sh->findings[k], b, sizeof b);
}

static void leave(int code) {
    if(own_slot) sh->slots++;
    raw_exit(code);
}
void done_path() { sh->execs++; if(replaying) { logf("-- execution ends without violation"); raw_exit(0); } leave(0); }
void fail(const char *f, ...) {
    in_sut = false;
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if(replaying) { logf("VIOLATED: %s", b); raw_exit(3); }
    long z = 0;
    if(sh->has_violation.compare_exchange_strong(z, 1)) {
        snprintf(sh->msg, sizeof sh->msg, "%s", b);
        sh->path_len = std::min<size_t>(path.size(), MAXPATH);
        memcpy(sh->path, path.data(), sh->path_len * 2);
        sh->has_violation = 2;
    }
    sh->stop = 1;
    leave(0);
    __builtin_unreachable();
}
void internal_error(const char *f, ...) {
    in_sut = false;
    char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if(replaying) { logf("INTERNAL: %s", b); raw_exit(4); }
    long z = 0; if(sh->has_internal.compare_exchange_strong(z, 1)) { str p; for(auto x : path) p += fmt("%d ", x); snprintf(sh->imsg, sizeof sh->imsg, "%s  [path %s]", b, p.c_str()); }
    sh->stop = 1; leave(0); __builtin_unreachable();
}
pid_t real_fork();
static bool take_slot() { long s = sh->slots.load(); while(s > 0) if(sh->slots.compare_exchange_weak(s, s - 1)) return true; return false; }
int choose(int n, const char *what) {
    if(n <= 1) return 0;
    bool was = in_sut; in_sut = false;
    if(replaying) {
        int c = path.size() < replay_len ? sh->path[path.size()] : 0;
        path.push_back(c);
        if(what[0]) logf("   [choice %s: %d of %d]", what, c, n);
        in_sut = was; return c;
    }
    if(sh->stop) leave(0);
    if(now() > sh->deadline) { sh->truncated = 1; sh->stop = 1; leave(0); }
    if(path.size() >= MAXPATH - 1) internal_error("path too long");
    for(int i = n - 1; i >= 1; i--) {
        bool async = take_slot();
        sh->forks++;
        pid_t p = real_fork();
        if(p < 0) { if(async) sh->slots++; usleep(1000); i++; if(sh->forks > 100000000) internal_error("fork"); continue; }
        if(p == 0) {
            own_slot = async;
            path.push_back(i);
            in_sut = was; return i;
        }
        if(!async) {
            int st = 0; while(syscall(SYS_wait4, p, &st, 0, nullptr) < 0 && errno == EINTR);
            if(WIFSIGNALED(st)) sh->aborted++;
        } else { // reap finished asynchronous children from time to time
            int st; pid_t q; while((q = syscall(SYS_wait4, -1, &st, WNOHANG, nullptr)) > 0) if(WIFSIGNALED(st)) { sh->aborted++; }
        }
        if(sh->stop) leave(0);
    }
    path.push_back(0);
    long d = path.size(); if(d > sh->depth_max) sh->depth_max = d;
    in_sut = was; return 0;
}

static void on_signal(int sig) {
    bool sut = in_sut; in_sut = false;
    if(sig == SIGXCPU || sig == SIGPROF) { if(sut) fail("the daemon does not come back: CPU time limit reached while handling this step"); internal_error("CPU limit in the checker"); }
    if(sut) fail("the daemon crashed with signal %d (%s)", sig, strsignal(sig));
    internal_error("checker crashed with signal %d", sig);
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:print_summary=0:symbolize=0:log_path=/dev/null:use_sigaltstack=0:quarantine_size_mb=4:malloc_context_size=1:max_allocation_size_mb=512:detect_odr_violation=0"; }
extern "C" __attribute__((weak)) void *__asan_get_report_pc(); extern "C" __attribute__((weak)) const char *__asan_get_report_description(); extern "C" __attribute__((weak)) size_t __asan_get_report_access_size();
extern "C" void __asan_on_error() {
    if(!in_sut) return;
    if(__asan_get_report_pc) { Dl_info i; void *pc = __asan_get_report_pc(); if(dladdr(pc, &i)) logf("   memory error: %s of %zu bytes, at %s+0x%lx (near %s)", __asan_get_report_description(), __asan_get_report_access_size(), i.dli_fname ? i.dli_fname : "?", (long) ((char *) pc - (char *) i.dli_fbase), i.dli_sname ? i.dli_sname : "?"); fail("AddressSanitizer: %s in the daemon", __asan_get_report_description()); }
    fail("AddressSanitizer: memory error in the daemon");
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0"; }

static void setup_signals() {
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
}
static void cpu_limit(int secs) { struct rlimit r; r.rlim_cur = secs; r.rlim_max = secs + 5; setrlimit(RLIMIT_CPU, &r); r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r); }

str g_sodir = ".";
void os_init();
static str json(const str &s) { str o = "\""; char b[8]; for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

int main(int argc, char **argv) {
    str suite, replay, outreplay; int jobs = 8; double limit = 60; int cpu = 20;
    for(int i = 1; i < argc; i++) {
        str a = argv[i]; auto nx = [&]() -> str { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--suite") suite = nx(); else if(a == "--so") g_sodir = nx(); else if(a == "--jobs") jobs = atoi(nx().c_str());
        else if(a == "--limit") limit = atof(nx().c_str()); else if(a == "--thorough") g_thorough = 1;
        else if(a == "--replay") replay = nx(); else if(a == "--out") outreplay = nx(); else if(a == "--cpu") cpu = atoi(nx().c_str());
        else if(a == "--param") { str p = nx(); size_t e = p.find('='); g_params[p.substr(0, e)] = p.substr(e + 1); }
        else if(a == "--list") { for(auto &s : suites()) { rawlog(1, s.first.c_str(), s.first.size()); rawlog(1, "\n", 1); } return 0; }
    }
    if(!suites().count(suite)) { str m = "no such suite: " + suite + "\n"; rawlog(2, m.c_str(), m.size()); return 4; }
    sh = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hset = (std::atomic<uint64_t> *) mmap(nullptr, 8ull << SETBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    root_pid = getpid(); tracefd = 2;
    double t0 = now();
    sh->deadline = t0 + limit; sh->slots = jobs - 1;
    auto body = [&](bool rep) {
        setup_signals(); cpu_limit(rep ? cpu * 3 : cpu); os_init(); if(param("clock", 0)) clock_us = param("clock", 0) * 1000000ll; suites()[suite](); done_path();
    };
    if(!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); if(!f) return 4;
        char line[65536]; sh->path_len = 0;
        while(fgets(line, sizeof line, f)) if(strncmp(line, "path:", 5) == 0) { char *p = line + 5, *e; while(true) { long v = strtol(p, &e, 10); if(e == p) break; sh->path[sh->path_len++] = v; p = e; } }
        fclose(f);
        replaying = g_verbose = true; replay_len = sh->path_len; body(true);
    }
    pid_t p = real_fork(); if(p == 0) { own_slot = true; body(false); }
    while(true) { int st; pid_t q = syscall(SYS_wait4, -1, &st, 0, nullptr); if(q < 0) { if(errno == EINTR) continue; break; } if(WIFSIGNALED(st)) sh->aborted++; }
    double wall = now() - t0;
    int viol = sh->has_violation == 2; int reproduced = 0;
    if(viol && !outreplay.empty()) {
        int fd = open(outreplay.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        str h = "suite: " + suite + (g_thorough ? " (thorough)" : "") + "\nviolation: " + sh->msg + "\npath:"; for(int i = 0; i < sh->path_len; i++) h += fmt(" %d", sh->path[i]);
        h += "\nparams:"; for(auto &q : g_params) h += " " + q.first + "=" + q.second;
        h += "\nreplay: " + str(argv[0]) + " --so <dir> --suite " + suite + (g_thorough ? " --thorough" : "") + " --replay <this file>\n--- trace\n";
        rawlog(fd, h.data(), h.size());
        pid_t r = real_fork(); if(r == 0) { tracefd = fd; replaying = g_verbose = true; replay_len = sh->path_len; path.clear(); body(true); }
        int st; syscall(SYS_wait4, r, &st, 0, nullptr); reproduced = WIFEXITED(st) && WEXITSTATUS(st) == 3;
        if(!reproduced) { h = "(the replay did not reproduce the violation; it is reported as observed)\n"; rawlog(fd, h.data(), h.size()); }
        close(fd);
    }
    str o = fmt("{\"suite\": \"%s\", \"violation\": %d, \"reproduced\": %d, \"internal\": %ld, \"executions\": %ld, \"transitions\": %ld, \"states\": %ld, \"forks\": %ld, \"aborted\": %ld, \"truncated\": %ld, \"depth\": %ld, \"wall_s\": %.2f, ", suite.c_str(), viol, reproduced, (long) sh->has_internal, (long) sh->execs, (long) sh->transitions, (long) sh->states, (long) sh->forks, (long) sh->aborted, (long) sh->truncated, (long) sh->depth_max, wall);
    o += "\"message\": " + json(viol ? sh->msg : (sh->has_internal ? sh->imsg : "")) + ", \"samples\": [";
    for(long i = 0; i < std::min<long>(sh->nsamples, NSAMPLES); i++) o += (i ? ", " : "") + json(sh->samples[i]);
    o += "], \"findings\": ["; for(long i = 0; i < std::min<long>(sh->nfindings, NFINDINGS); i++) o += (i ? ", " : "") + json(sh->findings[i]);
    o += "]}\n"; rawlog(1, o.data(), o.size());
    return viol ? 1 : sh->has_internal ? 2 : 0;
}
