// the operating system the daemon sees: files, sockets, epoll, clock, entropy, processes
#include "zmc.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <ftw.h>
#include <link.h>
#include <netdb.h>
#include <netinet/in.h>
#include <spawn.h>
#include <sys/epoll.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#undef stdout
#undef stderr
extern "C" FILE *stdout, *stderr;

bool in_sut = false;
struct Host { bool was; Host() : was(in_sut) { in_sut = false; } ~Host() { in_sut = was; } };
bool sut_enter(bool in) { bool was = in_sut; in_sut = in; return was; }
Vfs vfs;
std::function<SysAct(SysKind, const str &, long)> sys_hook;
long vfs_write_pos;
int64_t clock_us = 1700000000ll * 1000000;
std::function<void()> clock_hook;
uint64_t entropy_state = 0x1234567;
uint64_t fs_blocks_free = 1 << 20;
std::vector<HookCall> hook_calls;
std::function<int(const strs &)> hook_outcome;
str *sut_output = nullptr; int fork_errno = 0;
int orphans = 0; static int hook_epoch = 0;
std::map<int, std::shared_ptr<VSock>> socks;
std::function<long(VSock &, long)> send_hook;
std::function<void(VSock &)> recv_hook;
int bucket_bits = 6;
long inst_set_datasize = 0;
uint64_t stall_limit = 400000;
static int next_sock = 1, next_ofd = 1;
extern str g_sodir;

const char *sk_name(SysKind k) { static const char *n[] = {"open", "create", "write", "read", "fsync", "unlink", "mkdir", "truncate", "seek", "close", "stat", "fallocate", "rename", "opendir", "flock"}; return n[k]; }

// ------------------------------------------------------------------ VFS
Vfs::Vfs() { auto r = std::make_shared<Inode>(); r->id = 1; r->dir = true; inodes[1] = r; }
static strs split(const str &p) {
    strs o; size_t i = 0;
    while(i < p.size()) { size_t j = p.find('/', i); if(j == str::npos) j = p.size(); str c = p.substr(i, j - i); i = j + 1; if(c.empty() || c == ".") continue; if(c == "..") { if(o.size()) o.pop_back(); continue; } o.push_back(c); }
    return o;
}
// strict walk: ".." is resolved on the tree, so "missing/.." fails like it does on a real system
int Vfs::lookup(const str &p, str *leaf, int *parent) {
    int cur = 1, par = 1; str last; std::vector<int> stack{1};
    size_t i = 0; bool missing = false;
    while(i < p.size()) {
        size_t j = p.find('/', i); if(j == str::npos) j = p.size();
        str c = p.substr(i, j - i); i = j + 1; if(c.empty()) continue;
        if(missing) return -ENOENT;
        Inode *n = ino(cur); if(!n->dir) return -ENOTDIR;
        if(c == ".") continue;
        if(c.size() > 255) return -ENAMETOOLONG;
        if(c == "..") { if(stack.size() > 1) stack.pop_back(); cur = stack.back(); last = ""; continue; }
        par = cur; last = c;
        auto k = n->kids.find(c);
        if(k == n->kids.end()) { missing = true; continue; }
        cur = k->second; stack.push_back(cur);
    }
    if(leaf) *leaf = last;
    if(parent) *parent = par;
    return missing ? -ENOENT : cur;
}
Inode *Vfs::get(const str &p) { int i = lookup(p); return i < 0 ? nullptr : ino(i); }
static int mknode(Vfs &v, int parent, const str &leaf, bool dir) {
    auto n = std::make_shared<Inode>(); n->id = v.next++; n->dir = dir; n->mtime = clock_us / 1000000; v.inodes[n->id] = n; v.ino(parent)->kids[leaf] = n->id; return n->id;
}
void Vfs::mkdirs(const str &p) { int cur = 1; for(auto &c : split(p)) { Inode *n = ino(cur); auto k = n->kids.find(c); cur = k == n->kids.end() ? mknode(*this, cur, c, true) : k->second; } }
void Vfs::put(const str &p, const str &d) {
    str leaf; int par; int i = lookup(p, &leaf, &par); if(i < 0) i = mknode(*this, par, leaf, false);
    Inode *n = ino(i); n->data = d; n->durable = d;
}
str Vfs::read(const str &p) { Inode *n = get(p); return n ? n->data : ""; }
bool Vfs::rm(const str &p) { str leaf; int par; int i = lookup(p, &leaf, &par); if(i < 0) return false; ino(par)->kids.erase(leaf); inodes.erase(i); return true; }
static void rmrec(Vfs &v, int id) { Inode *n = v.ino(id); if(!n) return; auto k = n->kids; for(auto &x : k) rmrec(v, x.second); v.inodes.erase(id); }
void Vfs::rmtree(const str &p) { str leaf; int par; int i = lookup(p, &leaf, &par); if(i < 0) return; rmrec(*this, i); ino(par)->kids.erase(leaf); }
strs Vfs::list(const str &p) { strs o; Inode *n = get(p); if(n) for(auto &k : n->kids) o.push_back(k.first); return o; }
static void snap(Vfs &v, Inode *n, const str &p, std::map<str, str> &o) { if(!n->dir) { o[p] = n->data; return; } for(auto &k : n->kids) snap(v, v.ino(k.second), p + "/" + k.first, o); }
std::map<str, str> Vfs::snapshot(const str &p) { std::map<str, str> o; Inode *n = get(p); if(n) snap(*this, n, p, o); return o; }
uint64_t Vfs::hash(const str &p) { uint64_t h = 7; for(auto &f : snapshot(p)) h = fnvs(f.second, fnvs(f.first, h)); return h; }
void Vfs::flush_all() { pending.clear(); for(auto &i : inodes) i.second->durable = i.second->data; }

// ------------------------------------------------------------------ instances
struct Epoll { struct Item { int fd; uint32_t mask; uint64_t data; int sock; }; std::map<int, Item> items; };
struct Ofd { int id; std::shared_ptr<Inode> ino; str path; long pos = 0; int flags = 0; int sock = 0; std::shared_ptr<Epoll> ep; bool special = false, cloexec = false; };
struct Seg { char *addr; size_t len; char *pristine; };
// plain copies: the image of the daemon contains AddressSanitizer red zones
static void raw_copy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static char *raw_dup(const char *s, size_t n) { char *d = (char *) malloc(n); raw_copy(d, s, n); return d; }
struct Instance {
    str so, name; void *h = nullptr; int (*mainfn)(int, char **) = nullptr; std::vector<Seg> segs; bool dirty = false;
    ucontext_t ctx, drv; char *stack = nullptr; size_t stacklen = 8 << 20;
    bool alive = false; RunStatus status = RS_DEAD; int code = -1, epoch = 0; bool timeout = false, tuned = false; uint64_t calls = 0;
    std::map<int, std::shared_ptr<Ofd>> fds; std::map<int, void (*)(int)> handlers;
    std::vector<int> ready;                              // socket ids, in arrival order
    std::function<void()> body; strs argv; std::vector<char *> cargv;
    std::map<str, int> listeners; Traffic traffic;
};
static Instance *cur = nullptr;
static std::map<str, Instance *> loaded;
typedef int pid_type;

pid_t real_fork() { static pid_t (*f)() = (pid_t(*)()) dlsym(RTLD_NEXT, "fork"); return f(); }

struct PhArg { ElfW(Addr) base; Instance *i; };
static int ph_cb(struct dl_phdr_info *info, size_t, void *a) {
    PhArg *pa = (PhArg *) a; if(info->dlpi_addr != pa->base) return 0;
    uintptr_t rs = 0, re = 0;
    for(int k = 0; k < info->dlpi_phnum; k++) if(info->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = info->dlpi_addr + info->dlpi_phdr[k].p_vaddr; re = (rs + info->dlpi_phdr[k].p_memsz) & ~4095ul; rs &= ~4095ul; }
    for(int k = 0; k < info->dlpi_phnum; k++) {
        auto &p = info->dlpi_phdr[k]; if(p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        uintptr_t s = info->dlpi_addr + p.p_vaddr, e = s + p.p_memsz;
        if(rs && s < re && e > rs) s = re;                // RELRO starts the writable segment
        if(s < e) pa->i->segs.push_back({(char *) s, e - s, raw_dup((char *) s, e - s)});
    }
    return 1;
}
Instance *instance_load(const char *file) {
    Host hst;
    str key = file; if(loaded.count(key)) return loaded[key];
    Instance *i = new Instance; i->so = key;
    str full = g_sodir + "/" + key;
    i->h = dlopen(full.c_str(), RTLD_NOW | RTLD_LOCAL);
    if(!i->h) internal_error("cannot load %s: %s", full.c_str(), dlerror());
    i->mainfn = (int (*)(int, char **)) dlsym(i->h, "main");
    struct link_map *lm; dlinfo(i->h, RTLD_DI_LINKMAP, &lm);
    PhArg a{lm->l_addr, i}; dl_iterate_phdr(ph_cb, &a);
    i->stack = (char *) mmap(nullptr, i->stacklen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    mprotect(i->stack, 4096, PROT_NONE);
    loaded[key] = i; return i;
}
Instance *inst_main() { return instance_load("z.so"); }
Instance *inst_second() { return instance_load("z2.so"); }
Instance *inst_tool(const str &n) { return instance_load((n + ".so").c_str()); }
void *inst_sym(Instance *i, const char *n) { return dlsym(i->h, n); }
Traffic inst_traffic(Instance *i) { return i->traffic; }
static int payload_file(const str &p) { size_t k = p.rfind('/') + 1; return p.size() > k + 1 && isdigit(p[k + 1]) ? p[k] == 'd' ? 0 : p[k] == 'i' ? 1 : -1 : -1; }
Held inst_held(Instance *i) { Held h; long *a = (long *) inst_sym(i, "zmc_mem_blocks"), *b = (long *) inst_sym(i, "zmc_mem_bytes"); if(!a || !b) return h; h.blocks = *a; h.bytes = *b; h.fds = i->fds.size(); return h; }
bool inst_alive(Instance *i) { return i->alive; }
int inst_exit_code(Instance *i) { return i->code; }

static void drop_ofd(Instance *i, std::shared_ptr<Ofd> &o) {
    if(o.use_count() > 1) return;                        // other descriptors remain (dup)
    if(o->ino && o->ino->lock_owner == o->id) o->ino->lock_owner = -1;
    if(o->sock) {
        auto s = socks.find(o->sock);
        if(s != socks.end()) {
            s->second->sut_closed = true; s->second->reg = false;
            if(s->second->listening) { i->listeners.erase(s->second->addr); for(int b : s->second->backlog) socks[b]->sut_closed = true; s->second->backlog.clear(); }
        }
        for(auto &f : i->fds) if(f.second->ep) { for(auto it = f.second->ep->items.begin(); it != f.second->ep->items.end();) if(it->second.sock == o->sock) it = f.second->ep->items.erase(it); else ++it; }
        for(size_t k = 0; k < i->ready.size();) if(i->ready[k] == o->sock) i->ready.erase(i->ready.begin() + k); else k++;
    }
}
static void close_all(Instance *i) { while(i->fds.size()) { auto o = i->fds.begin()->second; i->fds.erase(i->fds.begin()); drop_ofd(i, o); } i->ready.clear(); }
void inst_kill(Instance *i) { close_all(i); i->alive = false; i->status = RS_DEAD; i->handlers.clear(); }
void inst_reset(Instance *i) { if(i->dirty) for(auto &s : i->segs) raw_copy(s.addr, s.pristine, s.len); i->dirty = false; i->fds.clear(); i->ready.clear(); i->handlers.clear(); }

static void to_driver(Instance *i, RunStatus st) { i->status = st; swapcontext(&i->ctx, &i->drv); }
[[noreturn]] static void end_process(Instance *i, RunStatus st, int code) {
    in_sut = false; i->code = code; i->alive = false; close_all(i); i->handlers.clear();
    to_driver(i, st); abort();
}
static void trampoline() { Instance *i = cur; i->body(); end_process(i, RS_EXIT, 0); }
static RunStatus resume(Instance *i) {
    if(in_sut) internal_error("resume from inside the daemon");
    Instance *prev = cur; cur = i; i->calls = 0; in_sut = true;
    swapcontext(&i->drv, &i->ctx);
    in_sut = false; cur = prev; return i->status;
}
static RunStatus launch(Instance *i, std::function<void()> body) {
    i->body = body; i->alive = true; i->code = -1; i->dirty = true;
    getcontext(&i->ctx); i->ctx.uc_stack.ss_sp = i->stack; i->ctx.uc_stack.ss_size = i->stacklen; i->ctx.uc_link = nullptr;
    makecontext(&i->ctx, trampoline, 0);
    return resume(i);
}
RunStatus inst_call(Instance *i, std::function<void()> f) { if(!i->alive) i->fds.clear(); return launch(i, [i, f] { f(); { Host h; i->code = 0; to_driver(i, RS_IDLE); } abort(); }); }
RunStatus inst_start(Instance *i, const strs &argv) {
    if(i->alive) internal_error("start of a running instance");
    i->epoch = ++hook_epoch;
    inst_reset(i);
    typedef int (*sb)(uint8_t);
    if(bucket_bits) if(sb f = (sb) dlsym(i->h, "index_set_buckets_bits")) f(bucket_bits);
    i->argv = argv; i->cargv.clear(); for(auto &a : i->argv) i->cargv.push_back((char *) a.c_str()); i->cargv.push_back(nullptr);
    optind = 0; opterr = 0; i->tuned = false; i->traffic = Traffic();
    logf("start: %s", [&] { str s; for(auto &a : argv) s += a + " "; return s; }().c_str());
    RunStatus r = launch(i, [i] { int c = i->mainfn(i->argv.size(), i->cargv.data()); end_process(i, RS_EXIT, c); });
    logf("  -> %s%s", r == RS_IDLE ? "ready" : r == RS_CRASH ? "crashed" : "exited", r == RS_EXIT ? fmt(" (%d)", i->code).c_str() : "");
    return r;
}
void inst_leave(int code) { end_process(cur, RS_EXIT, code); }
RunStatus inst_run(Instance *i, bool timeout) { if(!i->alive) return RS_DEAD; i->timeout = timeout; return resume(i); }
RunStatus inst_signal(Instance *i, int sig) {
    if(!i->alive) return RS_DEAD;
    auto h = i->handlers.find(sig);
    if(h == i->handlers.end() || h->second == SIG_DFL) { logf("signal %d: default action", sig); i->code = 128 + sig; inst_kill(i); i->code = 128 + sig; return RS_CRASH; }
    if(h->second == SIG_IGN) return RS_IDLE;
    auto fn = h->second;
    // the handler runs on top of the interrupted epoll_wait
    ucontext_t saved = i->ctx; (void) saved;
    return launch(i, [fn, sig, i] { fn(sig); end_process(i, RS_EXIT, 128 + sig); });
}

static int newfd(std::shared_ptr<Ofd> o) { int fd = 3; while(cur->fds.count(fd)) fd++; o->id = next_ofd++; cur->fds[fd] = o; return fd; }
static Ofd *F(int fd) { auto i = cur->fds.find(fd); if(i == cur->fds.end()) { errno = EBADF; return nullptr; } return i->second.get(); }
static void tick() { if(++cur->calls > stall_limit) fail("the daemon does not come back: %lu system calls without waiting for events", (unsigned long) stall_limit); }
[[noreturn]] static void do_crash() { logf("   (process dies here)"); end_process(cur, RS_CRASH, -1); }
static SysAct point(SysKind k, const str &p, long len) {
    tick();
    if(inst_set_datasize && !cur->tuned) { cur->tuned = true; typedef void (*sd)(size_t); if(sd f = (sd) dlsym(cur->h, "zmc_set_datasize")) f(inst_set_datasize); }
    if((vfs.readonly || !vfs.ro_dirs.empty()) && sk_mutates(k) && vfs.ro(p)) { SysAct a; a.err = EROFS; return a; } if(sys_hook) return sys_hook(k, p, len); return SysAct(); }

static void touch(Inode *n) { n->mtime = clock_us / 1000000; }
static void file_write(Inode *n, long off, const char *b, size_t l) {
    if(vfs.track) { vfs.pending.push_back({vfs.seq++, n->id, off, str(b, l), false}); }
    if(n->data.size() < off + l) n->data.resize(off + l);
    memcpy(&n->data[off], b, l); touch(n);
}
static int v_open(const char *p, int flags) {
    str leaf; int par = 1; int id = vfs.lookup(p, &leaf, &par);
    if(str(p) == "/dev/urandom" || str(p) == "/dev/random" || str(p) == "/dev/null") { auto o = std::make_shared<Ofd>(); o->special = true; o->path = p; return newfd(o); }
    if(id < 0 && !(id == -ENOENT && (flags & O_CREAT))) { SysAct a = point(SK_OPEN, p, 0); if(a.crash) do_crash(); errno = a.err ? a.err : -id; return -1; }
    bool creates = id < 0;
    if(!creates && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    SysAct a = point(creates ? SK_CREATE : SK_OPEN, p, 0);
    if(a.crash) do_crash();
    if(a.err) { errno = a.err; return -1; }
    if(vfs.ro(p) && (flags & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
    { str l2; int p2 = 1, i2 = vfs.lookup(p, &l2, &p2); if(i2 >= 0) { id = i2; creates = false; if((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; } } else if(!creates) { if(i2 != -ENOENT || !(flags & O_CREAT)) { errno = -i2; return -1; } creates = true; } leaf = l2; par = p2; } // another process may have run at this point
    if(creates) { if(leaf.empty()) { errno = EISDIR; return -1; } id = mknode(vfs, par, leaf, false); }
    Inode *n = vfs.ino(id);
    if(n->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if((flags & O_DIRECTORY) && !n->dir) { errno = ENOTDIR; return -1; }
    if((flags & O_TRUNC) && !n->dir && n->data.size()) { SysAct t = point(SK_TRUNC, p, 0); if(t.crash) do_crash(); if(t.err) { errno = t.err; return -1; } if(vfs.track) vfs.pending.push_back({vfs.seq++, n->id, 0, "", true}); n->data.clear(); if(t.crash_after) do_crash(); }
    auto o = std::make_shared<Ofd>(); o->ino = vfs.inodes[id]; o->path = p; o->flags = flags;
    int fd = newfd(o); if(flags & O_CLOEXEC) o->cloexec = true;
    if(a.crash_after) do_crash();
    return fd;
}
static ssize_t v_write(int fd, const void *b, size_t l, long off) {
    if(fd == 1 || fd == 2) return l;
    Ofd *o = F(fd); if(!o) return -1;
    if(o->special) return l;
    if(o->sock) internal_error("write() on a socket");
    if(!o->ino || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    Inode *n = o->ino.get();
    long at = off >= 0 ? off : (o->flags & O_APPEND) ? (long) n->data.size() : o->pos;
    vfs_write_pos = at;
    SysAct a = point(SK_WRITE, o->path, l);
    if(a.crash) { if(a.limit > 0) file_write(n, at, (const char *) b, std::min<long>(a.limit, l)); do_crash(); }
    if(a.err) { errno = a.err; return -1; }
    size_t w = a.limit >= 0 ? std::min<long>(a.limit, l) : l;
    if(off < 0 && (o->flags & O_APPEND)) at = n->data.size();
    file_write(n, at, (const char *) b, w); if(int f = payload_file(o->path); f >= 0) cur->traffic.wrote[f] += w;
    if(off < 0) o->pos = at + w;
    if(a.crash_after) do_crash();
    return w;
}
static ssize_t v_read(int fd, void *b, size_t l, long off) {
    if(fd == 0) return 0;
    Ofd *o = F(fd); if(!o) return -1;
    if(o->special) { if(o->path == "/dev/null") return 0; for(size_t k = 0; k < l; k++) { entropy_state = entropy_state * 6364136223846793005ull + 1442695040888963407ull; ((char *) b)[k] = entropy_state >> 56; } return l; }
    if(!o->ino || (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if(o->ino->dir) { errno = EISDIR; return -1; }
    SysAct a = point(SK_READ, o->path, l);
    if(a.crash) do_crash();
    if(a.err) { errno = a.err; return -1; }
    long at = off >= 0 ? off : o->pos; long sz = o->ino->data.size();
    size_t r = at >= sz ? 0 : std::min<long>(l, sz - at);
    if(a.limit >= 0) r = std::min<long>(r, a.limit);
    memcpy(b, o->ino->data.data() + at, r); if(int f = payload_file(o->path); f >= 0) cur->traffic.got[f] += r;
    if(off < 0) o->pos = at + r;
    if(a.crash_after) do_crash();
    return r;
}
static void fill(struct stat *s, Inode *n) {
    memset(s, 0, sizeof *s); s->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = n->dir ? 4096 : n->data.size(); s->st_ino = n->id; s->st_nlink = 1; s->st_dev = 99; s->st_mtime = s->st_ctime = s->st_atime = n->mtime; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512;
}
static int v_stat(const char *p, struct stat *s) { SysAct a = point(SK_STAT, p, 0); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; } int i = vfs.lookup(p); if(i < 0) { errno = -i; return -1; } fill(s, vfs.ino(i)); return 0; }
static int v_unlink(const char *p, int want) { // want: 0 file, 1 dir, 2 either
    SysAct a = point(SK_UNLINK, p, 0); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; }
    str leaf; int par; int i = vfs.lookup(p, &leaf, &par);
    if(i < 0) { errno = -i; return -1; }
    Inode *n = vfs.ino(i);
    if(leaf.empty()) { errno = EBUSY; return -1; }
    if(n->dir && want == 0) { errno = EISDIR; return -1; }
    if(!n->dir && want == 1) { errno = ENOTDIR; return -1; }
    if(n->dir && n->kids.size()) { errno = ENOTEMPTY; return -1; }
    vfs.ino(par)->kids.erase(leaf); vfs.inodes.erase(i);
    if(a.crash_after) do_crash();
    return 0;
}
static int v_fsync(int fd) {
    Ofd *o = F(fd); if(!o) return -1;
    SysAct a = point(SK_FSYNC, o->path, 0); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; }
    if(o->ino && vfs.track) {
        std::vector<PendingWrite> keep; for(auto &w : vfs.pending) if(w.ino != o->ino->id) keep.push_back(w);
        vfs.pending.swap(keep); o->ino->durable = o->ino->data;
    }
    if(a.crash_after) do_crash();
    return 0;
}
static int v_trunc(Inode *n, const str &p, long len) {
    SysAct a = point(SK_TRUNC, p, len); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; }
    if(vfs.track) vfs.pending.push_back({vfs.seq++, n->id, len, "", true});
    n->data.resize(len); touch(n); if(a.crash_after) do_crash(); return 0;
}

// ------------------------------------------------------------------ sockets
static bool readable(VSock &s) { return s.rxpos < s.rx.size() || s.peer_closed || s.reset; }
static bool writable(VSock &s) { return s.sndcap != 0 && !s.was_full; }
void sock_mark(Instance *i, VSock &s, bool in, bool out) {
    if(!s.reg) return;
    if(in) s.ev_in = true;
    if(out) s.ev_out = true;
    if(s.ev_in || s.ev_out) { for(int r : i->ready) if(r == s.id) return; i->ready.push_back(s.id); }
}
void sock_push(Instance *i, int id, const str &d) { VSock &s = *socks[id]; s.rx += d; sock_mark(i, s, true, false); }
void sock_close(Instance *i, int id, bool rst) { VSock &s = *socks[id]; s.peer_closed = true; if(rst) s.reset = true; if(!s.opened) { for(auto &l : i->listeners) { auto &b = socks[l.second]->backlog; (void) b; } } sock_mark(i, s, true, true); }
void sock_writable(Instance *i, int id, long cap) { VSock &s = *socks[id]; s.sndcap = cap; if(s.was_full && cap != 0) { s.was_full = false; sock_mark(i, s, false, true); } }
int net_errno[3] = {0, 0, 0};                              // socket, bind, listen fail with this
static str asked_host;
strs inst_listeners(Instance *i) { strs v; for(auto &l : i->listeners) v.push_back(l.first + (socks[l.second]->host.empty() ? "" : "@" + socks[l.second]->host)); return v; }
int inst_connect(Instance *i, const str &to) {
    if(i->listeners.empty()) return -1;
    auto which = to.empty() ? i->listeners.begin() : i->listeners.find(to); if(which == i->listeners.end()) return -1;
    VSock &l = *socks[which->second];
    auto s = std::make_shared<VSock>(); s->id = next_sock++; s->unixs = l.unixs; socks[s->id] = s; l.backlog.push_back(s->id);
    return s->id;
}

static ssize_t broken_pipe(int flags) {                  // SIGPIPE, then EPIPE
    if(!(flags & MSG_NOSIGNAL)) {
        auto h = cur->handlers.find(SIGPIPE);
        if(h == cur->handlers.end() || h->second == SIG_DFL) { logf("   (killed by SIGPIPE)"); end_process(cur, RS_EXIT, 128 + SIGPIPE); }
        if(h->second != SIG_IGN) { auto fn = h->second; in_sut = true; fn(SIGPIPE); in_sut = false; }
    }
    errno = EPIPE; return -1;
}
static ssize_t v_send(int fd, const void *b, size_t l, int flags = 0) {
    tick(); Ofd *o = F(fd); if(!o) return -1; if(!o->sock) { errno = ENOTSOCK; return -1; }
    VSock &s = *socks[o->sock];
    if(s.reset) { if(s.shut_sent) return broken_pipe(flags); errno = ECONNRESET; return -1; }
    if(s.peer_closed && !s.unixs && !s.shut_sent) { s.shut_sent = true; s.reset = true; sock_mark(cur, s, true, true); cur->traffic.tx += l; return l; } // the peer answers with a reset
    if(s.peer_closed) return broken_pipe(flags);
    long can = s.sndcap < 0 ? (long) l : std::min<long>(s.sndcap, l);
    if(send_hook) { long k = send_hook(s, l); if(k == -2) return broken_pipe(flags); if(k < 0) k = 0; can = std::min<long>(can, k); }
    if(can < (long) l) s.was_full = true;
    if(can == 0 && l) { errno = EAGAIN; return -1; }
    s.tx.append((const char *) b, can); if(s.sndcap > 0) s.sndcap -= can;
    cur->traffic.tx += can; return can;
}
static ssize_t v_recv(int fd, void *b, size_t l, int f) {
    tick(); Ofd *o = F(fd); if(!o) return -1; if(!o->sock) { errno = ENOTSOCK; return -1; }
    VSock &s = *socks[o->sock];
    if(recv_hook) recv_hook(s);
    if(s.reset) { errno = ECONNRESET; return -1; }
    if(s.rxpos >= s.rx.size()) { if(s.peer_closed) return 0; errno = EAGAIN; return -1; }
    size_t n = std::min(l, s.rx.size() - s.rxpos); memcpy(b, s.rx.data() + s.rxpos, n);
    if(!(f & MSG_PEEK)) { cur->traffic.rx += n; s.rxpos += n; if(s.rxpos == s.rx.size()) { s.rx.clear(); s.rxpos = 0; } }
    return n;
}

#define RAW(n, ...) syscall(n, ##__VA_ARGS__)
extern "C" {
int open(const char *p, int flags, ...) {
    mode_t m = 0; if(flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
    if(!in_sut) return RAW(SYS_openat, AT_FDCWD, p, flags, m);
    Host h; return v_open(p, flags);
}
int open64(const char *p, int flags, ...) {
    mode_t m = 0; if(flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
    if(!in_sut) return RAW(SYS_openat, AT_FDCWD, p, flags, m);
    Host h; return v_open(p, flags);
}
int openat(int d, const char *p, int flags, ...) {
    mode_t m = 0; if(flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
    if(!in_sut) return RAW(SYS_openat, d, p, flags, m);
    Host h; if(d != AT_FDCWD && p[0] != '/') { Ofd *o = F(d); if(!o) return -1; return v_open((o->path + "/" + p).c_str(), flags); } return v_open(p, flags);
}
int creat(const char *p, mode_t m) { if(!in_sut) return RAW(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); Host h; return v_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
int close(int fd) {
    if(!in_sut) return RAW(SYS_close, fd);
    Host h; auto i = cur->fds.find(fd); if(i == cur->fds.end()) { if(fd >= 0 && fd < 3) return 0; errno = EBADF; return -1; }
    if(i->second->ino) { SysAct a = point(SK_CLOSE, i->second->path, 0); if(a.crash) do_crash(); }
    auto o = i->second; 
    if(o->sock) for(auto &f : cur->fds) if(f.second->ep) f.second->ep->items.erase(fd);
    cur->fds.erase(i); drop_ofd(cur, o); return 0;
}
ssize_t write(int fd, const void *b, size_t l) {
    if(!in_sut) return RAW(SYS_write, fd, b, l);
    Host h; if(cur->fds.count(fd) && cur->fds[fd]->sock) return v_send(fd, b, l);
    return v_write(fd, b, l, -1);
}
ssize_t pwrite(int fd, const void *b, size_t l, off_t o) { if(!in_sut) return RAW(SYS_pwrite64, fd, b, l, o); Host h; return v_write(fd, b, l, o); }
ssize_t pwrite64(int fd, const void *b, size_t l, off_t o) { if(!in_sut) return RAW(SYS_pwrite64, fd, b, l, o); Host h; return v_write(fd, b, l, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if(!in_sut) return RAW(SYS_writev, fd, v, n);
    Host h; str s; for(int k = 0; k < n; k++) s.append((char *) v[k].iov_base, v[k].iov_len);
    if(cur->fds.count(fd) && cur->fds[fd]->sock) return v_send(fd, s.data(), s.size());
    return v_write(fd, s.data(), s.size(), -1);
}
ssize_t read(int fd, void *b, size_t l) {
    if(!in_sut) return RAW(SYS_read, fd, b, l);
    Host h; if(cur->fds.count(fd) && cur->fds[fd]->sock) return v_recv(fd, b, l, 0);
    return v_read(fd, b, l, -1);
}
ssize_t pread(int fd, void *b, size_t l, off_t o) { if(!in_sut) return RAW(SYS_pread64, fd, b, l, o); Host h; return v_read(fd, b, l, o); }
ssize_t pread64(int fd, void *b, size_t l, off_t o) { if(!in_sut) return RAW(SYS_pread64, fd, b, l, o); Host h; return v_read(fd, b, l, o); }
ssize_t readv(int fd, const struct iovec *v, int n) {
    if(!in_sut) return RAW(SYS_readv, fd, v, n);
    Host h; ssize_t t = 0; for(int k = 0; k < n; k++) { ssize_t r = v_read(fd, v[k].iov_base, v[k].iov_len, -1); if(r < 0) return t ? t : -1; t += r; if((size_t) r < v[k].iov_len) break; } return t;
}
static off_t v_lseek(int fd, off_t o, int w) {
    Ofd *f = F(fd); if(!f) return -1;
    if(!f->ino) { errno = ESPIPE; return -1; }
    SysAct a = point(SK_SEEK, f->path, 0); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; }
    off_t n = w == SEEK_SET ? o : w == SEEK_CUR ? f->pos + o : (off_t) f->ino->data.size() + o;
    if(n < 0) { errno = EINVAL; return -1; }
    return f->pos = n;
}
off_t lseek(int fd, off_t o, int w) { if(!in_sut) return RAW(SYS_lseek, fd, o, w); Host h; return v_lseek(fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { if(!in_sut) return RAW(SYS_lseek, fd, o, w); Host h; return v_lseek(fd, o, w); }
int fsync(int fd) { if(!in_sut) return RAW(SYS_fsync, fd); Host h; return v_fsync(fd); }
int fdatasync(int fd) { if(!in_sut) return RAW(SYS_fdatasync, fd); Host h; return v_fsync(fd); }
void sync(void) { if(!in_sut) { RAW(SYS_sync); return; } Host h; tick(); vfs.flush_all(); }
int syncfs(int fd) { if(!in_sut) return RAW(SYS_syncfs, fd); Host h; tick(); vfs.flush_all(); return 0; }
int ftruncate(int fd, off_t l) { if(!in_sut) return RAW(SYS_ftruncate, fd, l); Host h; Ofd *o = F(fd); if(!o || !o->ino) return -1; return v_trunc(o->ino.get(), o->path, l); }
int ftruncate64(int fd, off_t l) { if(!in_sut) return RAW(SYS_ftruncate, fd, l); Host h; Ofd *o = F(fd); if(!o || !o->ino) return -1; return v_trunc(o->ino.get(), o->path, l); }
int truncate(const char *p, off_t l) { if(!in_sut) return RAW(SYS_truncate, p, l); Host h; Inode *n = vfs.get(p); if(!n) { errno = ENOENT; return -1; } return v_trunc(n, p, l); }
int fallocate(int fd, int mode, off_t o, off_t l) {
    if(!in_sut) return RAW(SYS_fallocate, fd, mode, o, l);
    Host h; Ofd *f = F(fd); if(!f || !f->ino) return -1; SysAct a = point(SK_FALLOC, f->path, l); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; }
    if(mode == 0 && (off_t) f->ino->data.size() < o + l) f->ino->data.resize(o + l);
    return 0;
}
int posix_fallocate(int fd, off_t o, off_t l) { if(!in_sut) return RAW(SYS_fallocate, fd, 0, o, l) ? errno : 0; Host h; Ofd *f = F(fd); if(!f || !f->ino) return EBADF; if((off_t) f->ino->data.size() < o + l) f->ino->data.resize(o + l); return 0; }
int stat(const char *p, struct stat *s) { if(!in_sut) return RAW(SYS_newfstatat, AT_FDCWD, p, s, 0); Host h; return v_stat(p, s); }
int lstat(const char *p, struct stat *s) { if(!in_sut) return RAW(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); Host h; return v_stat(p, s); }
int fstat(int fd, struct stat *s) { if(!in_sut) return RAW(SYS_fstat, fd, s); Host h; Ofd *o = F(fd); if(!o) return -1; tick(); if(!o->ino) { memset(s, 0, sizeof *s); return 0; } fill(s, o->ino.get()); return 0; }
int fstatat(int d, const char *p, struct stat *s, int f) { if(!in_sut) return RAW(SYS_newfstatat, d, p, s, f); Host h; if(d != AT_FDCWD && p[0] != '/') { Ofd *o = F(d); if(!o) return -1; return v_stat((o->path + "/" + p).c_str(), s); } return v_stat(p, s); }
int access(const char *p, int m) { if(!in_sut) return RAW(SYS_faccessat, AT_FDCWD, p, m); Host h; struct stat s; return v_stat(p, &s); }
static int v_mkdir(const char *p) {
    str leaf; int par; int i = vfs.lookup(p, &leaf, &par);
    if(i >= 0) { errno = EEXIST; return -1; }
    if(i != -ENOENT || leaf.empty() || !vfs.ino(par)->dir) { errno = -i; return -1; }
    SysAct a = point(SK_MKDIR, p, 0); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; }
    i = vfs.lookup(p, &leaf, &par); if(i >= 0) { errno = EEXIST; return -1; }
    mknode(vfs, par, leaf, true); if(a.crash_after) do_crash(); return 0;
}
int mkdir(const char *p, mode_t m) { if(!in_sut) return RAW(SYS_mkdirat, AT_FDCWD, p, m); Host h; return v_mkdir(p); }
int unlink(const char *p) { if(!in_sut) return RAW(SYS_unlinkat, AT_FDCWD, p, 0); Host h; return v_unlink(p, 0); }
int unlinkat(int d, const char *p, int f) { if(!in_sut) return RAW(SYS_unlinkat, d, p, f); Host h; str full = p; if(d != AT_FDCWD && p[0] != '/') { Ofd *o = F(d); if(!o) return -1; full = o->path + "/" + p; } return v_unlink(full.c_str(), f & AT_REMOVEDIR ? 1 : 0); }
int rmdir(const char *p) { if(!in_sut) return RAW(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); Host h; return v_unlink(p, 1); }
int remove(const char *p) { if(!in_sut) { int r = RAW(SYS_unlinkat, AT_FDCWD, p, 0); if(r && errno == EISDIR) r = RAW(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); return r; } Host h; return v_unlink(p, 2); }
int rename(const char *a, const char *b) {
    if(!in_sut) return RAW(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
    Host h; SysAct x = point(SK_RENAME, str(a) + " to " + b, 0); if(x.crash) do_crash(); if(x.err) { errno = x.err; return -1; }
    str la, lb; int pa, pb; int i = vfs.lookup(a, &la, &pa); int j = vfs.lookup(b, &lb, &pb);
    if(i < 0) { errno = -i; return -1; }
    if(j < 0 && j != -ENOENT) { errno = -j; return -1; }
    if(j >= 0 && vfs.ino(j)->dir && vfs.ino(j)->kids.size()) { errno = ENOTEMPTY; return -1; }
    if(j >= 0 && j != i) vfs.inodes.erase(j);
    vfs.ino(pa)->kids.erase(la); vfs.ino(pb)->kids[lb] = i; if(x.crash_after) do_crash(); return 0;
}
char *realpath(const char *p, char *out) {
    static char *(*f)(const char *, char *) = (char *(*)(const char *, char *)) dlsym(RTLD_NEXT, "realpath"); if(!in_sut) return f(p, out);
    Host h; str full = "/"; strs c = split(p); full = ""; for(auto &x : c) full += "/" + x; if(full.empty()) full = "/";
    if(vfs.lookup(p) < 0) { errno = ENOENT; return nullptr; }
    if(!out) return strdup(full.c_str());
    return strcpy(out, full.c_str());
}
char *getcwd(char *b, size_t n) { if(!in_sut) { return RAW(SYS_getcwd, b, n) < 0 ? nullptr : b; } if(!b) return strdup("/"); if(n < 2) return nullptr; return strcpy(b, "/"); }
int chdir(const char *p) { if(!in_sut) return RAW(SYS_chdir, p); return 0; }
mode_t umask(mode_t m) { if(!in_sut) return RAW(SYS_umask, m); return 022; }
int flock(int fd, int op) {
    if(!in_sut) return RAW(SYS_flock, fd, op);
    Host h; Ofd *o = F(fd); if(!o) return -1;
    SysAct a = point(SK_FLOCK, o->path, 0); if(a.crash) do_crash(); if(a.err) { errno = a.err; return -1; }
    if(!o->ino) { errno = EBADF; return -1; }
    if(op & LOCK_UN) { if(o->ino->lock_owner == o->id) o->ino->lock_owner = -1; return 0; }
    if(o->ino->lock_owner != -1 && o->ino->lock_owner != o->id) { if(op & LOCK_NB) { errno = EWOULDBLOCK; return -1; } fail("the daemon blocks in flock(%s) for ever", o->path.c_str()); }
    o->ino->lock_owner = o->id; return 0;
}
int lockf(int fd, int op, off_t) { if(!in_sut) { errno = ENOSYS; return -1; } return flock(fd, op == F_ULOCK ? LOCK_UN : op == F_TLOCK ? LOCK_EX | LOCK_NB : LOCK_EX); }
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if(!in_sut) return RAW(SYS_fcntl, fd, cmd, x); if(cmd == F_SETFD || cmd == F_GETFD) { Host h; Ofd *o = F(fd); if(!o) return -1; if(cmd == F_GETFD) return o->cloexec ? FD_CLOEXEC : 0; o->cloexec = x & FD_CLOEXEC; return 0; } if(cmd == F_SETLK || cmd == F_SETLKW) { struct flock *f = (struct flock *) x; return flock(fd, f->l_type == F_UNLCK ? LOCK_UN : LOCK_EX | LOCK_NB); } return 0; }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return fcntl(fd, cmd, x); }
int ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); long x = va_arg(a, long); va_end(a); if(!in_sut) return RAW(SYS_ioctl, fd, r, x); return 0; }
int dup2(int a, int b) { if(!in_sut) return RAW(SYS_dup2, a, b); Host h; if(b < 3) return b; auto i = cur->fds.find(a); if(i == cur->fds.end()) { errno = EBADF; return -1; } auto o = i->second; cur->fds[b] = o; return b; }
int dup(int a) { if(!in_sut) return RAW(SYS_dup, a); Host h; auto i = cur->fds.find(a); if(i == cur->fds.end()) { errno = EBADF; return -1; } auto o = i->second; int fd = 3; while(cur->fds.count(fd)) fd++; cur->fds[fd] = o; return fd; }
int chmod(const char *p, mode_t m) { if(!in_sut) return RAW(SYS_fchmodat, AT_FDCWD, p, m); return 0; }
int fchmod(int fd, mode_t m) { if(!in_sut) return RAW(SYS_fchmod, fd, m); return 0; }

struct VDir { std::vector<struct dirent> e; size_t i = 0; uint32_t magic = 0x5a5a1234; };
DIR *opendir(const char *p) {
    static DIR *(*f)(const char *) = (DIR * (*) (const char *) ) dlsym(RTLD_NEXT, "opendir"); if(!in_sut) return f(p);
    Host h; SysAct a = point(SK_OPENDIR, p, 0); if(a.crash) do_crash(); if(a.err) { errno = a.err; return nullptr; }
    int i = vfs.lookup(p); if(i < 0) { errno = -i; return nullptr; } Inode *n = vfs.ino(i); if(!n->dir) { errno = ENOTDIR; return nullptr; }
    VDir *d = new VDir; auto add = [&](const str &s, bool dir) { struct dirent e; memset(&e, 0, sizeof e); e.d_ino = 1; e.d_type = dir ? DT_DIR : DT_REG; strncpy(e.d_name, s.c_str(), 255); d->e.push_back(e); };
    add(".", true); add("..", true); for(auto &k : n->kids) add(k.first, vfs.ino(k.second)->dir);
    return (DIR *) d;
}
struct dirent *readdir(DIR *d) { static struct dirent *(*f)(DIR *) = (struct dirent * (*) (DIR *) ) dlsym(RTLD_NEXT, "readdir"); if(!in_sut) return f(d); VDir *v = (VDir *) d; return v->i < v->e.size() ? &v->e[v->i++] : nullptr; }
struct dirent64 *readdir64(DIR *d) { static struct dirent64 *(*f)(DIR *) = (struct dirent64 * (*) (DIR *) ) dlsym(RTLD_NEXT, "readdir64"); if(!in_sut) return f(d); VDir *v = (VDir *) d; return v->i < v->e.size() ? (struct dirent64 *) &v->e[v->i++] : nullptr; }
int closedir(DIR *d) { static int (*f)(DIR *) = (int (*)(DIR *)) dlsym(RTLD_NEXT, "closedir"); if(!in_sut) return f(d); Host h; delete(VDir *) d; return 0; }
void rewinddir(DIR *d) { static void (*f)(DIR *) = (void (*)(DIR *)) dlsym(RTLD_NEXT, "rewinddir"); if(!in_sut) return f(d); ((VDir *) d)->i = 0; }
static int walk(const str &p, int (*cb)(const char *, const struct stat *, int, struct FTW *), int flags, int level) {
    int i = vfs.lookup(p); if(i < 0) return 0;
    Inode *n = vfs.ino(i); bool dir = n->dir; struct stat s; fill(&s, n);
    struct FTW f; f.level = level; f.base = p.rfind('/') + 1;
    auto call = [&](int t) { in_sut = true; int r = cb(p.c_str(), &s, t, &f); in_sut = false; return r; };
    if(!dir) return call(FTW_F);
    int r; if(!(flags & FTW_DEPTH) && (r = call(FTW_D))) return r;
    strs kids; for(auto &k : n->kids) kids.push_back(k.first);
    for(auto &k : kids) if((r = walk(p == "/" ? "/" + k : (p.back() == '/' ? p + k : p + "/" + k), cb, flags, level + 1))) return r;
    if(flags & FTW_DEPTH) return call(FTW_DP);
    return 0;
}
int nftw(const char *p, int (*cb)(const char *, const struct stat *, int, struct FTW *), int, int flags) {
    if(!in_sut) internal_error("nftw outside");
    Host h; tick(); if(vfs.lookup(p) < 0) { errno = ENOENT; return -1; } return walk(p, cb, flags, 0);
}
int nftw64(const char *p, int (*cb)(const char *, const struct stat64 *, int, struct FTW *), int n, int flags) { return nftw(p, (int (*)(const char *, const struct stat *, int, struct FTW *)) cb, n, flags); }
int statvfs(const char *p, struct statvfs *s) { (void) p; memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_blocks = 1 << 21; s->f_bfree = s->f_bavail = fs_blocks_free; s->f_files = 1 << 20; s->f_ffree = s->f_favail = 1 << 19; s->f_namemax = 255; if(vfs.readonly) s->f_flag = ST_RDONLY; return 0; }
int fstatvfs(int, struct statvfs *s) { return statvfs("", s); }

// ---------------------------------------------------------------- time, entropy
static void clk() { Host h; if(cur) tick(); if(clock_hook) clock_hook(); }
int gettimeofday(struct timeval *tv, void *) { if(!in_sut) { struct timespec t; RAW(SYS_clock_gettime, CLOCK_REALTIME, &t); { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0; } clk(); { tv->tv_sec = clock_us / 1000000; tv->tv_usec = clock_us % 1000000; } return 0; }
time_t time(time_t *t) { if(!in_sut) { struct timespec ts; RAW(SYS_clock_gettime, CLOCK_REALTIME, &ts); if(t) *t = ts.tv_sec; return ts.tv_sec; } clk(); time_t v = clock_us / 1000000; if(t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *ts) { if(!in_sut) return RAW(SYS_clock_gettime, c, ts); clk(); ts->tv_sec = clock_us / 1000000; ts->tv_nsec = (clock_us % 1000000) * 1000; return 0; }
int usleep(useconds_t u) { if(!in_sut) { struct timespec t{u / 1000000, (long) (u % 1000000) * 1000}; return RAW(SYS_nanosleep, &t, nullptr); } tick(); clock_us += u; return 0; }
unsigned sleep(unsigned s) { if(!in_sut) { struct timespec t{(time_t) s, 0}; RAW(SYS_nanosleep, &t, nullptr); return 0; } tick(); clock_us += s * 1000000ll; return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { if(!in_sut) return RAW(SYS_nanosleep, t, r); tick(); clock_us += t->tv_sec * 1000000ll + t->tv_nsec / 1000; return 0; }
int getentropy(void *b, size_t n) { if(!in_sut) return RAW(SYS_getrandom, b, n, 0) == (long) n ? 0 : -1; for(size_t i = 0; i < n; i++) { entropy_state = entropy_state * 6364136223846793005ull + 1442695040888963407ull; ((char *) b)[i] = entropy_state >> 56; } return 0; }
ssize_t getrandom(void *b, size_t n, unsigned f) { if(!in_sut) return RAW(SYS_getrandom, b, n, f); if(getentropy(b, n)) return -1; return n; }
static unsigned rnd_state = 1;
int rand(void) { rnd_state = rnd_state * 1103515245u + 12345u; return (rnd_state >> 1) & 0x7fffffff; }
void srand(unsigned s) { rnd_state = s; }
long random(void) { return rand(); }
void srandom(unsigned s) { rnd_state = s; }
pid_t getpid(void) { if(!in_sut) return RAW(SYS_getpid); return 4242; }

// ---------------------------------------------------------------- output is dropped
#define NEXT(n) ((decltype(&n)) dlsym(RTLD_NEXT, #n))
static int kept(const char *f, va_list a) { if(!sut_output) return 0; Host h; va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, b); va_end(b); str t(n + 1, 0); vsnprintf(&t[0], n + 1, f, a); t.resize(n); *sut_output += t; return n; }
int printf(const char *f, ...) { va_list a; va_start(a, f); int r = in_sut ? kept(f, a) : NEXT(vfprintf)(stdout, f, a); va_end(a); return r; }
int vprintf(const char *f, va_list a) { if(in_sut) return kept(f, a); return NEXT(vfprintf)(stdout, f, a); }
int fprintf(FILE *o, const char *f, ...) { if(in_sut && o != stdout) return 0; va_list a; va_start(a, f); int r = in_sut ? kept(f, a) : NEXT(vfprintf)(o, f, a); va_end(a); return r; }
int vfprintf(FILE *o, const char *f, va_list a) { if(in_sut) return o == stdout ? kept(f, a) : 0; return NEXT(vfprintf)(o, f, a); }
int puts(const char *s) { if(in_sut) { if(sut_output) { Host h; *sut_output += str(s) + "\n"; } return 0; } return NEXT(puts)(s); }
int putchar(int c) { if(in_sut) { if(sut_output) { Host h; *sut_output += (char) c; } return c; } return NEXT(putchar)(c); }
int putc(int c, FILE *f) { if(in_sut) { if(sut_output && f == stdout) { Host h; *sut_output += (char) c; } return c; } return NEXT(putc)(c, f); }
int fputc(int c, FILE *f) { if(in_sut) { if(sut_output && f == stdout) { Host h; *sut_output += (char) c; } return c; } return NEXT(fputc)(c, f); }
int fputs(const char *s, FILE *f) { if(in_sut) { if(sut_output && f == stdout) { Host h; *sut_output += s; } return 0; } return NEXT(fputs)(s, f); }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) { if(in_sut) { if(sut_output && f == stdout) { Host h; *sut_output += str((const char *) p, a * b); } return b; } return NEXT(fwrite)(p, a, b, f); }
int fflush(FILE *f) { if(in_sut) return 0; return NEXT(fflush)(f); }
void perror(const char *s) { if(in_sut) return; NEXT(perror)(s); }
int setvbuf(FILE *, char *, int, size_t) { return 0; }
FILE *freopen(const char *p, const char *m, FILE *f) { if(in_sut) return f; return NEXT(freopen)(p, m, f); }

// ---------------------------------------------------------------- processes, signals
void exit(int c) { if(!in_sut) { RAW(SYS_exit_group, c); } Host h; end_process(cur, RS_EXIT, c); }
static int forkpipe = -1; static bool forked_child = false;
void _exit(int c) { if(in_sut && !forked_child) { Host h; end_process(cur, RS_EXIT, c); } RAW(SYS_exit_group, c); __builtin_unreachable(); }
void _Exit(int c) { _exit(c); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *) { in_sut = false; fail("assertion failed in the daemon: %s (%s:%u)", e, f, l); }
static void send_args(char *const argv[]) {
    Host h; str o; for(auto &f : cur->fds) if(!f.second->cloexec) o += fmt("%d ", f.first); o += '\0'; for(int i = 0; argv && argv[i]; i++) { o += argv[i]; o += '\0'; }
    size_t n = 0; while(n < o.size()) { ssize_t r = RAW(SYS_write, forkpipe, o.data() + n, o.size() - n); if(r <= 0) break; n += r; }
    RAW(SYS_exit_group, 77);
}
int execv(const char *p, char *const argv[]) { (void) p; if(!in_sut) internal_error("execv outside"); if(forked_child) send_args(argv); internal_error("execv of the daemon itself"); }
int execvp(const char *p, char *const argv[]) { return execv(p, argv); }
int execve(const char *p, char *const argv[], char *const[]) { return execv(p, argv); }
static int next_pid = 5000;
// what a program started by the daemon keeps open: descriptors which are not close-on-exec
static std::map<int, std::vector<std::pair<Instance *, std::shared_ptr<Ofd>>>> inherited;
static void release_fds(int pid) { auto i = inherited.find(pid); if(i == inherited.end()) return; auto v = i->second; inherited.erase(i); while(v.size()) { auto x = v.back(); v.pop_back(); drop_ofd(x.first, x.second); } }
}
void hook_finish(size_t n, int status) { HookCall &c = hook_calls.at(n); if(!c.running) internal_error("this hook is not running"); c.running = false; c.status = status; release_fds(c.pid); }
extern "C" {
static int record_hook(const strs &argv, const str &keep = "") {
    HookCall c; c.argv = argv; c.pid = next_pid++; c.parent = cur->epoch;
    int r = hook_outcome ? hook_outcome(argv) : 0;
    c.running = r < 0; c.status = r < 0 ? 0 : r;
    logf("   hook: %s -> %d", [&] { str s; for(auto &a : argv) s += esc(a) + " "; return s; }().c_str(), r);
    if(c.running) { std::set<Ofd *> seen; for(size_t i = 0; i < keep.size();) { int fd = atoi(keep.c_str() + i); auto f = cur->fds.find(fd); if(f != cur->fds.end() && seen.insert(f->second.get()).second) inherited[c.pid].push_back({cur, f->second}); i = keep.find(' ', i) + 1; } }
    hook_calls.push_back(c); return c.pid;
}
pid_t fork(void) {
    if(!in_sut) return real_fork();
    Host h; tick(); if(fork_errno) { errno = fork_errno; return -1; }
    int p[2]; if(syscall(SYS_pipe2, p, 0)) internal_error("pipe");
    pid_t r = real_fork();
    if(r < 0) internal_error("fork");
    if(r == 0) { forked_child = true; forkpipe = p[1]; RAW(SYS_close, p[0]); return 0; }
    RAW(SYS_close, p[1]); str o; char b[4096]; ssize_t n; while((n = RAW(SYS_read, p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if(n > 0) o.append(b, n);
    RAW(SYS_close, p[0]); int st; while(RAW(SYS_wait4, r, &st, 0, nullptr) < 0 && errno == EINTR);
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 77) fail("the daemon forked a child that did not execute the hook (status %d)", st);
    strs a; size_t i = 0; while(i < o.size()) { size_t j = o.find('\0', i); a.push_back(o.substr(i, j - i)); i = j + 1; }
    str keep = a.at(0); a.erase(a.begin()); return record_hook(a, keep);
}
pid_t vfork(void) { return fork(); }
int posix_spawn(pid_t *pid, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const argv[], char *const[]) { Host h; strs a; for(int i = 0; argv[i]; i++) a.push_back(argv[i]); int p = record_hook(a); if(pid) *pid = p; return 0; }
pid_t waitpid(pid_t pid, int *st, int opt) {
    if(!in_sut) return RAW(SYS_wait4, pid, st, opt, nullptr);
    Host h; tick();
    if(pid == -1 && orphans > 0) { orphans--; if(st) *st = 0; return next_pid++; } // a process adopted by the daemon running as the first one
    for(auto &c : hook_calls) if((pid == c.pid || pid == -1) && !c.waited && c.parent == cur->epoch) {
        if(c.running) { if(opt & WNOHANG) { if(pid == -1) continue; return 0; } fail("the daemon waits for ever for a hook that does not finish (%s)", c.argv.size() > 1 ? c.argv[1].c_str() : ""); }
        c.waited = true; if(st) *st = (c.status & 255) << 8; return c.pid;
    }
    if(pid == -1 && (opt & WNOHANG)) { for(auto &c : hook_calls) if(!c.waited && c.parent == cur->epoch) return 0; }
    errno = ECHILD; return -1;
}
pid_t wait(int *st) { return waitpid(-1, st, 0); }
pid_t setsid(void) { if(!in_sut) return RAW(SYS_setsid); return 1; }
int kill(pid_t p, int s) { if(!in_sut) return RAW(SYS_kill, p, s); return 0; }
int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
    if(!in_sut) { static int (*f)(int, const struct sigaction *, struct sigaction *) = NEXT(sigaction); return f(sig, a, o); }
    Host h; if(o) memset(o, 0, sizeof *o); if(a) cur->handlers[sig] = a->sa_handler; return 0;
}
sighandler_t signal(int sig, sighandler_t f) { if(!in_sut) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = f; sigaction(sig, &a, nullptr); return SIG_DFL; } Host h; cur->handlers[sig] = f; return SIG_DFL; }

// ---------------------------------------------------------------- network
int socket(int d, int t, int p) { if(!in_sut) return RAW(SYS_socket, d, t, p); if(net_errno[0]) { errno = net_errno[0]; return -1; } Host h; auto s = std::make_shared<VSock>(); s->id = next_sock++; s->unixs = d == AF_UNIX; socks[s->id] = s; auto o = std::make_shared<Ofd>(); o->sock = s->id; o->cloexec = t & SOCK_CLOEXEC; return newfd(o); }
int bind(int fd, const struct sockaddr *a, socklen_t l) {
    if(!in_sut) return RAW(SYS_bind, fd, a, l); if(net_errno[1]) { errno = net_errno[1]; return -1; }
    Host h; Ofd *o = F(fd); if(!o) return -1; VSock &s = *socks[o->sock];
    if(a->sa_family == AF_UNIX) { s.addr = str("unix:") + ((struct sockaddr_un *) a)->sun_path; } else { s.addr = fmt("tcp:%u", ntohs(((struct sockaddr_in *) a)->sin_port)); s.host = asked_host; for(auto &l : loaded) if(l.second->listeners.count(s.addr)) { errno = EADDRINUSE; return -1; } }
    return 0;
}
int listen(int fd, int b) { if(!in_sut) return RAW(SYS_listen, fd, b); if(net_errno[2]) { errno = net_errno[2]; return -1; } Host h; Ofd *o = F(fd); if(!o) return -1; VSock &s = *socks[o->sock]; s.listening = true; cur->listeners[s.addr] = s.id; return 0; }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    if(!in_sut) return RAW(SYS_accept4, fd, a, l, fl);
    Host h; tick(); Ofd *o = F(fd); if(!o) return -1; VSock &s = *socks[o->sock];
    if(s.backlog.empty()) { errno = EAGAIN; return -1; }
    int id = s.backlog.front(); s.backlog.erase(s.backlog.begin()); socks[id]->opened = true;
    cur->traffic.clients++; auto n = std::make_shared<Ofd>(); n->sock = id; n->cloexec = fl & SOCK_CLOEXEC; return newfd(n);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int setsockopt(int fd, int a, int b, const void *c, socklen_t d) { if(!in_sut) return RAW(SYS_setsockopt, fd, a, b, c, d); return 0; }
int getsockopt(int fd, int a, int b, void *c, socklen_t *d) { if(!in_sut) return RAW(SYS_getsockopt, fd, a, b, c, d); if(c && d && *d >= 4) *(int *) c = 0; return 0; }
int shutdown(int fd, int how) { if(!in_sut) return RAW(SYS_shutdown, fd, how); Host h; Ofd *o = F(fd); if(!o) return -1; return 0; }
int connect(int fd, const struct sockaddr *a, socklen_t l) { if(!in_sut) return RAW(SYS_connect, fd, a, l); errno = ECONNREFUSED; return -1; }
int getaddrinfo(const char *host, const char *port, const struct addrinfo *, struct addrinfo **r) {
    { Host h; asked_host = host ? host : ""; }
    static struct addrinfo ai; static struct sockaddr_in sin; memset(&ai, 0, sizeof ai); memset(&sin, 0, sizeof sin); sin.sin_family = AF_INET; sin.sin_port = htons(port ? atoi(port) : 0);
    ai.ai_family = AF_INET; ai.ai_socktype = SOCK_STREAM; ai.ai_addr = (struct sockaddr *) &sin; ai.ai_addrlen = sizeof sin; *r = &ai; return 0;
}
void freeaddrinfo(struct addrinfo *) {}
int epoll_create1(int fl) { Host h; auto o = std::make_shared<Ofd>(); o->cloexec = fl & EPOLL_CLOEXEC; o->ep = std::make_shared<Epoll>(); return newfd(o); }
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
    Host h; tick(); Ofd *o = F(ep); if(!o || !o->ep) { errno = EBADF; return -1; } Ofd *t = F(fd); if(!t) return -1;
    if(!t->sock) { errno = EPERM; return -1; }
    VSock &s = *socks[t->sock]; auto it = o->ep->items.find(fd);
    if(op == EPOLL_CTL_DEL) { if(it == o->ep->items.end()) { errno = ENOENT; return -1; } o->ep->items.erase(it); s.reg = false; return 0; }
    if(op == EPOLL_CTL_ADD && it != o->ep->items.end()) { errno = EEXIST; return -1; }
    if(op == EPOLL_CTL_MOD && it == o->ep->items.end()) { errno = ENOENT; return -1; }
    Epoll::Item x; x.fd = fd; x.mask = e->events; x.data = e->data.u64; x.sock = t->sock; o->ep->items[fd] = x;
    s.reg = true; s.mask = e->events; s.evdata = e->data.u64;
    if(!s.listening) sock_mark(cur, s, readable(s), writable(s));
    return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
    Host h; tick(); Instance *me = cur; Ofd *o = F(ep); if(!o || !o->ep) { errno = EBADF; return -1; }
    auto epl = o->ep;
    while(true) {
        int n = 0;
        for(auto &it : epl->items) { VSock &s = *socks[it.second.sock]; if(s.listening && s.backlog.size() && n < max) { ev[n].events = EPOLLIN; ev[n].data.u64 = it.second.data; n++; } }
        std::vector<int> keep;
        for(int id : me->ready) {
            VSock &s = *socks[id]; uint32_t e = 0; bool level = !(s.mask & EPOLLET);
            if(!s.reg || s.listening) continue;
            if(readable(s)) e |= EPOLLIN;
            if(writable(s) || s.peer_closed) e |= EPOLLOUT;
            if(s.peer_closed) e |= EPOLLRDHUP;
            if(s.reset) e |= EPOLLERR | EPOLLHUP;
            else if(s.peer_closed && s.unixs) e |= EPOLLHUP;
            e &= s.mask | EPOLLERR | EPOLLHUP;
            if(!e) continue;
            if(n >= max) { keep.push_back(id); continue; }
            s.ev_in = s.ev_out = false;
            if(level && (e & (EPOLLIN | EPOLLERR | EPOLLHUP))) keep.push_back(id);
            ev[n].events = e; ev[n].data.u64 = s.evdata; n++;
        }
        me->ready = keep;
        if(n) return n;
        if(me->timeout) { me->timeout = false; clock_us += timeout > 0 ? timeout * 1000ll : 0; return 0; }
        to_driver(me, RS_IDLE);
        cur = me; me->calls = 0;
    }
}
int epoll_pwait(int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *) { return epoll_wait(ep, ev, max, timeout); }
ssize_t send(int fd, const void *b, size_t l, int f) { if(!in_sut) return RAW(SYS_sendto, fd, b, l, f, nullptr, 0); Host h; return v_send(fd, b, l, f); }
ssize_t sendto(int fd, const void *b, size_t l, int f, const struct sockaddr *a, socklen_t n) { if(!in_sut) return RAW(SYS_sendto, fd, b, l, f, a, n); Host h; return v_send(fd, b, l, f); }
ssize_t sendmsg(int fd, const struct msghdr *m, int f) { if(!in_sut) return RAW(SYS_sendmsg, fd, m, f); Host h; str s; for(size_t i = 0; i < m->msg_iovlen; i++) s.append((char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return v_send(fd, s.data(), s.size(), f); }
ssize_t recv(int fd, void *b, size_t l, int f) { if(!in_sut) return RAW(SYS_recvfrom, fd, b, l, f, nullptr, nullptr); Host h; return v_recv(fd, b, l, f); }
ssize_t recvfrom(int fd, void *b, size_t l, int f, struct sockaddr *a, socklen_t *al) { if(!in_sut) return RAW(SYS_recvfrom, fd, b, l, f, a, al); return recv(fd, b, l, f); }
}
void os_init() { vfs = Vfs(); vfs.mkdirs("/z"); vfs.mkdirs("/tmp"); vfs.mkdirs("/dev"); vfs.mkdirs("/var"); }
