// traces for the comparison with the real operating system (tools/osconf.py): every history of a few steps, with replies and final files
#include "driver.h"
#include <fcntl.h>
#include <unistd.h>
static str hexs(const str &s) { str r; for(unsigned char c : s) r += fmt("%02x", c); return r.empty() ? str("-") : r; }
SUITE(osconf) {
    str path = sparam("dump", ""); bucket_bits = 0; bool seq = choose(2, "mode"), small = choose(2, "size"), sync = choose(2, "sync"); Daemon d; d.extra = {"--mode", seq ? "seq" : "user"}; if(sync) d.extra.push_back("--sync"); if(small) { d.extra.push_back("--datasize"); d.extra.push_back("1048576"); }
    str out = "args"; for(auto &x : d.extra) out += " " + x; out += "\n"; auto clock = [&] { out += fmt("clock %ld\n", (long) clock_us); };
    int c = 0; auto q = [&](const strs &a) { clock(); str r = resp_cmd(a); out += "send " + hexs(r) + "\n"; d.push(c, r); d.run(); out += "recv " + hexs(d.take(c)) + "\n"; };
    auto boot = [&] { clock(); out += "boot\n"; d.boot(); out += "up\n"; c = d.conn(); };
    boot();
    // writes counted from here: the process may die just before one of them
    int depth = param("depth", 3), die = choose(2, "crash") ? choose(param("writes", 6), "write") : -1, left = die; bool dead = false; if(die >= 0) { out += fmt("die %d\n", die); sys_hook = [&](SysKind k, const str &p, long) { SysAct a; if(k == SK_WRITE && left-- == 0) a.crash = true; return a; }; }
    try {
        for(int i = 0; i < depth; i++) {
            int op = choose(11, "op"); advance(1000000); note_transition();
            if(op < 2) q({"SET", seq ? str() : str("k1"), op ? str("b\r\n\0", 4) : str("a")}); else if(op == 2) q({"SET", seq ? str(8, '\0') : str(255, 'k'), small ? str(700000, 'x') : str(300, 'y')}); else if(op == 3) q({"DEL", seq ? str(8, '\0') : str("k1")}); else if(op == 4) q({"NSJUMP"}); else if(op == 5) q({"NSNEW", "n"}); else if(op == 6) q({"SELECT", i % 2 ? "default" : "n"}); else if(op == 7) q({"NSDEL", "n"}); else if(op == 8) q({"RELOAD", "default"});
            else if(op == 9) { clock(); out += "term\n"; d.term(); boot(); } else { clock(); out += "kill\n"; d.crash(); boot(); }
        }
        q({"SCAN"}); q({"GET", seq ? str(8, '\0') : str("k1")}); q({"NSLIST"}); q({"DBSIZE"}); q({"INDEX", "DIRTY"});
    } catch(Crashed &) { dead = true; out += "dead\n"; }
    sys_hook = nullptr; if(!dead && die >= 0) return;   // no such write: the same as without a crash
    if(dead) { boot(); q({"SCAN"}); q({"DBSIZE"}); q({"SET", seq ? str() : str("after"), "z"}); }
    for(auto &f : vfs.snapshot("/z")) if(f.first.find("/sock") == str::npos) out += "file " + f.first.substr(2) + " " + hexs(f.second) + "\n";
    strs names; for(auto top : {"data", "index"}) for(auto &n : vfs.list(str("/z/") + top)) out += fmt("entry %s/%s\n", top, n.c_str());
    out += "end\n"; note_state(fnvs(out)); if(!path.empty()) { int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if(fd < 0 || write(fd, out.data(), out.size()) != (ssize_t) out.size()) internal_error("dump"); close(fd); }
}
