// suites over one sequential namespace
#include "explore.h"
void seq_explore(const SeqCfg &g) {
    Daemon d; d.extra = {"--mode", "seq"}; for(auto &x : g.args) d.extra.push_back(x);
    inst_set_datasize = g.datasize;
    d.boot(); int c = d.conn(); SeqModel m; str trace; std::vector<uint64_t> given;
    int nv = g.vals.size();
    for(int step = 0; step < g.depth; step++) {
        int ng = given.size();
        int nops = nv + ng * nv + ng + g.bad + g.jump + g.reload + g.restart + g.term;
        int op = choose(nops, "op");
        if(op < nv) { trace += fmt("INSERT v%d; ", op); seq_insert(d, c, m, g.vals[op]); given.push_back(m.last); }
        else if((op -= nv) < ng * nv) { trace += fmt("UPDATE #%d v%d; ", op / nv, op % nv); seq_update(d, c, m, given[op / nv], g.vals[op % nv]); }
        else if((op -= ng * nv) < ng) { trace += fmt("DEL #%d; ", op); seq_del(d, c, m, given[op]); }
        else if((op -= ng) < g.bad) {
            trace += "bad ids; ";
            for(uint64_t id : {(unsigned long) m.last + 1, (unsigned long) m.last + 5, (unsigned long) m.last + 1000000, 0xffffffffffffffffUL, 0x100000000UL, 0x7fffffffUL, 0xffffffffUL}) {
                if(m.live.count(id)) continue;
                Reply r = d.cmd(c, {"SET", le64(id), "bad"}); CHECK(r.err(), "SET on the never returned id %lu answers %s", (unsigned long) id, r.show().c_str());
                r = d.cmd(c, {"GET", le64(id)}); CHECK(r.nil(), "GET of the never returned id %lu answers %s", (unsigned long) id, r.show().c_str());
                r = d.cmd(c, {"DEL", le64(id)}); CHECK(r.err(), "DEL of the never returned id %lu answers %s", (unsigned long) id, r.show().c_str());
            }
            for(int len : {1, 2, 3, 4, 5, 6, 7, 9, 16, 255, 256}) {
                str k = (m.any ? le64(m.last) : str(8, '\0')) + str(300, '\0'); k.resize(len);
                Reply r = d.cmd(c, {"SET", k, "bad"}); CHECK(r.err(), "SET with an id of %d bytes answers %s", len, r.show().c_str());
                r = d.cmd(c, {"DEL", k}); CHECK(r.err(), "DEL with an id of %d bytes answers %s", len, r.show().c_str());
                r = d.cmd(c, {"GET", k}); CHECK(r.err() || r.nil(), "GET with an id of %d bytes answers %s", len, r.show().c_str());
            }
        }
        else if((op -= g.bad) < g.jump) { trace += "NSJUMP; "; Reply r = d.cmd(c, {"NSJUMP"}); CHECK(r.ok(), "NSJUMP answers %s", r.show().c_str()); }
        else if((op -= g.jump) < g.reload) { trace += "RELOAD; "; Reply r = d.cmd(c, {"RELOAD", "default"}); CHECK(r.ok(), "RELOAD answers %s", r.show().c_str()); }
        else if((op -= g.reload) < g.restart) { trace += "STOP+start; "; d.stop(c); note_transition(); d.boot(); c = d.conn(); }
        else { trace += "SIGTERM+start; "; d.term(); note_transition(); d.boot(); c = d.conn(); }
        if(g.each || step == g.depth - 1) verify_seq(d, c, m, g.verify);
        note_state(vfs.hash("/z") ^ m.hash());
    }
    if(g.final_restart) { trace += "STOP+start; "; d.restart(); c = d.conn(); verify_seq(d, c, m, g.verify); }
    note_case(trace);
}
// ---- P02
SUITE(seq_ops) { SeqCfg g; g.vals = {"v1", "other"}; g.depth = tier_pick(5, 6); g.jump = 1; g.verify = V_BASIC; seq_explore(g); }
SUITE(seq_restart) { SeqCfg g; g.vals = {"v1"}; g.depth = tier_pick(5, 6); g.jump = g.reload = g.restart = g.term = 1; g.bad = 1; g.verify = V_BASIC; seq_explore(g); }
SUITE(seq_files) { SeqCfg g; g.vals = {str(40, 'x'), "y"}; g.depth = tier_pick(5, 6); g.datasize = 120; g.restart = 1; g.bad = 0; g.verify = V_BASIC; seq_explore(g); }
SUITE(far_seq) { first_jumps = 65534 + choose(2, "files"); SeqCfg g; g.vals = {"v1"}; g.depth = tier_pick(3, 4); g.jump = g.restart = 1; g.bad = 0; g.verify = V_ALL; seq_explore(g); }
// ---- P06
SUITE(scan_seq) { SeqCfg g; g.vals = {"v1", "other"}; g.depth = tier_pick(4, 5); g.jump = g.reload = g.restart = 1; g.bad = 0; g.verify = V_SCAN | V_RSCAN; seq_explore(g); }
// every distribution of ids over the files: the id of any file, of a file without ids, and of none
SUITE(seq_many) {
    Daemon d; d.extra = {"--mode", "seq"}; d.boot(); int c = d.conn(); SeqModel m; int shape = choose(3, "shape"); std::vector<int> per; str trace;
    if(shape == 0) { int f = 1 + choose(tier_pick(6, 7), "files"); for(int i = 0; i < f; i++) per.push_back(choose(3, "ids")); } else if(shape == 1) { int f = 1 + choose(tier_pick(40, 70), "files"), k = choose(3, "ids"); for(int i = 0; i < f; i++) per.push_back(k == 2 ? i % 3 : k + 1); } else { int f = 1020 + choose(10, "files"); for(int i = 0; i < f; i++) per.push_back(1); }
    std::vector<uint64_t> ids; for(size_t i = 0; i < per.size(); i++) { if(i) CHECK(d.cmd(c, {"NSJUMP"}).ok(), "NSJUMP"); if(per.size() < 10) trace += fmt("%d ", per[i]); for(int k = 0; k < per[i]; k++) { seq_insert(d, c, m, fmt("v%zu.%d", i, k)); ids.push_back(m.last); } } trace += fmt("over %zu files ", per.size());
    auto bad = [&] { for(uint64_t id : {m.last + 1, m.last + 2, m.last + 3, m.last + 100, (uint64_t) 1 << 32, (uint64_t) 1 << 40, ~(uint64_t) 0}) { if(m.live.count(id)) continue; Reply r = d.cmd(c, {"GET", le64(id)}); CHECK(r.nil(), "%s: GET of the never returned id %lu answers %s", trace.c_str(), (unsigned long) id, r.show().c_str()); r = d.cmd(c, {"SET", le64(id), "x"}); CHECK(r.err(), "%s: SET of the never returned id %lu answers %s", trace.c_str(), (unsigned long) id, r.show().c_str()); } };
    verify_seq(d, c, m, V_BASIC); bad(); if(shape < 2) { if(ids.size()) { uint64_t x = ids[choose(std::min<size_t>(ids.size(), 12), "changed")]; if(choose(2, "how")) seq_update(d, c, m, x, "updated"); else seq_del(d, c, m, x); } verify_seq(d, c, m, V_BASIC); }
    d.restart(); c = d.conn(); verify_seq(d, c, m, V_BASIC); bad(); seq_insert(d, c, m, "after"); d.cmd(c, {"NSJUMP"}); seq_insert(d, c, m, "after2"); if(ids.size()) { uint64_t x = ids[ids.size() / 2]; if(m.live.count(x)) seq_update(d, c, m, x, "later"); } verify_seq(d, c, m, V_BASIC); note_case(trace); note_state(vfs.hash("/z"));
}
