#include "hist.h"
void Hist::step() {
    int nv = vals.size(), nk = seq ? given.size() : keys.size(), ne = extras.size();
    int ups = seq ? (update ? nk * nv : 0) : nk * nv; int op = choose((seq ? nv : 0) + ups + nk + ne, "op");
    auto rec = [&](const str &id, const str &v, bool del) { Rec r; r.id = id; r.val = v; r.del = del; r.ts = vnow(); log.push_back(r); };
    if(seq) { if(op < nv) { trace += fmt("INSERT v%d; ", op); seq_insert(d, c, q, vals[op]); given.push_back(q.last); rec(le64(q.last), vals[op], false); return; } op -= nv; }
    if(op < ups) {
        if(seq) { uint64_t id = given[op / nv]; bool live = q.live.count(id), same = live && q.live[id].val == vals[op % nv]; trace += fmt("UPDATE #%d v%d; ", op / nv, op % nv); seq_update(d, c, q, id, vals[op % nv]); if(live && !same) rec(le64(id), vals[op % nv], false); }
        else { const str &k = keys[op / nv], &v = vals[op % nv]; bool same = m.live.count(k) && m.live[k].back().val == v; trace += fmt("SET k%d v%d; ", op / nv, op % nv); user_set(d, c, m, k, v); if(!same) rec(k, v, false); }
        return;
    }
    op -= ups;
    if(op < nk) {
        if(seq) { uint64_t id = given[op]; bool live = q.live.count(id); trace += fmt("DEL #%d; ", op); seq_del(d, c, q, id); if(live) rec(le64(id), "", true); }
        else { bool live = m.live.count(keys[op]); trace += fmt("DEL k%d; ", op); user_del(d, c, m, keys[op]); if(live) rec(keys[op], "", true); }
        return;
    }
    const str &e = extras[op - nk]; trace += e + "; ";
    if(e == "NSJUMP") { Reply r = d.cmd(c, {"NSJUMP"}); CHECK(r.ok(), "NSJUMP answers %s", r.show().c_str()); }
    else if(e == "RELOAD") { Reply r = d.cmd(c, {"RELOAD", "default"}); CHECK(r.ok(), "RELOAD answers %s", r.show().c_str()); }
    else if(e == "STOP") { d.stop(c); note_transition(); d.boot(); reconnect(); }
    else if(e == "TERM") { d.term(); note_transition(); d.boot(); reconnect(); }
    else if(e == "KILL") { d.crash(); note_transition(); d.boot(); reconnect(); }
    else if(e == "RESET") { Reply r = d.cmd(c, {"INDEX", "DIRTY", "RESET"}); CHECK(r.ok(), "%s: answers %s", trace.c_str(), r.show().c_str()); }
    else if(e == "IDLE3") { advance(3000000); d.tick(2); }
    else if(e == "SIZE") { static const long sizes[] = {0, 120, 400}; size_t i = 0; while(i < 3 && sizes[i] != inst_set_datasize) i++; d.stop(c); note_transition(); inst_set_datasize = sizes[(i + 1) % 3]; d.boot(); reconnect(); }
    else if(e == "IDLE") { advance(1000000); d.tick(2); }
    else if(e == "READS") { verify(V_ALL); for(auto &a : std::vector<strs>{{"KEYCUR", keys[0]}, {"DATA", "RAW", "0", "28"}, {"INDEX", "DIRTY"}, {"INFO"}, {"NSLIST"}, {"KSCAN", "k"}, {"TIME"}, {"HOOKS"}}) d.cmd(c, a); }
    else if(e == "BAD") {
        if(!seq) { for(auto &a : std::vector<strs>{{"SET", str(256, 'x'), "v"}, {"SET", "k1"}, {"SET", "", "v"}, {"DEL", "missing"}, {"DEL"}, {"SET", "k1", "v", "ts", "x"}, {"NSNEW", "default"}, {"FLUSH"}, {"NSSET", "default", "nope", "1"}}) { Reply r = d.cmd(c, a); CHECK(r.err(), "%s answers %s", a[0].c_str(), r.show().c_str()); } }
        else { for(auto &a : std::vector<strs>{{"SET", le64(999), "v"}, {"SET", "abc", "v"}, {"DEL", le64(999)}, {"DEL", "x"}, {"FLUSH"}}) { Reply r = d.cmd(c, a); CHECK(r.err(), "%s answers %s", a[0].c_str(), r.show().c_str()); } }
    }
    else internal_error("unknown operation %s", e.c_str());
}
int log_flags = 1;
std::vector<Rec> parse_log(const str &ns, bool crashed) {
    std::vector<Rec> out; std::map<int, str> files; for(auto &f : vfs.list(data_dir(ns))) { if(f.size() < 2 || f[0] != 'd') fail("unexpected file %s in the data directory", f.c_str()); files[atoi(f.c_str() + 1)] = vfs.read(data_dir(ns) + "/" + f); }
    int n = 0;
    for(auto &f : files) {
        if(f.first != n++) fail("data file %d is missing", n - 1);
        const str &b = f.second; if(crashed && b.size() < 28 && n == (int) files.size()) break; if(b.size() < 28 || b.compare(0, 4, "DAT0") || rd32(b, 24) != (uint32_t) f.first) fail("data file %d: bad header %s", f.first, esc(b.substr(0, 28)).c_str());
        size_t p = 28; uint32_t prev = 0; bool first = true;
        while(p < b.size()) {
            if(p + 18 > b.size()) fail("data file %d ends within a record header at offset %zu", f.first, p);
            Rec r; r.file = f.first; r.off = p; size_t idl = (unsigned char) b[p], len = rd32(b, p + 1); r.prev = rd32(b, p + 5); r.crc = rd32(b, p + 9); r.del = b[p + 13] & 1; r.ts = rd32(b, p + 14);
            if((b[p + 13] & ~log_flags) && !crashed) fail("data file %d: the record at offset %zu has the flags 0x%x", f.first, p, (unsigned char) b[p + 13]);
            if(p + 18 + idl + len > b.size()) fail("data file %d ends within the record at offset %zu", f.first, p);
            r.id = b.substr(p + 18, idl); r.val = b.substr(p + 18 + idl, len); if(!first && r.prev != prev) fail("data file %d: the record at offset %zu points to the previous one at %u instead of %u", f.first, p, r.prev, prev);
            r.bad = (b[p + 13] & ~log_flags) || (!r.del && r.crc != crc32z(r.val)); if(r.bad && !crashed) fail("data file %d: the record at offset %zu has the checksum %08x for a payload of checksum %08x", f.first, p, r.crc, crc32z(r.val));
            prev = p; first = false; p += 18 + idl + len; out.push_back(r);
        }
    }
    return out;
}
void compare_log(const std::vector<Rec> &got, const std::vector<Rec> &want, const str &how) {
    for(size_t i = 0; i < std::max(got.size(), want.size()); i++) {
        if(i >= got.size()) fail("%s: the data files hold %zu records instead of %zu", how.c_str(), got.size(), want.size());
        if(i >= want.size()) fail("%s: the data files hold %zu records instead of %zu (last: %s %s)", how.c_str(), got.size(), want.size(), got[i].del ? "deletion of" : "value of", esc(got[i].id).c_str());
        const Rec &g = got[i], &w = want[i];
        if(g.id != w.id || g.del != w.del || g.val != w.val) fail("%s: record %zu is %s%s = %s instead of %s%s = %s", how.c_str(), i, g.del ? "deletion of " : "", esc(g.id).c_str(), esc(g.val).c_str(), w.del ? "deletion of " : "", esc(w.id).c_str(), esc(w.val).c_str());
        if(g.ts != w.ts) fail("%s: record %zu has the timestamp %ld instead of %ld", how.c_str(), i, (long) g.ts, (long) w.ts);
    }
}
