// namespaces, rights and protections: the whole server against the reference model of world.h
#include "world.h"
typedef std::pair<int, strs> Op;                       // connection number, command
static void explore(World &w, std::vector<int> conns, const std::vector<Op> &ops, int depth, int restarts, bool each = true) {
    for(int step = 0; step < depth; step++) {
        int o = choose(ops.size() + restarts, "op");
        if(o < (int) ops.size()) w.exec(conns[ops[o].first], ops[o].second);
        else { w.reboot(o - ops.size() == 1); for(auto &c : conns) c = w.conn(); }
        if(each || step == depth - 1) w.verify(); else note_state(w.hash());
    }
    note_case(w.trace);
}
// ---- P08
SUITE(iso_user) {
    World w; w.start(); str ka = "abcde"; w.keys = {ka, crc32c_partner(ka)}; int a = w.conn(), b = w.conn(), c = w.conn();
    w.exec(c, {"NSNEW", "A"}); w.exec(c, {"NSNEW", "B"}); w.exec(c, {"NSSET", "A", "password", "pw"}); w.exec(c, {"NSSET", "A", "public", "0"}); w.exec(a, {"SELECT", "A", "pw"}); w.exec(b, {"SELECT", "B"});
    std::vector<Op> ops; for(int i = 0; i < 2; i++) for(int k = 0; k < 2; k++) { ops.push_back({i, {"SET", w.keys[k], fmt("of-%c", "AB"[i])}}); ops.push_back({i, {"DEL", w.keys[k]}}); }
    ops.push_back({2, {"SET", w.keys[0], "of-default"}}); ops.push_back({2, {"RELOAD", "A"}}); ops.push_back({2, {"RELOAD", "B"}}); ops.push_back({0, {"FLUSH"}}); ops.push_back({0, {"NSJUMP"}}); ops.push_back({2, {"NSSET", "A", "maxsize", "3"}});
    explore(w, {a, b, c}, ops, tier_pick(4, 5), 0);
}
SUITE(iso_delete) {
    World w; w.start(); w.keys = {"k1", "k2"}; int a = w.conn(), b = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "A"}); w.exec(c, {"NSNEW", "B"}); w.exec(a, {"SELECT", "A"}); w.exec(b, {"SELECT", "B"}); w.exec(a, {"SET", "k1", "in-A"}); w.exec(b, {"SET", "k1", "in-B"}); w.exec(c, {"SET", "k1", "in-default"});
    std::vector<Op> ops{{0, {"SET", "k1", "A2"}}, {0, {"SET", "k2", "A3"}}, {1, {"SET", "k1", "B2"}}, {1, {"DEL", "k1"}}, {2, {"DEL", "k1"}}, {2, {"NSDEL", "A"}}, {2, {"NSDEL", "B"}}, {2, {"NSNEW", "A"}}, {2, {"SELECT", "A"}}, {2, {"SELECT", "default"}}, {2, {"SET", "k2", "C1"}}, {2, {"NSNEW", "C"}}};
    explore(w, {a, b, c}, ops, tier_pick(4, 5), 1);
}
SUITE(iso_mixed) {
    World w; w.mode = 2; w.start(); w.keys = {"k1", str(8, '\0')}; int a = w.conn(), b = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "A"}); w.exec(c, {"NSNEW", "B"}); w.exec(c, {"NSSET", "B", "mode", "seq"}); w.exec(a, {"SELECT", "A"}); w.exec(b, {"SELECT", "B"});
    std::vector<Op> ops{{0, {"SET", "k1", "A1"}}, {0, {"SET", str(8, '\0'), "A2"}}, {0, {"DEL", str(8, '\0')}}, {1, {"SET", "", "B1"}}, {1, {"SET", "", "B-other"}}, {1, {"SET", str(8, '\0'), "B2"}}, {1, {"DEL", str(8, '\0')}}, {2, {"NSSET", "A", "mode", "seq"}}, {2, {"NSSET", "A", "mode", "user"}}, {2, {"NSSET", "B", "mode", "user"}}, {2, {"RELOAD", "A"}}, {2, {"RELOAD", "B"}}, {0, {"SET", "", "A3"}}, {2, {"SET", "k1", "d1"}}};
    explore(w, {a, b, c}, ops, tier_pick(4, 5), 1);
}
SUITE(iso_files) {
    // the data files are small: each namespace goes on to its next file by itself, at its own moments
    World w; inst_set_datasize = 110; bool sq = choose(2, "mode"); w.mode = sq ? 1 : 0; w.start(); w.keys = {"k1", "k2"}; int a = w.conn(), b = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "A"}); w.exec(c, {"NSNEW", "B"}); w.exec(c, {"NSSET", "A", "password", "pw"}); w.exec(c, {"NSSET", "A", "public", "0"}); w.exec(c, {"NSSET", "B", "maxsize", "95"}); w.exec(a, {"SELECT", "A", "pw"}); w.exec(b, {"SELECT", "B"});
    str big(44, 'b'), mid(30, 'm'); std::vector<Op> ops; ops.push_back({2, {"SET", sq ? str() : str("k1"), big}}); for(int i = 0; i < 2; i++) { for(int k = 0; k < 2; k++) ops.push_back({i, {"SET", sq ? str() : w.keys[k], k ? mid : big}}); ops.push_back({i, {"SET", sq ? le64(0) : str("k1"), str(1, "ABC"[i])}}); ops.push_back({i, {"DEL", sq ? le64(0) : str("k1")}}); }
    ops.push_back({0, {"FLUSH"}}); ops.push_back({2, {"RELOAD", "B"}}); ops.push_back({2, {"NSSET", "B", "worm", "1"}});
    for(int step = 0; step < tier_pick(4, 5); step++) {
        int o = choose(ops.size() + 1, "op"); if(o < (int) ops.size()) w.exec(ops[o].first == 0 ? a : ops[o].first == 1 ? b : c, ops[o].second); else { w.reboot(thorough() && choose(2, "how")); a = w.conn(); b = w.conn(); c = w.conn(); w.exec(a, {"SELECT", "A", "pw"}); w.exec(b, {"SELECT", "B"}); }
    }
    w.verify(); w.reboot(); w.verify(); note_case(w.trace);
}
// ---- P09
SUITE(ns_life) {
    World w; w.start(); w.keys = {"k1"}; int a = w.conn(), b = w.conn();
    std::vector<Op> ops; for(auto n : {"A", "B"}) { ops.push_back({0, {"NSNEW", n}}); ops.push_back({0, {"NSDEL", n}}); ops.push_back({0, {"SELECT", n}}); ops.push_back({1, {"SELECT", n}}); } ops.push_back({1, {"SET", "k1", "v"}}); ops.push_back({1, {"GET", "k1"}}); ops.push_back({0, {"NSDEL", "default"}}); ops.push_back({1, {"NSDEL", "A"}}); ops.push_back({1, {"NSINFO", "A"}}); ops.push_back({1, {"NSLIST"}});
    explore(w, {a, b}, ops, tier_pick(4, 5), 1);
}
SUITE(ns_detach) {
    // several connections inside a namespace which is removed, and created again
    World w; w.start(); w.keys = {"k1"}; int c[4]; for(auto &x : c) x = w.conn(); w.exec(c[0], {"NSNEW", "A"}); w.exec(c[0], {"NSNEW", "B"}); for(int i = 1; i < 4; i++) w.exec(c[i], {"SELECT", i == 3 && choose(2, "third") ? "B" : "A"});
    std::vector<Op> ops{{0, {"NSDEL", "A"}}, {0, {"NSDEL", "B"}}, {0, {"NSNEW", "A"}}, {0, {"SET", "k1", "in-default"}}}; for(int i = 1; i < 4; i++) { ops.push_back({i, {"SET", "k1", fmt("by-%d", i)}}); ops.push_back({i, {"SELECT", "A"}}); if(i == 1) ops.push_back({i, {"SELECT", "B"}}); ops.push_back({i, {"SELECT", "default"}}); } ops.push_back({1, {"NSDEL", "B"}}); ops.push_back({2, {"GET", "k1"}});
    int depth = tier_pick(4, 5); bool renew = false;
    for(int step = 0; step < depth; step++) {
        int o = choose(ops.size() + (renew ? 0 : 1), "op"); if(o < (int) ops.size()) w.exec(c[ops[o].first], ops[o].second); else { renew = true; w.d.hangup(c[2]); w.cli.erase(c[2]); c[2] = w.conn(); w.trace += "[2] leaves, a new client comes; "; }
        w.verify(false);
    }
    for(int i = 1; i < 4; i++) w.exec(c[i], {"GET", "k1"}); w.verify(); note_case(w.trace);
}
SUITE(ns_flush) {
    World w; w.mode = choose(2, "mode") ? 2 : 0; w.start(); w.keys = {"k1", "k2"}; int a = w.conn(), b = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "A"}); if(w.mode == 2) w.exec(c, {"NSSET", "A", "mode", "seq"}); w.exec(a, {"SELECT", "A"}); w.exec(b, {"SELECT", "A"});
    bool sq = w.mode == 2; str k = sq ? "" : "k1";
    std::vector<Op> ops{{0, {"SET", k, "v1"}}, {1, {"SET", sq ? str() : str("k2"), "v2"}}, {0, {"FLUSH"}}, {1, {"FLUSH"}}, {2, {"FLUSH"}}, {0, {"NSJUMP"}}, {2, {"NSSET", "A", "password", "pw"}}, {2, {"NSSET", "A", "public", "0"}}, {2, {"NSSET", "A", "public", "1"}}, {2, {"NSSET", "A", "password", "*"}}, {1, {"DEL", sq ? str(8, '\0') : str("k1")}}};
    if(choose(2, "prepared")) { w.exec(c, {"NSSET", "A", "password", "pw"}); w.exec(c, {"NSSET", "A", "public", "0"}); w.exec(a, {"SET", k, "first"}); }
    for(int step = 0; step < tier_pick(4, 5); step++) { int o = choose(ops.size() + 1, "op"); if(o < (int) ops.size()) w.exec(ops[o].first == 0 ? a : ops[o].first == 1 ? b : c, ops[o].second); else { w.reboot(); a = w.conn(); b = w.conn(); c = w.conn(); str p = w.ns["A"].pass; if(p.empty()) { w.exec(a, {"SELECT", "A"}); w.exec(b, {"SELECT", "A"}); } else { w.exec(a, {"SELECT", "A", p}); w.exec(b, {"SELECT", "A", p}); } } w.verify(); }
    note_case(w.trace);
}
SUITE(ns_names) {
    strs names{"a", "A", "a b", "a\n", ".", "..", "...", "../x", "/etc", "a/b", "default", "Default", "default\0x", ".lockfile", "zdb-namespace", "i0", "d0", str("\0x", 2), str("a\0b", 3), str("..\0x", 4), str("../e\0", 5), "", str(127, 'n'), str(128, 'n'), str(129, 'n'), str(300, 'n'), "\xff\xfe", "%s%n", "*", "-1", str("default\0x", 9)};
    World w; w.start(); w.keys = {"k1"}; int a = w.conn(), b = w.conn(); w.exec(a, {"SET", "k1", "keep"}); w.exec(a, {"NSNEW", "other"}); w.exec(b, {"SELECT", "other"}); w.exec(b, {"SET", "k1", "keep2"});
    int i = choose(names.size(), "name"), j = choose(2, "second") ? choose(names.size(), "name2") : -1; strs use{names[i]}; if(j >= 0) use.push_back(names[j]);
    for(auto &n : use) {
        w.exec(a, {"NSNEW", n}); w.verify(); if(n.size() <= 128 && !n.empty()) { Reply r = w.exec(b, {"SELECT", n}); w.exec(b, {"SET", "k1", "written"}); w.exec(b, {"NSINFO", n}); w.verify(); w.exec(b, {"SELECT", "other"}); } else { Reply r = w.d.cmd(b, {"SELECT", n}); CHECK(r.err(), "SELECT %s answers %s", esc(n, 20).c_str(), r.show().c_str()); r = w.d.cmd(b, {"NSINFO", n}); CHECK(r.err(), "NSINFO %s answers %s", esc(n, 20).c_str(), r.show().c_str()); }
        if(choose(2, "delete")) { if(n.size() <= 128 && !n.empty()) w.exec(a, {"NSDEL", n}); else { Reply r = w.d.cmd(a, {"NSDEL", n}); CHECK(r.err(), "NSDEL %s answers %s", esc(n, 20).c_str(), r.show().c_str()); } w.verify(); }
    }
    w.reboot(); w.verify(); a = w.conn(); for(auto &n : use) { if(n.size() <= 128 && !n.empty()) { w.exec(a, {"NSDEL", n}); w.verify(); w.exec(a, {"NSNEW", n}); w.verify(); } }
    note_case(w.trace);
}
// ---- P10
SUITE(admin_rights) {
    World w; w.adminpw = "s3cret"; w.protect = thorough() ? choose(2, "protect") : 1; w.start(); w.keys = {"k1"}; int a = w.conn(), b = w.conn(); Reply r;
    CHECK(w.d.cmd(w.obs, {"NSNEW", "A"}).ok(), "NSNEW by the administrator"); w.ns["A"] = w.fresh_ns();
    std::vector<Op> ops; for(auto p : {str("s3cret"), str("S3cret"), str("s3cre"), str("s3cret "), str("s3cret\0x", 8), str("wrong"), str(129, 'x')}) ops.push_back({0, {"AUTH", p}}); ops.push_back({1, {"AUTH", "s3cret"}}); ops.push_back({1, {"AUTH", "s3cret\n"}});
    ops.push_back({0, {"AUTH", "SECURE", "CHALLENGE"}}); ops.push_back({0, {"AUTH", "SECURE", "s3cret"}}); ops.push_back({0, {"AUTH", "SECURE", str(40, '0')}}); ops.push_back({0, {"SELECT", "A"}});
    for(int step = 0; step < 2; step++) { int o = choose(ops.size(), "auth"); w.exec(ops[o].first ? b : a, ops[o].second); }
    std::vector<strs> cmds{{"NSNEW", "N"}, {"NSDEL", "A"}, {"NSSET", "A", "password", "p"}, {"NSSET", "A", "public", "0"}, {"NSSET", "A", "worm", "1"}, {"NSSET", "A", "maxsize", "10"}, {"NSSET", "A", "lock", "1"}, {"NSSET", "default", "freeze", "1"}, {"NSSET", "A", "mode", "seq"}, {"NSJUMP"}, {"RELOAD", "A"}, {"HOOKS"}, {"INDEX", "DIRTY"}, {"INDEX", "DIRTY", "RESET"}, {"DATA", "RAW", "0", "26"}, {"SET", "k1", "stamped", "1234"}, {"DEL", "k1", "1234"}, {"MIRROR"}, {"MASTER"}, {"SET", "k1", "v"}, {"GET", "k1"}, {"NSLIST"}, {"NSINFO", "A"}};
    for(int step = 0; step < tier_pick(2, 3); step++) {
        int who = (step == 0 || thorough()) && choose(2, "who") ? b : a, o = choose(cmds.size(), "command"); auto before = vfs.snapshot("/z"); bool adm = w.cli[who].admin; const strs &c = cmds[o];
        if(c[0] == "MIRROR" || c[0] == "MASTER") { if(adm && w.cli[who].detached == false) continue; }
        r = w.exec(who, c);
        if(!adm && o < 19) { CHECK(r.err(), "%s by a regular connection answers %s  [%s]", c[0].c_str(), r.show().c_str(), w.trace.c_str()); CHECK(before == vfs.snapshot("/z"), "%s refused to a regular connection changed the files  [%s]", c[0].c_str(), w.trace.c_str()); }
        if(c[0] == "HOOKS") CHECK(adm ? r.t == '*' : r.err(), "HOOKS answers %s", r.show().c_str());
        if(c[0] == "INDEX") CHECK(adm ? !r.err() : r.err(), "INDEX answers %s", r.show().c_str());
        w.verify();
    }
    note_case(w.trace);
}
SUITE(admin_mirror) {
    // a refused MIRROR or MASTER has no later effect either
    World w; w.adminpw = "s3cret"; w.start(); int a = w.conn(), b = w.conn(); w.keys = {"k1"}; w.exec(b, {"AUTH", "s3cret"}); bool first = choose(2, "which");
    w.exec(a, {first ? "MIRROR" : "MASTER"}); w.exec(b, {"NSNEW", "A"}); w.exec(b, {"NSSET", "A", "password", "hidden-pass"}); CHECK(w.d.take(a).empty(), "a refused MIRROR forwards commands"); 
    Reply r = w.d.cmd(a, {"NSINFO", "A"}); CHECK(!r.err() && r.s.find("hidden-pass") == str::npos && info_field(r.s, "password_raw") == "<none>", "NSINFO shows the password to a regular connection"); CHECK(info_field(r.s, "data_path") == "<none>", "NSINFO shows paths to a regular connection");
    r = w.d.cmd(a, {"GET", "k1", "77"}); CHECK(r.err(), "a refused MASTER changes the parsing of requests: %s", r.show().c_str()); w.verify(); note_case("refused MIRROR and MASTER");
}
SUITE(admin_none) {
    // without admin password everybody is administrator and AUTH is refused
    World w; w.start(); int a = w.conn(); w.keys = {"k1"}; std::vector<Op> ops{{0, {"AUTH", "x"}}, {0, {"AUTH", "SECURE", "CHALLENGE"}}, {0, {"AUTH", "SECURE", sha1hex("x:x")}}, {0, {"NSNEW", "A"}}, {0, {"NSSET", "A", "worm", "1"}}, {0, {"SET", "k1", "v", "1234"}}, {0, {"NSJUMP"}}, {0, {"RELOAD", "A"}}, {0, {"NSDEL", "A"}}};
    explore(w, {a}, ops, 3, 1);
}
// ---- P11
SUITE(select_rights) {
    World w; w.adminpw = choose(2, "admin") ? "adm" : ""; w.protect = !w.adminpw.empty(); w.start(); w.keys = {"k1"}; int a = w.conn(); auto adm = [&](strs c) { Reply r = w.d.cmd(w.obs, c); CHECK(r.ok(), "%s answers %s", c[0].c_str(), r.show().c_str()); };
    int kind = choose(4, "kind"); adm({"NSNEW", "N"}); NsM n = w.fresh_ns(); if(kind & 1) { adm({"NSSET", "N", "password", "word"}); n.pass = "word"; } if(kind & 2) { adm({"NSSET", "N", "public", "0"}); n.pub = false; } w.ns["N"] = n;
    int seed = w.d.conn(); CHECK((n.pass.empty() ? w.d.cmd(seed, {"SELECT", "N"}) : w.d.cmd(seed, {"SELECT", "N", "word"})).ok(), "SELECT"); int64_t t0 = vnow(); w.d.cmd(seed, {"SET", "k1", "kept"}); w.ns["N"].kv.set("k1", "kept", t0); w.ns["N"].fresh = false; w.d.hangup(seed);
    std::vector<strs> sel{{"SELECT", "N"}, {"SELECT", "N", "word"}, {"SELECT", "N", "wor"}, {"SELECT", "N", "word2"}, {"SELECT", "N", str("word\0z", 6)}, {"SELECT", "N", ""}, {"SELECT", "N", str(256, 'w')}, {"SELECT", "default"}, {"SELECT", "default", "adm"}, {"SELECT", "default", "word"}, {"SELECT", "missing"}, {"SELECT", "N", "WORD"}};
    std::vector<strs> acts{{"SET", "k1", "other"}, {"SET", "k2", "new"}, {"DEL", "k1"}, {"FLUSH"}, {"GET", "k1"}, {"SET", "k1", "kept"}, {"SCAN"}};
    for(int step = 0; step < tier_pick(3, 4); step++) {
        int o = choose(sel.size() + acts.size() + (w.adminpw.empty() ? 0 : 1), "op");
        if(o < (int) sel.size()) w.exec(a, sel[o]); else if((o -= sel.size()) < (int) acts.size()) { bool ro = !w.cli[a].writable; auto before = vfs.snapshot("/z"); Reply r = w.exec(a, acts[o]); if(ro && o != 4 && o != 6) { CHECK(r.err(), "%s on a read-only selection answers %s  [%s]", acts[o][0].c_str(), r.show().c_str(), w.trace.c_str()); CHECK(before == vfs.snapshot("/z"), "%s on a read-only selection changes the files  [%s]", acts[o][0].c_str(), w.trace.c_str()); } } else w.exec(a, {"AUTH", "adm"});
        w.verify();
    }
    note_case(w.trace);
}
SUITE(select_toggle) {
    // settings that change while connections hold a selection
    World w; w.start(); w.keys = {"k1"}; int a = w.conn(), b = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "N"}); w.exec(c, {"NSSET", "N", "password", "word"}); w.exec(b, {"SELECT", "N"});
    std::vector<Op> ops{{0, {"SELECT", "N"}}, {0, {"SELECT", "N", "word"}}, {0, {"SELECT", "N", "changed"}}, {0, {"SET", "k1", "a"}}, {1, {"SET", "k1", "b"}}, {1, {"DEL", "k1"}}, {1, {"FLUSH"}}, {2, {"NSSET", "N", "public", "0"}}, {2, {"NSSET", "N", "public", "1"}}, {2, {"NSSET", "N", "password", "changed"}}, {2, {"NSSET", "N", "password", "*"}}, {2, {"RELOAD", "N"}}};
    explore(w, {a, b, c}, ops, tier_pick(4, 5), 1);
}
// ---- P12
SUITE(challenges) {
    World w; w.adminpw = "adm"; w.protect = true; w.start(); w.keys = {"k1"}; int a = w.conn(), b = w.conn(); auto adm = [&](strs c) { CHECK(w.d.cmd(w.obs, c).ok(), "%s", c[0].c_str()); };
    adm({"NSNEW", "N"}); adm({"NSSET", "N", "password", "word"}); adm({"NSSET", "N", "public", "0"}); NsM n = w.fresh_ns(); n.pass = "word"; n.pub = false; w.ns["N"] = n; strs issued[2];
    for(int step = 0; step < tier_pick(4, 5); step++) {
        int who = choose(2, "who"), c = who ? b : a, act = choose(1 + 2 * 5, "act");
        if(act == 0) { Reply r = w.exec(c, {"AUTH", "SECURE", "CHALLENGE"}); issued[who].push_back(r.s); }
        else {
            bool sel = (act - 1) % 2; int kind = (act - 1) / 2; str pw = sel ? "word" : "adm", nonce; auto last = [&](strs &v, size_t back) { return v.size() > back ? v[v.size() - 1 - back] : str(); };
            switch(kind) { case 0: nonce = last(issued[who], 0); break; case 1: nonce = last(issued[who], 1); break; case 2: nonce = last(issued[!who], 0); break; case 3: nonce = last(issued[who], 0); pw = sel ? "adm" : "word"; break; case 4: nonce = ""; break; }
            str h = sha1hex(nonce + ":" + pw); if(sel) w.exec(c, {"SELECT", "N", "SECURE", h}); else w.exec(c, {"AUTH", "SECURE", h});
        }
        // the rights obtained are exactly those granted
        for(int x : {a, b}) { Reply r = w.d.cmd(x, {"NSSET", "N", "nothing", "1"}); bool isadm = !r.has("Permission"); CHECK(isadm == w.cli[x].admin, "connection %d is%s administrative  [%s]", x, isadm ? "" : " not", w.trace.c_str()); r = w.d.cmd(x, {"SET", "probe", "x", "bad", "bad"}); }
        w.verify(false);
    }
    note_case(w.trace);
}
SUITE(challenge_replies) {
    // malformed responses never succeed; a well-formed one works once
    World w; w.adminpw = "adm"; w.start(); w.keys = {}; int a = w.conn(), b = w.conn(); auto adm = [&](strs c) { CHECK(w.d.cmd(w.obs, c).ok(), "%s", c[0].c_str()); }; adm({"NSNEW", "N"}); adm({"NSSET", "N", "password", "word"}); adm({"NSSET", "N", "public", "0"}); NsM n = w.fresh_ns(); n.pass = "word"; n.pub = false; w.ns["N"] = n;
    bool sel = choose(2, "select"); Reply r = w.exec(a, {"AUTH", "SECURE", "CHALLENGE"}); str good = sha1hex(r.s + (sel ? ":word" : ":adm")), up = good; for(auto &ch : up) ch = toupper(ch);
    strs bad{good.substr(0, 39), good + "0", str(40, '0'), up == good ? str(40, 'f') : up, good.substr(0, 39) + str(1, '\0'), sha1hex(r.s), sha1hex("adm"), "adm", "word", sha1hex(":adm"), sha1hex(r.s + ":"), sha1hex(sel ? "(null):word" : "(null):adm"), sha1hex(sel ? ":word" : ":adm"), sha1hex(sel ? "word" : "adm")};
    auto attempt = [&](int c, const str &h) { return sel ? w.exec(c, {"SELECT", "N", "SECURE", h}) : w.exec(c, {"AUTH", "SECURE", h}); };
    int x = choose(bad.size() + 1, "response"); if(x < (int) bad.size()) attempt(a, bad[x]); if(choose(2, "stolen")) attempt(b, good); attempt(a, good); attempt(a, good); attempt(b, good); for(auto &h : bad) { int f = choose(2, "fresh") ? w.conn() : a; attempt(f, h); if(f != a) break; } w.exec(b, {"AUTH", "SECURE", "CHALLENGE"}); attempt(b, good); w.verify(); note_case(w.trace);
}
// ---- P13
static void worm(bool seq) {
    World w; w.mode = seq ? 1 : 0; w.start(); w.keys = {"k1", "k2"}; int a = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "N"}); w.exec(c, {"NSSET", "N", "password", "pw"}); w.exec(c, {"NSSET", "N", "public", "0"}); w.exec(a, {"SELECT", "N", "pw"}); str i0 = str(8, '\0');
    w.exec(a, {"SET", seq ? str() : str("k1"), "first"}); w.exec(c, {"NSSET", "N", "worm", "1"}); str k1 = seq ? i0 : "k1";
    std::vector<Op> ops{{0, {"SET", k1, "other"}}, {0, {"SET", k1, "first"}}, {0, {"SET", k1, "stamped", "5"}}, {0, {"DEL", k1}}, {0, {"DEL", k1, "5"}}, {0, {"SET", seq ? str() : str("k2"), "second"}}, {0, {"SET", seq ? le64(1) : str("k2"), "third"}}, {0, {"DEL", seq ? le64(1) : str("k2")}}, {0, {"FLUSH"}}, {0, {"NSJUMP"}}, {1, {"RELOAD", "N"}}, {1, {"NSSET", "N", "maxsize", "6"}}, {1, {"NSSET", "N", "worm", "1"}}, {1, {"NSSET", "N", "worm", "0"}}, {1, {"NSSET", "N", "password", "pw"}}};
    for(int step = 0; step < tier_pick(4, 5); step++) {
        int o = choose(ops.size() + 1, "op"); bool on = w.ns["N"].worm; auto kv = w.ns["N"].kv; auto sq = w.ns["N"].sq; int cs[2] = {a, c};
        if(o < (int) ops.size()) w.exec(cs[ops[o].first], ops[o].second); else { w.reboot(); a = w.conn(); c = w.conn(); w.exec(a, {"SELECT", "N", "pw"}); }
        if(on) { for(auto &x : kv.live) CHECK(w.ns["N"].kv.live.count(x.first) && w.ns["N"].kv.live[x.first].back().val == x.second.back().val, "a worm value changed"); }
        w.verify();
    }
    note_case(w.trace);
}
SUITE(worm_user) { worm(false); }
SUITE(worm_seq) { worm(true); }
// ---- P14
static void locks(bool seq) {
    World w; w.cursors = true; w.mode = seq ? 1 : 0; w.start(); w.keys = {"k1", "k2"}; int a = w.conn(), b = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "A"}); w.exec(c, {"NSNEW", "B"}); w.exec(c, {"NSSET", "A", "password", "pw"}); w.exec(c, {"NSSET", "A", "public", "0"}); w.exec(a, {"SELECT", "A", "pw"}); w.exec(b, {"SELECT", "B"}); str k = seq ? "" : "k1", k0 = seq ? str(8, '\0') : str("k1"); w.exec(a, {"SET", k, "first"}); w.exec(b, {"SET", k, "in-B"});
    std::vector<Op> ops{{2, {"NSSET", "A", "lock", "1"}}, {2, {"NSSET", "A", "lock", "0"}}, {2, {"NSSET", "A", "freeze", "1"}}, {2, {"NSSET", "A", "freeze", "0"}}, {2, {"NSSET", "B", "freeze", "1"}}, {2, {"NSSET", "default", "lock", "1"}}, {0, {"SET", k0, "second"}}, {0, {"SET", seq ? str() : str("k2"), "third"}}, {0, {"DEL", k0}}, {0, {"SET", k0, "x", "55"}}, {0, {"FLUSH"}}, {1, {"SET", k0, "second-B"}}, {2, {"SET", seq ? str() : str("k1"), "in-default"}}, {2, {"RELOAD", "A"}}};
    for(auto r : {"GET", "MGET", "EXISTS", "LENGTH", "CHECK", "KEYTIME", "HISTORY", "KSCAN"}) if(!seq || (str(r) != "KSCAN" && str(r) != "HISTORY")) ops.push_back({0, {r, k0}}); ops.push_back({0, {"SCAN"}}); ops.push_back({0, {"RSCAN"}});
    explore(w, {a, b, c}, ops, tier_pick(3, 4), 0);
    // afterwards everything is as before
    for(auto n : {"A", "B", "default"}) if(w.ns[n].lock) w.exec(c, {"NSSET", n, w.ns[n].lock == 1 ? "lock" : "freeze", "0"}); w.verify();
}
SUITE(locks_user) { locks(false); }
SUITE(locks_seq) { locks(true); }
SUITE(locks_deep) {
    World w; w.cursors = true; w.start(); w.keys = {"k1"}; int a = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "A"}); w.exec(a, {"SELECT", "A"}); w.exec(a, {"SET", "k1", "first"});
    std::vector<Op> ops{{1, {"NSSET", "A", "lock", "1"}}, {1, {"NSSET", "A", "lock", "0"}}, {1, {"NSSET", "A", "freeze", "1"}}, {1, {"NSSET", "A", "freeze", "0"}}, {0, {"SET", "k1", "second"}}, {0, {"SET", "k1", "third"}}, {0, {"DEL", "k1"}}, {0, {"GET", "k1"}}, {1, {"RELOAD", "A"}}};
    explore(w, {a, c}, ops, tier_pick(5, 6), 1);
    if(w.ns["A"].lock) w.exec(w.cli.rbegin()->first, {"NSSET", "A", w.ns["A"].lock == 1 ? "lock" : "freeze", "0"}); w.verify();
}
// ---- P15
SUITE(quota) {
    World w; w.start(); w.keys = {"k1", "k2", "k3"}; int a = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "N"}); w.exec(c, {"NSSET", "N", "maxsize", "10"}); w.exec(a, {"SELECT", "N"});
    std::vector<Op> ops; for(auto k : {"k1", "k2"}) { for(auto v : {"", "12345", "123456", "0123456789", "0123456789a"}) ops.push_back({0, {"SET", k, v}}); ops.push_back({0, {"DEL", k}}); } ops.push_back({0, {"SET", "k3", "9"}}); ops.push_back({1, {"NSSET", "N", "maxsize", "5"}}); ops.push_back({1, {"RELOAD", "N"}}); ops.push_back({0, {"NSJUMP"}});
    for(int step = 0; step < tier_pick(4, 5); step++) {
        int o = choose(ops.size() + 1, "op"); if(o < (int) ops.size()) w.exec(ops[o].first ? c : a, ops[o].second); else { w.reboot(); a = w.conn(); c = w.conn(); w.exec(a, {"SELECT", "N"}); }
        w.verify(false);
    }
    note_case(w.trace);
}

SUITE(quota_seq) {
    World w; w.mode = thorough() ? choose(2, "mode") + 1 : 2; w.start(); int a = w.conn(), c = w.conn(); w.exec(c, {"NSNEW", "N"}); if(w.mode == 2) w.exec(c, {"NSSET", "N", "mode", "seq"}); w.exec(c, {"NSSET", "N", "maxsize", "10"}); w.exec(a, {"SELECT", "N"});
    std::vector<Op> ops; for(auto v : {"", "12345", "123456", "0123456789"}) ops.push_back({0, {"SET", "", v}}); for(int id : {0, 1}) { for(auto v : {"", "abcde", "abcdef", "0123456789", "0123456789a"}) ops.push_back({0, {"SET", le64(id), v}}); ops.push_back({0, {"DEL", le64(id)}}); } ops.push_back({1, {"NSSET", "N", "maxsize", "5"}}); ops.push_back({1, {"RELOAD", "N"}}); ops.push_back({0, {"NSJUMP"}});
    for(int step = 0; step < tier_pick(4, 5); step++) {
        int o = choose(ops.size() + 1, "op"); if(o < (int) ops.size()) w.exec(ops[o].first ? c : a, ops[o].second); else { w.reboot(); a = w.conn(); c = w.conn(); w.exec(a, {"SELECT", "N"}); }
        w.verify(false);
    }
    note_case(w.trace);
}
