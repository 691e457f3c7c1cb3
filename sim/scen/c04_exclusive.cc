#include "dev.h"
#include "sess.h"
/* Every sequence of session operations by three clients on one console (and a broadcast pair). */
static void ops(int depth, int ncl, int nc, bool quiet = false, bool susp = false) {
    Sess s; s.start(nc, ncl); std::vector<S> qt(ncl), qc(ncl); if (quiet) for (int k = 0; k < ncl; k++) if (pick(2, "quiet")) { qt[k] = "QUIET"; qc[k] = ",QUIET"; }
    for (int d = 0; d < depth; d++) {
        struct O { S n; std::function<void()> f; }; std::vector<O> o; bool idle = false;
        for (int k = 0; k < ncl; k++) {
            auto &m = s.cl[k];
            if (!m.used) { if (idle) continue; idle = true;           /* clients are symmetric until first used */
                for (const char *op : {"", "FORCE", "JOIN"}) o.push_back({fmt("connect %d %s", k, op), [&s,&qt,&qc,k,op]{ s.op_connect(k, {0}, *op ? op + qc[k] : qt[k]); }});
                o.push_back({fmt("monitor %d", k), [&s,&qt,k]{ s.op_monitor(k, 0, qt[k]); }});
                if (nc > 1) for (const char *op : {"BROADCAST", "BROADCAST,FORCE", "BROADCAST,JOIN"}) o.push_back({fmt("bcast %d %s", k, op), [&s,&qc,k,op]{ s.op_connect(k, {0,1}, op + qc[k]); }});
            } else if (m.live) {
                if (susp) o.push_back({fmt("&Z %d", k), [&s,k]{ s.op_susp(k); }});
                o.push_back({fmt("close %d", k), [&s,k]{ s.op_close(k, 0); }});
                if (!m.rd.empty()) { if (m.wr.empty()) { o.push_back({fmt("&F %d", k), [&s,k]{ s.op_esc(k, 'F'); }}); o.push_back({fmt("&J %d", k), [&s,k]{ s.op_esc(k, 'J'); }}); } else o.push_back({fmt("&M %d", k), [&s,k]{ s.op_esc(k, 'M'); }}); }
            }
        }
        int c = pick(o.size(), "op"); tracef("op: %s", o[c].n.c_str()); o[c].f(); s.check(o[c].n.c_str());
        /* everybody types: only writers may reach the console */
        for (int k = 0; k < ncl; k++) if (s.cl[k].live) s.op_type(k, fmt("%d%d;", d, k));
        s.op_out(0, fmt("<out%d>", d)); s.check(("traffic after " + o[c].n).c_str());
    }
    outcome(s.summary());
}
SCENARIO(excl_ops, "C04", 0,0,0, 0,0,0, "all sequences of connect/force/join/monitor/toggle/close by three clients on one console") { ops(g_thorough ? 7 : 6, 3, 1); }
SCENARIO(excl_bcast, "C04", 0,0,0, 0,0,0, "all sequences of session operations including broadcast over two consoles") { ops(g_thorough ? 5 : 4, 3, 2); }
SCENARIO(excl_quiet, "C04", 0,0,0, 0,0,0, "the same sequences, including broadcast, with every client in quiet mode or not") { int nc = 1 + pick(2, "consoles"); ops((nc == 1 ? 4 : 3) + g_thorough, 3, nc, true); }
SCENARIO(excl_susp, "C04", 0,0,0, 0,0,0, "the same sequences with clients suspending and resuming: nothing reaches a suspended client until it resumes, then everything does, in order; its input and its claim to the console stay in effect") { int nc = 1 + pick(2, "consoles"); ops((nc == 1 ? 5 : 4) + (g_thorough && nc == 1), 3, nc, false, true); }
/* A session taken away always ends, whatever state its client is in, after delivering what it had. */
SCENARIO(excl_stolen, "C04", 0,0,0, 0,0,0, "a write session (plain, broadcast, toggled from monitoring) quiet or not, suspended or not, stalled or not, with pending output of 4 sizes, taken away by 4 means: its client gets what was pending, then is disconnected; input it still sends reaches no console") {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; boot(devs_conf(d)); expect_alive(); int kind = pick(3, "session"), quiet = pick(2, "quiet"), susp = pick(2, "suspended"), stall = pick(2, "stalled"), by = pick(4, "by"), late = pick(3, "later"); static const int sz[] = {0, 1, 3000, 16000}; int n = sz[pick(4, "pending")]; if (kind == 1 && n) return;
    Client a, b, m; a.user = "a"; b.user = "b"; m.user = "m"; S q = quiet ? "QUIET" : ""; if (by == 3) { REQUIRE(m.open("MONITOR", {"c1"}), "m"); }
    if (kind == 1) REQUIRE(a.open("CONNECT", {"c1", "c2"}, quiet ? "BROADCAST,QUIET" : "BROADCAST"), "a"); else REQUIRE(a.open(kind ? "MONITOR" : "CONNECT", {"c1"}, q), "a"); if (kind == 2) { a.escape("J"); settle(); } settle(); a.fresh(); if (stall) a.c->window(0); if (susp) { a.escape("Z"); settle(); }
    S out = n ? pattern(n) : S(); if (n) { d[0].send(out); settle(); }
    switch (by) { case 0: REQUIRE(b.open("CONNECT", {"c1"}, "FORCE"), "b"); break; case 1: REQUIRE(b.open("CONNECT", {"c1"}, "FORCE,QUIET"), "b"); break; case 2: REQUIRE(b.open("CONNECT", {"c1", "c2"}, "BROADCAST,FORCE"), "b"); break; case 3: m.escape("F"); settle(); break; }
    settle();
    d[0].take(); d[1].take(); if (late == 1 && !a.closed()) { a.type("evil"); settle(); } if (late == 2 && !a.closed()) { d[0].send("more"); settle(); advance(5); } REQUIRE(d[0].take() == "" && d[1].take() == "", "input of a client whose session was taken away reaches a console");
    S got; if (stall) { for (int i = 0; i < 4; i++) { a.c->window(1 << 20); settle(); got += a.fresh(); } } got += a.fresh(); if (susp) { if (!a.closed()) { a.escape("Z"); settle(); } for (int i = 0; i < 4; i++) { settle(); got += a.fresh(); } } expect_alive();
    REQUIRE(a.closed(), "the client's session was taken away (%s%s%s), but its connection stays open", quiet ? "quiet " : "", susp ? "suspended " : "", stall ? "stalled" : ""); S g = strip_info(got); REQUIRE(g == out, "the client whose session is taken away receives %s", firstdiff(g, out).c_str()); outcome(fmt("%d%d%d%d%d%d", kind, quiet, susp, stall, by, n)); }
