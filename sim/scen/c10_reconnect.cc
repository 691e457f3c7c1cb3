#include "dev.h"
/* Reference model of reconnection: when attempts happen and what everybody is told. */
struct Re { Dev *d; bool tel; double delay, next = -1, up = -1; size_t n = 0; bool pending = false;
    double mn() { return tel ? 15 : 1; } double mx() { return tel ? 1800 : 60; } double stable() { return tel ? 15 : 60; }
    void attempt(double t) { n++; next = -1; }
    void lost(double t) { if (up >= 0 && t - up >= stable() - 1e-6) delay = tel ? 0 : 1; up = -1; pending = false; next = t + delay; if (delay == 0) delay = 15; else delay = std::min(delay * 2, mx()); }
    void conn(double t) { up = t; pending = false; } };
static S conn_m(Dev &d) { return "\r\n<ConMan> Console [" + d.name + "] connected to " + d.target() + ".\r\n"; }
static S disc_m(Dev &d) { return "\r\n<ConMan> Console [" + d.name + "] disconnected from " + d.target() + ".\r\n"; }
static void run(int type, int depth) {
    std::vector<Dev> d{Dev(type, "c1"), Dev(UNIX, "ok", 1)}; d[0].log = "c1.log"; Re m{&d[0], type == TELNET, type == TELNET ? 15.0 : 1.0}; int pol = 0; d[0].svc->policy = [&](Conn*) { return pol; };
    int init = pick(type == TELNET ? 3 : 2, "at startup"); pol = init == 0 ? 0 : init == 1 ? ECONNREFUSED : -1; boot(devs_conf(d)); expect_alive(); Client w; REQUIRE(w.open("MONITOR", {"c1"}), "monitor of a console in any state"); S exp, got; bool attached = true;
    auto after = [&](bool tried) { double t = tnow(); if (tried) m.attempt(t); if (tried) { if (pol == 0) { m.conn(t); exp += conn_m(d[0]); } else if (pol > 0) m.lost(t); else m.pending = true; } };
    after(true);
    if (m.up < 0) { exp += "\r\n<ConMan> Console [c1] is currently disconnected from " + d[0].target() + ".\r\n"; if (m.tel) m.delay = 15; if (!m.pending) after(true); } else exp = "";
    auto check = [&](const char *what) { expect_alive(); got += w.fresh(); REQUIRE(d[0].svc->conns.size() == m.n, "%s: %zu connection attempts instead of %zu", what, d[0].svc->conns.size(), m.n); REQUIRE(got == exp, "%s: the viewer was told %s", what, firstdiff(got, exp).c_str()); REQUIRE(!w.closed(), "%s: the viewer was disconnected", what); };
    check("startup"); (void)attached;
    for (int i = 0; i < depth; i++) {
        if (m.up >= 0) {   /* connected: stay up for a while, then lose it */
            static const double tt[] = {0, 0.9, 14.9, 15.1, 59.9, 60.1}; int k = pick(6, "up time"), how = pick(2, "reset"); advance(tt[k]); check("while connected"); d[0].send("alive"); settle(); exp += "alive"; check("output while connected");
            d[0].trx = TelnetRx(); double t = tnow(); if (how) d[0].io()->reset(); else d[0].io()->close(); pol = 0; int nx = pick(m.tel ? 3 : 2, "next"); pol = nx == 0 ? 0 : nx == 1 ? ECONNREFUSED : -1; exp += disc_m(d[0]); m.lost(t); settle(); if (m.next <= t + 1e-9) after(true); check("after the connection was lost");
        } else if (m.pending) { static const double tt[] = {0, 100}; advance(tt[pick(2, "wait")]); check("while connecting"); int ok = pick(2, "outcome"); double t = tnow(); int nx = pick(2, "next"); pol = nx ? ECONNREFUSED : 0; if (ok == 0) { d[0].io()->accept(); settle(); m.conn(t); exp += conn_m(d[0]); } else { d[0].io()->refuse(pick(2, "errno") ? ETIMEDOUT : ECONNREFUSED); settle(); m.lost(t); if (m.next <= t + 1e-9) after(true); } check("completion of a connection attempt");
        } else {           /* down: either wait for the next attempt or somebody attaches */
            int k = pick(m.tel ? 4 : 3, "next"); 
            if (k == 2) { advance(0.5); if (tnow() >= m.next) { after(true); check("attempt"); continue; } pol = pick(2, "refuse") ? ECONNREFUSED : 0; Client c; REQUIRE(c.open("MONITOR", {"c1"}), "monitor"); if (m.tel) m.delay = 15; S ce = "\r\n<ConMan> Console [c1] is currently disconnected from " + d[0].target() + ".\r\n"; after(true); if (m.up >= 0) ce += conn_m(d[0]); S cg = c.fresh(); REQUIRE(cg == ce, "the newly attached viewer was told %s", firstdiff(cg, ce).c_str()); check("somebody attaching"); c.c->close(); settle(); check("leaving"); continue; }
            pol = k == 0 ? 0 : k == 1 ? ECONNREFUSED : -1; double at = m.next; if (at - tnow() > 0.2) { advance(at - tnow() - 0.1); check("before the next attempt is due"); } advance(at - tnow() + 0.05); double t = tnow(); after(true); if (m.next > 0) m.next -= t - at; if (m.up >= 0) m.up = at; check("when the next attempt was due");
        }
    }
    outcome(fmt("%s n=%zu", devname[type], m.n));
}
SCENARIO(re_telnet, "C10", 0,0,0, 0,0,0, "all sequences of refused, slow, accepted and lost connections, holding times and attaching clients on a network console: exact attempt times and notifications") { run(TELNET, g_thorough ? 5 : 4); }
SCENARIO(re_unix, "C10", 0,0,0, 0,0,0, "the same on a local socket console") { run(UNIX, g_thorough ? 6 : 4); }
/* Long outages: the interval grows to its bound and never beyond; recovery is always noticed. */
SCENARIO(re_long, "C10", 0,0,0, 0,0,0, "outages of up to several days at every stage of the backoff, then recovery") {
    int type = pick(2, "transport") ? TELNET : UNIX; int fails = pick(16, "failed attempts"); std::vector<Dev> d{Dev(type, "c1")}; bool ok = false; d[0].svc->policy = [&](Conn*) { return ok ? 0 : (int)ECONNREFUSED; }; boot(devs_conf(d)); double mx = type == TELNET ? 1800 : 60, dl = type == TELNET ? 15 : 1, t = tnow(); size_t n = 1;
    for (int i = 0; i < fails; i++) { REQUIRE(d[0].svc->conns.size() == n, "attempt count"); advance(t + dl - tnow() - 0.05); REQUIRE(d[0].svc->conns.size() == n, "attempt %zu came before its delay of %.0f s", n, dl); advance(0.1); n++; REQUIRE(d[0].svc->conns.size() == n, "attempt %zu did not come after %.0f s", n, dl); t += dl; dl = std::min(dl * 2, mx); }
    ok = true; advance(dl + 0.1); n++; REQUIRE(d[0].svc->conns.size() == n && d[0].io()->state == 1, "no connection although the device is back"); Client a; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); d[0].send("hi"); settle(); REQUIRE(a.fresh() == "hi", "no output after recovery"); d[0].neg(); a.type("yo"); settle(); REQUIRE(d[0].take() == "yo", "no input after recovery"); advance(86400); REQUIRE(d[0].svc->conns.size() == n, "extra connection attempts while connected"); expect_alive();
}
/* Name resolution fails for a while. */
SCENARIO(re_dns, "C10", 0,0,0, 0,0,0, "a network console whose name cannot be resolved for a while is connected when it can") {
    int tries = pick(4, "failures"); std::vector<Dev> d{Dev(TELNET, "c1"), Dev(UNIX, "ok", 1)}; S ip = W->hosts["tsc1"]; W->hosts.erase("tsc1"); boot(devs_conf(d)); expect_alive(); REQUIRE(d[0].svc->conns.empty(), "connected without a name?"); for (int i = 0; i < tries; i++) { advance(1801); REQUIRE(d[0].svc->conns.empty(), "?"); expect_alive(); }
    W->hosts["tsc1"] = ip; bool att = pick(2, "attach"); Client a; if (att) { REQUIRE(a.open("MONITOR", {"c1"}), "m"); } else { advance(1801); REQUIRE(a.open("MONITOR", {"c1"}), "m"); } REQUIRE(d[0].svc->conns.size() == 1, "not connected after the name became resolvable"); d[0].send("hi"); settle(); REQUIRE(has(a.fresh(), "hi"), "no output"); advance(4000); REQUIRE(d[0].svc->conns.size() == 1, "extra attempts"); expect_alive();
}
/* Local sockets appearing: noticed at once through directory watching. */
SCENARIO(re_inotify, "C10", 0,0,0, 0,0,0, "local sockets created, removed and recreated at any time: connected at once when their creation is reported, and at the latest by polling") {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; InoP s1 = get_ino("/run/c1"), s2 = get_ino("/run/c2"); bool there = pick(2, "present at start"); if (!there) W->vfs.erase("/run/c1"); boot(devs_conf(d)); Client a; REQUIRE(a.open("MONITOR", {"c1"}, "QUIET"), "m"); bool up = there; size_t n = there; int refuse = 0; d[0].svc->policy = [&](Conn*) { return refuse ? (refuse--, (int)ECONNREFUSED) : 0; }; REQUIRE(d[0].svc->conns.size() == n, "start");
    for (int i = 0; i < (g_thorough ? 5 : 4); i++) {
        switch (pick(6, "event")) {
        case 0: if (!there) { W->vfs["/run/c1"] = s1; there = true; int jb = pick(3, "reported together with"); if (jb) { inotify_fire("/run", "c1.x", IN_CREATE); inotify_fire("/run", jb == 1 ? "c" : "c1", IN_DELETE); } inotify_fire("/run", "c1", IN_CREATE); if (jb) inotify_fire("/run", "other", IN_CREATE); settle(); REQUIRE(d[0].svc->conns.size() == n + 1 && d[0].io()->state == 1, "the console is not connected although its socket was just created"); n++; up = true; } break;
        case 1: if (!there) { W->vfs["/run/c1"] = s1; there = true; refuse = 1; inotify_fire("/run", "c1", IN_CREATE); settle(); REQUIRE(!up, "?"); advance(1.1); REQUIRE(d[0].svc->conns.size() == n + 2 && d[0].io()->state == 1, "no quick second attempt after the first one to a newly created socket was refused"); n += 2; up = true; } break;
        case 2: if (there && up) { W->vfs.erase("/run/c1"); d[0].drop(); settle(); there = up = false; } break;
        case 3: if (!there) { W->vfs["/run/c1"] = s1; there = true; advance(61); REQUIRE(d[0].svc->conns.size() == n + 1 && d[0].io()->state == 1, "an existing socket is not found by polling within a minute"); n++; up = true; } break;
        case 5: if (!there) { int what = pick(2, "instead"), told = pick(2, "reported"); if (what) mk_dir("/run/c1"); else put_file("/run/c1", "x"); InoP o = get_ino("/run/c1"); if (told) inotify_fire("/run", "c1", IN_CREATE); settle(); advance(pick(2, "for") ? 61 : 1.1); REQUIRE(d[0].svc->conns.size() == n && (what || o->data == "x"), "something that is no socket is taken for the console's"); W->vfs.erase("/run/c1"); } break;
        case 4: inotify_fire("/run", "unrelated", IN_CREATE); settle(); advance(0.2); REQUIRE(d[0].svc->conns.size() == n && d[1].svc->conns.size() == 1, "an unrelated file affected a console"); break; }
        if (up) { d[0].send("x"); settle(); REQUIRE(a.fresh() == "x", "no output from a connected console"); } REQUIRE(d[1].svc->conns.size() == 1 && !d[1].io()->app_closed(), "another console was disturbed"); expect_alive();
    }
}
