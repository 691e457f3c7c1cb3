/* C36: one failing system call while the daemon runs. */
#include "dev.h"
#include <fcntl.h>
enum { U, T, P_, S_, I, Q };
static std::vector<Dev> *dv; static Client *by; static S by_got, why;
static int live_fds() { return D->nfds(); }
static void talk(const char *when) { S x = fmt("<%s>", when); (*dv)[Q].send(x); settle(); by_got += by->fresh(); REQUIRE(!by->closed(), "%s: %s: the viewer of another console is disconnected", why.c_str(), when); REQUIRE(has(by_got, x), "%s: %s: the viewer of another console does not get its output", why.c_str(), when); }
static bool alive_now(const char *when) { REQUIRE(!D->exited, "%s: %s: the daemon has ended (status %d, signal %d): \"%s\"", why.c_str(), when, D->code, D->killed_by, esc(D->err.size() > 300 ? D->err.substr(D->err.size() - 300) : D->err).c_str()); return true; }
/* IPMI sessions requested meanwhile are established */
static void complete() { if (IpmiCtx *c = (*dv)[I].ctx()) if (c->submitted && c->status == 1 && !c->destroyed) { ipmi_complete(c, true, 0); settle(); } }
static bool works(Dev &d, const char *when) { Client c; c.user = "prober"; REQUIRE(c.open("CONNECT", {d.name}, "FORCE,QUIET"), "%s: %s: no connection to [%s]: %s", why.c_str(), when, d.name.c_str(), c.rsp.empty() ? esc(c.raw).c_str() : c.rsp.back().c_str());
    advance(0.3); complete(); Conn *k = d.io(); bool in = false, out = false; if (k && k->state == 1 && !k->app_closed()) { c.fresh(); d.take(); d.send("ping"); settle(); out = has(c.fresh(), "ping"); c.type("pong"); settle(); in = has(d.take(), "pong"); } c.c->close(); settle(); REQUIRE(in == out, "%s: %s: [%s] passes data in one direction only", why.c_str(), when, d.name.c_str()); return in; }
static void ready(std::vector<Dev> &d) { for (int i = 0; i < 6; i++) d[i].up(); }
static const char *EV[] = {"the consoles drop and come back", "programs and logs are reopened (SIGHUP)", "the log files were removed (SIGHUP)", "clients come, list and go", "a client joins, steals and broadcasts", "a reset is requested", "output is logged and time stamps are written", "input is written to all consoles", "an idle minute passes", "a local socket disappears and returns", "a message to the daemon's log"};
static void run(int shortage) {
    int ev = pick(sizeof EV / sizeof *EV, "activity"), bg = pick(2, "background"); W->hosts["bmci"] = "10.0.9.9"; std::vector<Dev> d{Dev(UNIX, "u"), Dev(TELNET, "t", 1), Dev(PROCESS, "p", 2), Dev(SERIAL, "s", 3), Dev(IPMI, "i", 4), Dev(UNIX, "q", 5)}; dv = &d; for (auto &x : d) x.log = "%N/" + x.name + ".log"; mk_dir("/var/log");
    S cf = devs_conf(d, "server resetcmd=\"cycle %N\"\nserver logfile=\"/var/log/d.log\"\nserver pidfile=\"/run/p\"\nserver timestamp=1m\nserver keepalive=on\n"); if (bg) boot_daemon(cf); else boot(cf); why = ""; alive_now("start"); ready(d); Client b; by = &b; by_got = ""; REQUIRE(b.open("MONITOR", {"q"}, "QUIET"), "viewer"); b.c->app->label = "bystander"; d[Q].io()->app->label = "bystander"; talk("before"); auto nf0 = W->nofile; int nf = live_fds(); why = EV[ev];
    if (shortage == 1) { int used = 0, k = pick(5, "descriptors left"); for (int n = k; ; used++) { if (used >= (int)D->fds.size() || !D->fds[used]) { if (!n--) break; } } W->nofile = used; why += fmt(", %d descriptors left", k); } else if (shortage == 2) { W->fork_fails = true; W->thread_fails = pick(2, "threads") ? 1000000 : 0; why += ", no processes"; } else if (shortage == 3) { W->disk_full = true; why += ", disk full"; } else if (shortage == 4) { W->open_hook = [](const S &p, int fl) -> int { (void)p; return fl & O_CREAT ? (int)EROFS : 0; }; why += ", read-only file system"; }
    W->sys_skip = {"read bystander", "write bystander", "sigaction", "dup2", "fstat", "getcwd", "chdir"}; if (!shortage) { W->sys_io = true; W->sys_faults = D; } Client a, c; a.user = "ann"; c.user = "cy";
    switch (ev) {
    case 0: for (int i : {U, T, P_, S_, I}) { d[i].drop(); settle(); if (i == S_) { d[i].tty->to->wclosed = false; } if (D->exited) break; advance(0.2); complete(); } advance(61); complete(); break;
    case 1: raise_sig(D, SIGHUP); settle(); break;
    case 2: for (auto &x : d) { W->vfs.erase("/var/log/" + x.name + "/" + x.name + ".log"); W->vfs.erase("/var/log/" + x.name); } W->vfs.erase("/var/log/d.log"); raise_sig(D, SIGHUP); settle(); break;
    case 3: a.open("QUERY", {"*"}); c.open("MONITOR", {"u"}); c.c->close(); settle(); { Conn *x = dial(PORT); x->send("HELLO USER='z'\n"); settle(); x->reset(); settle(); } { Client e; e.open("CONNECT", {"nosuch"}); } break;
    case 4: a.open("CONNECT", {"u"}); c.open("CONNECT", {"u"}, "JOIN"); { Client e; e.user = "eve"; e.open("CONNECT", {"u"}, "FORCE"); if (e.handshaken()) e.type("x"); settle(); e.c->close(); settle(); } { Client e; e.open("CONNECT", {"u", "t", "p", "s", "i"}, "BROADCAST"); e.type("all"); settle(); e.c->close(); settle(); } break;
    case 5: a.open("CONNECT", {"u"}); a.escape("R"); settle(); advance(61); break;
    case 6: for (int i = 0; i < 5; i++) { d[i].send("output line\n"); settle(); } advance(60); for (int i = 0; i < 5; i++) if (d[i].io() && d[i].io()->state == 1) { d[i].send("more\n"); settle(); } break;
    case 7: for (int i = 0; i < 5; i++) { Client e; e.user = "typist"; if (e.open("CONNECT", {d[i].name}, "QUIET")) { e.type("hello\n"); settle(); if (i == T || i == S_ || i == I) { e.escape("B"); settle(); } } e.c->close(); settle(); } break;
    case 8: advance(60); break;
    case 9: { InoP s0 = get_ino("/run/u"); W->vfs.erase("/run/u"); d[U].drop(); settle(); inotify_fire("/run", "u", IN_DELETE); settle(); advance(2); W->vfs["/run/u"] = s0; inotify_fire("/run", "u", IN_CREATE); settle(); advance(2); break; }
    case 10: { Conn *x = dial(PORT); x->send("NONSENSE\n"); settle(); x->close(); settle(); break; } }
    S f = W->sys_failed; if (!shortage) why += ", failing: " + (f.empty() ? S("nothing") : f); else f = "shortage"; W->sys_faults = nullptr; W->nofile = nf0; W->fork_fails = W->disk_full = false; W->thread_fails = 0; W->open_hook = nullptr; alive_now("during"); expect_alive(); talk("during");
    if (a.c) a.c->close(); if (c.c) c.c->close(); settle(); for (auto v : W->vprocs) if (v->path == "/bin/sh" && v->alive) vproc_die(v, 0); settle();
    for (int k = 0; k < 3; k++) { advance(130); alive_now("later"); complete(); } talk("later");
    for (int i = 0; i < 6; i++) if (i != S_) { Conn *k = d[i].io(); REQUIRE(k && k->state == 1 && !k->app_closed(), "%s: [%s] is not connected again", why.c_str(), d[i].name.c_str()); }
    for (int i = 0; i < 6; i++) { bool ok = works(d[i], "afterwards"); if (i == S_ && !ok) { REQUIRE(!f.empty() && (ev == 0 || ev == 7 || ev == 6 || ev == 4), "%s: [s] is lost", why.c_str()); continue; } REQUIRE(ok, "%s: [%s] does not work afterwards", why.c_str(), d[i].name.c_str()); }
    raise_sig(D, SIGHUP); settle(); advance(1); complete(); alive_now("after another SIGHUP"); bool sup = true; for (int i = 0; i < 6; i++) { bool ok = works(d[i], "finally"); if (i == S_) { sup = ok; if (!ok) continue; } REQUIRE(ok, "%s: [%s] does not work finally", why.c_str(), d[i].name.c_str()); d[i].send("\nlogged-" + d[i].name + "\n"); settle(); REQUIRE(has(file_data("/var/log/" + d[i].name + "/" + d[i].name + ".log"), "logged-" + d[i].name), "%s: [%s] is not logged after the logs were reopened", why.c_str(), d[i].name.c_str()); }
    talk("finally"); expect_alive(); REQUIRE(live_fds() == nf - !sup, "%s: %d descriptors are open instead of %d", why.c_str(), live_fds(), nf - !sup); raise_sig(D, SIGTERM); settle(); REQUIRE(D->exited && D->code == 0, "%s: SIGTERM does not end the daemon", why.c_str()); REQUIRE(!get_ino("/run/p"), "%s: the pid file is left behind", why.c_str()); outcome(fmt("%d %s%d", ev, f.c_str(), sup));
}
SCENARIO(one_failure, "C36", 0,1,0, 0,2,0, "11 kinds of activity on consoles of all five transports with logs, clients and resets, daemonized or not, every single (thorough: every two) system calls failing once: the daemon, the other consoles and clients are unaffected, and everything works again afterwards, nothing leaked") { run(0); }
SCENARIO(shortages, "C36", 0,0,0, 0,0,0, "the same activities while no or few file descriptors are left, no process or thread can be created, the disk is full or nothing can be created on it, until the end of the activity") { run(1 + pick(4, "shortage")); }
