/* C11: consoles backed by a program. */
#include "dev.h"
struct Pm { double delay = 60, next = -1, up = -1; int n = 0;
    void lost(double t) { if (up >= 0 && t - up >= 60 - 1e-6) delay = 0; up = -1; next = t + delay; delay = delay == 0 ? 60 : std::min(delay * 2, 1800.0); } };
static S up_m(Dev &d) { return up_msg(d); }
static int zombies() { int n = 0; for (auto v : W->vprocs) if (!v->alive && !v->reaped) n++; return n; }
static int alive_progs() { int n = 0; for (auto v : W->vprocs) if (v->alive && v->path == "/bin/c1.prog") n++; return n; }
/* Everything the program may see of the daemon. */
static void check_env(VProc *v, const std::vector<S> &argv) {
    REQUIRE(v->execd && v->argv.size() == argv.size(), "the program was started with %zu arguments instead of %zu", v->argv.size(), argv.size());
    for (size_t i = 0; i < argv.size(); i++) REQUIRE((i ? v->argv[i] : v->path) == argv[i], "argument %zu of the program is \"%s\" instead of \"%s\"", i, esc(v->argv[i]).c_str(), esc(argv[i]).c_str());
    REQUIRE(v->fds.size() >= 3 && v->fds[0] && v->fds[0] == v->fds[1] && v->fds[1] == v->fds[2] && v->fds[0]->type == F_SOCKPAIR, "stdin, stdout and stderr of the program are not its console");
    for (size_t i = 3; i < v->fds.size(); i++) REQUIRE(!v->fds[i], "the program inherited descriptor %zu of the daemon (type %d %s)", i, v->fds[i]->type, v->fds[i]->path.c_str());
}
SCENARIO(proc_respawn, "C11", 0,0,0, 0,0,0, "all sequences of exits (status, signal, closing its output), missing or unrunnable programs, fork failures, up times, waits and attaching clients: exact start times and notifications") {
    std::vector<Dev> d{Dev(PROCESS, "c1"), Dev(UNIX, "ok", 1)}; int fk = 1 + pick(3, "kind of failure"); S path = "/bin/c1.prog"; InoP prog = get_ino(path); int flt = 0; Pm m;
    auto setfail = [&](int f) { flt = f; W->fork_fails = f == 3; if (f == 1) W->vfs.erase(path); else W->vfs[path] = prog; prog->mode = f == 2 ? 0644 : 0755; };
    boot(devs_conf(d)); expect_alive(); Client w; w.user = "w"; REQUIRE(w.open("MONITOR", {"c1"}), "monitor"); m.n = 1; m.up = 0; int base = D->nfds(); S exp, got;
    auto tried = [&](double t) { m.next = -1; if (!flt) { m.n++; m.up = t; exp += up_m(d[0]); } else { S e = flt == 1 ? "\"c1.prog\" stat error: No such file or directory" : flt == 2 ? "\"c1.prog\" not executable" : "fork error: Resource temporarily unavailable"; exp += "\r\n<ConMan> Console [c1] connection failed: " + e + ".\r\n"; m.lost(t); } };
    int att = 0; auto check = [&](const char *what) { expect_alive(); got += w.fresh(); REQUIRE(d[0].nconn() == m.n, "%s: the program was started %d times instead of %d", what, d[0].nconn(), m.n); S e = exp; REQUIRE(got == e, "%s: the viewer was told %s", what, firstdiff(got, e).c_str()); REQUIRE(!w.closed(), "%s: the viewer was disconnected", what); REQUIRE(zombies() == 0, "%s: an exited program was not reaped", what); REQUIRE(alive_progs() == (m.up >= 0), "%s: %d programs are running", what, alive_progs()); REQUIRE(D->nfds() == base + att - (m.up < 0), "%s: %d descriptors open instead of %d", what, D->nfds(), base + att - (m.up < 0)); if (m.up >= 0) check_env(d[0].proc(), {path}); };
    check("startup");
    for (int i = 0, n = g_thorough ? 5 : 4; i < n; i++) {
        if (m.up >= 0) {
            static const double tt[] = {59.9, 60.1, 0, 100000}; double u = tt[pick(g_thorough ? 4 : 2, "up time")]; int how = g_thorough ? pick(4, "end") : i == 0 ? pick(4, "end") : 2 * pick(2, "end"), nx = pick(2, "next") * fk; if (u > 0) advance(u - (tnow() - m.up) > 0 ? u - (tnow() - m.up) : 0); check("while running");
            d[0].send("out"); settle(); exp += "out"; check("output"); double t = tnow(), held = t - m.up; VProc *v = d[0].proc(); setfail(nx);
            if (how == 0) vproc_die(v, 0); else if (how == 1) vproc_die(v, 3 << 8); else if (how == 2) vproc_die(v, 11); else v->io->close();
            settle(); int s = (int)(held + 0.5); (void)s; got += w.fresh(); S pre = fmt("\r\n<ConMan> Console [c1] disconnected from \"c1.prog\" (pid %d) after ", v->pid); REQUIRE(got.compare(0, exp.size(), exp) == 0 && got.compare(exp.size(), pre.size(), pre) == 0, "the viewer was not told of the end: %s", firstdiff(got, exp + pre).c_str()); size_t e = got.find("\r\n", exp.size() + 2); REQUIRE(e != S::npos, "unterminated notice"); exp = got.substr(0, e + 2);
            if (how == 3) REQUIRE(!v->alive, "a program that closed its output keeps running beside its successor");
            m.lost(t); if (m.next <= t + 1e-9) tried(t); got = got.substr(0, got.size()); check("after the program ended");
        } else {
            int k = pick(5, "next"), nx = pick(2, "outcome") * fk;
            if (k == 4 || k == 3) {   /* somebody attaches before it is due */
                if (k == 3 && m.next - tnow() > 10) advance(9); if (tnow() >= m.next) continue; setfail(nx); double t = tnow(); Client c; c.user = "x"; REQUIRE(c.open(k == 3 ? "MONITOR" : "CONNECT", {"c1"}), "attach: %s", esc(c.raw).c_str());
                S before = exp; if (k == 4) exp += "\r\n<ConMan> Console [c1] joined by <x@cli> on pts/0 at " "11-14 22:13" ".\r\n"; if (k == 4) { got += w.fresh(); if (got.size() >= exp.size()) { size_t p = got.find(" at ", before.size()), q = got.find(".\r\n", before.size()); if (p != S::npos && q != S::npos) exp = got.substr(0, q + 3); } REQUIRE(has(exp.substr(before.size()), "joined by <x@cli>"), "no joined notice"); }
                tried(t); att = 1; check("somebody attaching"); att = 0; c.c->close(); settle(); if (k == 4) { got += w.fresh(); S x = got.substr(std::min(got.size(), exp.size())); REQUIRE(has(x, "departed by <x@cli>"), "no departed notice"); exp = got; } check("leaving"); continue; }
            setfail(nx); double at = m.next; if (k == 1 && at - tnow() > 0.2) { advance(at - tnow() - 0.1); check("before the restart is due"); }
            if (k == 2) { Client c; c.user = "q"; REQUIRE(c.open("QUERY", {"c1"}), "query"); check("a query"); }
            advance(at - tnow() + 0.05); double t = tnow(); tried(t); if (m.next > 0) m.next -= t - at; if (m.up >= 0) m.up = at; check("when the restart was due"); }
    }
    outcome(fmt("n=%d up=%d", m.n, m.up >= 0));
}
SCENARIO(proc_env, "C11", 1,0,0, 2,0,0, "programs started at startup, on restart and by an attaching client while everything else is open and requests are in progress: arguments and inherited descriptors") {
    std::vector<Dev> d{Dev(UNIX, "u1"), Dev(TELNET, "t1", 1), Dev(SERIAL, "s1", 2), Dev(IPMI, "i1", 3), Dev(PROCESS, "p1", 4)}; for (auto &x : d) x.log = x.name + ".log"; int args = pick(5, "arguments");
    static const char *DV[] = {"/bin/c1.prog", "/bin/c1.prog a 'b c'  d", "/bin/c1.prog %N -x%N=%N", "c1.prog  1", "sub/c1.prog -v \t #2 ; $x"}; static const std::vector<S> AV[] = {{"/bin/c1.prog"}, {"/bin/c1.prog", "a", "b c", "d"}, {"/bin/c1.prog", "c1", "-xc1=c1", ""}, {"/bin/c1.prog", "1"}, {"/sub/c1.prog", "-v", "#2", ";", "$x"}};
    std::vector<S> av = AV[args]; if (args == 2) av.pop_back(); put_file("/bin/c1.prog", "", 0755); put_file("/sub/c1.prog", "", 0755); boot(devs_conf(d, S("server logfile=\"/var/log/daemon.log\"\nserver pidfile=\"/run/conmand.pid\"\nserver execpath=\"/nowhere:/bin:/sbin\"\n")) + "console name=\"c1\" dev=\"" + DV[args] + "\"\n"); expect_alive();
    for (auto &x : d) x.up(); auto last = [&]{ VProc *v = 0; for (auto x : W->vprocs) if (x->execd && x->path == av[0]) v = x; return v; }; VProc *v = last(); REQUIRE(v, "the program was not started"); check_env(v, av);
    Client a, b; REQUIRE(a.open("CONNECT", {"u1"}), "c"); REQUIRE(b.open("MONITOR", {"c1"}), "m");
    int pend = pick(4, "requests in progress"), how = pick(2, "restart"); std::vector<Conn*> cs; W->explore_sched = true;
    static const char *part[] = {"", "HELLO US", "HELLO USER='z'\nQUERY CON"}; for (int i = 0; i < pend; i++) { Conn *c = dial(PORT); c->send(part[i]); cs.push_back(c); } if (!pick(2, "started while they arrive")) settle();
    if (how) { advance(61); vproc_die(last(), 0); } else { vproc_die(last(), 0); Conn *c = dial(PORT); c->send("HELLO USER='y' TTY='t'\nCONNECT CONSOLE='c1'\n"); cs.push_back(c); }
    settle(); W->explore_sched = false; settle(); if (last() == v) { Client c; c.open("MONITOR", {"c1"}); } REQUIRE(last() != v, "the program was not restarted"); check_env(last(), av); REQUIRE(zombies() == 0, "an exited program was not reaped"); outcome(fmt("%d", pend)); for (auto c : cs) c->close(); settle(); expect_alive();
}
SCENARIO(proc_together, "C11", 1,0,0, 2,0,0, "several programs end before the daemon runs again, so that one signal stands for all of them, in two rounds with every grouping and kind of end: each is reaped and started again") {
    std::vector<Dev> d{Dev(PROCESS, "c1"), Dev(PROCESS, "c2", 1), Dev(PROCESS, "c3", 2), Dev(UNIX, "u1", 3)}; boot(devs_conf(d, "server resetcmd=\"/bin/true\"\n")); expect_alive(); Client w; REQUIRE(w.open("MONITOR", {"c1"}), "monitor");
    auto live = [&]{ int n = 0; for (int i = 0; i < 3; i++) if (d[i].proc() && d[i].proc()->alive) n++; return n; }; REQUIRE(live() == 3, "%d of 3 programs run", live());
    for (int r = 0; r < 2; r++) {
        int set = 1 + pick(7, "which end"), how = pick(3, "end"); double up = pick(2, "up time") ? 61 : 1; advance(up); W->explore_sched = true;
        std::vector<VProc*> v; for (int i = 0; i < 3; i++) v.push_back(d[i].proc());
        for (int k = 0; k < 3; k++) { int i = how == 2 ? 2 - k : k; if (!(set >> i & 1)) continue; if (how == 1) v[i]->io->close(); else vproc_die(v[i], how ? 9 : 0); }
        settle(); W->explore_sched = false; settle(); expect_alive(); int z = zombies(); REQUIRE(!z, "%d ended programs were not reaped", z);
        for (int i = 0; i < 3; i++) if (set >> i & 1) REQUIRE(!v[i]->alive, "a program whose console was lost keeps running"); else REQUIRE(v[i]->alive && d[i].proc() == v[i], "a program that did not end was replaced");
        advance(130); settle(); REQUIRE(live() == 3, "round %d: %d of 3 programs run two minutes after others ended", r, live()); z = zombies(); REQUIRE(!z, "%d ended programs were not reaped", z);
    }
    outcome(fmt("%d", (int)W->vprocs.size()));
}
SCENARIO(proc_end, "C11", 0,0,0, 0,0,0, "the daemon is terminated, with programs running, waiting or just exiting: none is left behind") {
    std::vector<Dev> d{Dev(PROCESS, "c1"), Dev(PROCESS, "c2", 1)}; boot_daemon(devs_conf(d)); expect_alive(); int st = pick(4, "state"), sg = pick(2, "signal"); if (st == 1) { vproc_die(d[0].proc(), 0); settle(); } if (st == 2) { vproc_die(d[0].proc(), 0); } if (st == 3) { advance(3600); vproc_die(d[0].proc(), 0); settle(); }
    raise_sig(D, sg ? SIGTERM : SIGINT); settle(); REQUIRE(D->exited && D->code == 0 && !D->killed_by, "the daemon did not end: code %d", D->code); for (auto v : W->vprocs) REQUIRE(!v->alive, "program %s (pid %d) is left running", v->path.c_str(), v->pid);
}
