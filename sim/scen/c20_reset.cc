/* C20: reset commands. */
#include "dev.h"
/* Running commands: everything spawned as /bin/sh -c. */
static std::vector<VProc*> resets(const S &cmd) { std::vector<VProc*> o; for (auto v : W->vprocs) if (v->execd && v->path == "/bin/sh" && v->argv.size() == 3 && v->argv[1] == "-c" && v->argv[2] == cmd) o.push_back(v); return o; }
static int nsh() { int n = 0; for (auto v : W->vprocs) n += v->path == "/bin/sh"; return n; }
static void check_child(VProc *v) {
    REQUIRE(v->pgid == v->pid, "reset command %d is not in a process group of its own", v->pid);
    for (size_t i = 0; i < v->fds.size(); i++) if (v->fds[i]) REQUIRE(i < 3 && v->fds[i]->type == F_NULL, "the reset command inherited descriptor %zu (type %d %s)", i, v->fds[i]->type, v->fds[i]->path.c_str());
}
struct RC { S name; VProc *v = nullptr; VProc *kid = nullptr; double t0 = 0; int n = 0; bool run() { return v && v->alive; } };
SCENARIO(reset_hist, "C20", 0,0,0, 0,0,0, "all sequences of reset requests by a writer, a viewer, a broadcaster and a joined writer, command ends, fork failures and waits: what runs when, what is killed when, and every notice") {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; boot(devs_conf(d, "server resetcmd=\"cycle %N; sleep 9\"\n")); expect_alive(); Client w, m, b, m2; w.user = "w"; m.user = "m"; b.user = "b"; m2.user = "m2";
    REQUIRE(w.open("CONNECT", {"c1"}) && m.open("MONITOR", {"c1"}) && m2.open("MONITOR", {"c2"}) && b.open("CONNECT", {"c1", "c2"}, "BROADCAST,JOIN"), "open"); w.fresh(); m.fresh(); b.fresh(); m2.fresh();
    std::vector<RC> c(2); c[0].name = "c1"; c[1].name = "c2"; W->on_exec = [&](VProc *v) { if (v->path != "/bin/sh") return 0; RC *r = 0; for (auto &x : c) if (v->argv[2] == "cycle " + x.name + "; sleep 9") r = &x; REQUIRE(r, "unexpected command \"%s\"", esc(v->argv.size() > 2 ? v->argv[2] : "").c_str());
        REQUIRE(!r->run(), "a second reset command for [%s] was started while one is running", r->name.c_str()); r->v = v; r->t0 = tnow(); r->n++; VProc *k = new VProc; k->pid = v->pid + 5000; k->parent = v->pid; k->pgid = v->pid; k->execd = true; k->path = "/bin/sleep"; r->kid = k; W->vprocs.push_back(k); return 0; };
    int nf = D->nfds(); size_t nlog = file_data("/var/log/c1.log").size(); int n = g_thorough ? 5 : 4;
    for (int i = 0; i < n; i++) {
        S exp1, exp2; int op = pick(9, "op"); int n0[2] = {c[0].n, c[1].n}; bool was[2] = {c[0].run(), c[1].run()}; S un[2]; bool unspec[2] = {false, false};
        auto request = [&](Client &cl, std::vector<int> cs, bool ff) { W->fork_fails = ff; cl.escape("R"); settle(); W->fork_fails = false; for (int k : cs) { S &e = k ? exp2 : exp1; S nm = c[k].name; 
            if (was[k]) { REQUIRE(c[k].n == n0[k], "reset of busy [%s]", nm.c_str()); e += fmt("\r\n<ConMan> Ignoring reset of console [%s]: pid %d still active.\r\n", nm.c_str(), c[k].v->pid); }
            else if (ff) e += fmt("\r\n<ConMan> Unable to reset console [%s]: fork failed: Resource temporarily unavailable.\r\n", nm.c_str());
            else { REQUIRE(c[k].n == n0[k] + 1, "%d commands were run for [%s] by one request", c[k].n - n0[k], nm.c_str()); check_child(c[k].v); e += fmt("\r\n<ConMan> Console [%s] reset by <%s@cli> (pid %d).\r\n", nm.c_str(), cl.user.c_str(), c[k].v->pid); } } };
        switch (op) {
        case 0: request(w, {0}, false); break; case 1: m.escape("R"); settle(); break; case 2: request(b, {0, 1}, false); break;
        case 3: if (c[0].run()) { if (c[0].kid->alive) vproc_die(c[0].kid, 0); vproc_die(c[0].v, 0); settle(); } break; case 4: if (c[1].run()) { vproc_die(c[1].kid, 0); vproc_die(c[1].v, 15); if (c[0].run()) { vproc_die(c[0].kid, 0); vproc_die(c[0].v, 0); } settle(); } break;   /* both at once: one signal */
        case 5: case 6: case 7: { double dt = op == 5 ? 30 : op == 6 ? 29.9 : 61, end = tnow() + dt; for (int k = 0; k < 2; k++) if (c[k].run() && c[k].t0 + 60 <= end - 1e-9) was[k] = true; else was[k] = false; advance(dt);
            for (int k = 0; k < 2; k++) if (was[k]) { REQUIRE(!c[k].run(), "the reset command of [%s] still runs %.1f s after its start", c[k].name.c_str(), tnow() - c[k].t0); REQUIRE(!c[k].kid->alive, "a process started by the reset command of [%s] was not killed with it", c[k].name.c_str()); double at = (c[k].v->killed_at.back() / 1e6 - 1700000000.0) - c[k].t0; REQUIRE(at > 59.99 && at < 60.5, "the command was killed after %.2f s", at); } else if (c[k].v) REQUIRE(c[k].run() || c[k].v->killed.empty() || true, "?"); break; }
        case 8: request(w, {0}, true); break; }
        for (int k = 0; k < 2; k++) if (c[k].v && c[k].run() && tnow() - c[k].t0 < 59.99) REQUIRE(c[k].v->killed.empty(), "the reset command of [%s] was killed after %.1f s", c[k].name.c_str(), tnow() - c[k].t0);
        if (op == 1) REQUIRE(c[0].n == n0[0] && c[1].n == n0[1], "a reset was run for a client without write access");
        S g = m.fresh(); REQUIRE(g == exp1, "viewers of c1 were told %s", firstdiff(g, exp1).c_str()); g = m2.fresh(); REQUIRE(g == exp2, "viewers of c2 were told %s", firstdiff(g, exp2).c_str()); g = w.fresh(); REQUIRE(g == exp1, "the writer was told %s", firstdiff(g, exp1).c_str()); g = b.fresh(); REQUIRE(g == exp1 + exp2, "the broadcaster was told %s", firstdiff(g, exp1 + exp2).c_str());
        S l = file_data("/var/log/c1.log").substr(nlog); nlog += l.size(); REQUIRE(l == exp1, "the log of c1 has %s", firstdiff(l, exp1).c_str()); REQUIRE(nsh() == c[0].n + c[1].n, "some other command was run"); REQUIRE(D->nfds() == nf, "%d descriptors open instead of %d", D->nfds(), nf); for (auto v : W->vprocs) if (v->parent == D->pid) REQUIRE(v->alive || v->reaped, "an ended reset command was not reaped"); d[0].send("o"); settle(); REQUIRE(m.fresh() == "o" && w.fresh() == "o", "output is disturbed"); nlog++; expect_alive();
    }
    outcome(fmt("%d %d", c[0].n, c[1].n));
}
SCENARIO(reset_env, "C20", 0,0,0, 0,0,0, "the reset command's descriptors, group and text with every kind of console, daemon mode, descriptor shortage and requests in progress") {
    int t = pick(NDEV, "transport"), bg = pick(2, "background"), pend = pick(3, "request in progress"), few = pick(3, "descriptors left"), dn = pick(2, "console down"); std::vector<Dev> d; for (int i = 0; i < NDEV; i++) { d.push_back(Dev(i, fmt("c%d", i), i)); d.back().log = fmt("l%d", i); } S cf = devs_conf(d, "server resetcmd=\"cycle %N\"\nserver logfile=\"/var/log/d.log\"\nserver pidfile=\"/run/p\"\n"); if (bg) boot_daemon(cf); else boot(cf); expect_alive(); for (auto &x : d) x.up();
    Client w; w.user = "w"; REQUIRE(w.open("CONNECT", {d[t].name}), "c"); Conn *p = 0; if (pend) { p = dial(PORT); p->send(pend == 1 ? "HEL" : "HELLO USER='x' TTY=''\nCONN"); settle(); } if (dn) { d[t].drop(); settle(); } w.fresh();
    int used = 0; for (size_t i = 0; i < D->fds.size(); i++) if (D->fds[i]) used = i + 1; for (size_t i = 3; i < (size_t)used; i++) if (!D->fds[i]) { used = i; break; } bool fg_fds = D->fds[0] != nullptr; (void)fg_fds; if (few == 1) { int hi = 0; for (size_t i = 0; i < D->fds.size(); i++) if (D->fds[i]) hi = i + 1; int holes = 0; for (int i = 3; i < hi; i++) holes += !D->fds[i]; if (holes == 0) W->nofile = hi; else W->nofile = used; }
    if (few == 2) W->open_hook = [](const S &p, int) { return p == "/dev/null" ? EMFILE : 0; };
    int nf = D->nfds(); w.escape("R"); settle(); W->nofile = 1024; W->open_hook = nullptr; auto r = resets("cycle " + d[t].name); REQUIRE(r.size() == 1 && nsh() == 1, "%zu reset commands were run", r.size()); check_child(r[0]); REQUIRE(has(w.fresh(), fmt("Console [%s] reset by <w@cli> (pid %d)", d[t].name.c_str(), r[0]->pid)), "no notice"); REQUIRE(D->nfds() == nf, "descriptors leak"); expect_alive(); if (p) p->close(); settle();
    advance(70); REQUIRE(!r[0]->alive, "not killed after a minute"); REQUIRE(!D->exited, "the daemon was killed"); w.escape("R"); settle(); REQUIRE(resets("cycle " + d[t].name).size() == 2, "no second reset"); outcome(fmt("%d %d", t, few));
}
static S longname(int n) { return S(n, 'n'); }
SCENARIO(reset_text, "C20", 0,0,0, 0,0,0, "command text: conversions, special characters in console names, over-long expansions, no command configured") {
    static const char *cm[] = {"cycle %N", "pm -c %N;x %N", "echo 100%% %N", "do %N 100%", "a %q %N", "at %Y-%m-%d %H:%M:%S %s", "dev %D", "p %P", "'q' $x | y > z", ""};
    int k = pick(10, "command"), nm = pick(4, "console name"); S name = nm == 0 ? "c1" : nm == 1 ? "a b/c" : nm == 2 ? "x;'y" : longname(60); std::vector<Dev> d{Dev(UNIX, "c1")}; S dev = d[0].conf(); S san = name; for (char &c : san) if (c == ' ' || c == '/') c = '_';
    S cmd = cm[k]; int lng = pick(3, "length"); if (lng) { if (k || nm != 3) return; cmd = "%N"; S x = san; while ((int)x.size() < (lng == 1 ? 900 : 1023)) { cmd += " %N"; x += " " + san; } if (lng == 1 && x.size() >= 1023) return; }
    S c = "server loopback=on\nserver port=7890\n"; if (k != 9 || 1) c += "server resetcmd=\"" + cmd + "\"\n"; if (k == 9) c = "server loopback=on\nserver port=7890\n"; c += "console name=\"" + name + "\" dev=\"unix:/run/c1\"\n"; boot(c); expect_alive(); Client w; w.user = "w"; REQUIRE(w.open("CONNECT", {name}), "open: %s", esc(w.raw).c_str()); w.fresh(); w.escape("R"); settle();
    S want; for (size_t i = 0; i < cmd.size(); i++) { if (cmd[i] != '%' || i + 1 == cmd.size()) { want += cmd[i]; continue; } char x = cmd[++i]; switch (x) { case 'N': want += san; break; case '%': want += '%'; break; case 'D': want += "c1"; break; case 'P': want += fmt("%d", D->pid); break; case 'Y': want += "2023"; break; case 'm': want += "11"; break; case 'd': want += "14"; break; case 'H': want += "22"; break; case 'M': want += "13"; break; case 'S': want += "20"; break; case 's': want += "1700000000"; break; default: want += '%'; want += x; } }
    if (k == 9) { REQUIRE(nsh() == 0, "something was run without a configured command"); REQUIRE(w.fresh() == "", "notice without a command"); return; }
    if (want.size() >= 1024) { REQUIRE(nsh() == 0, "a truncated command was run"); S g = w.fresh(); REQUIRE(g == "\r\n<ConMan> Unable to reset console [" + name + "]: command too long.\r\n", "told \"%s\"", esc(g).c_str()); return; }
    REQUIRE(nsh() == 1, "%d commands were run", nsh()); VProc *v = 0; for (auto x : W->vprocs) if (x->path == "/bin/sh") v = x; REQUIRE(v->argv.size() == 3 && v->argv[1] == "-c" && v->argv[2] == want, "command \"%s\" for [%s] was run as \"%s\" instead of \"%s\"", cmd.c_str(), name.c_str(), esc(v->argv.size() > 2 ? v->argv[2] : "").c_str(), esc(want).c_str()); expect_alive();
}
