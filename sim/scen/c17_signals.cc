#include "dev.h"
#include <sys/wait.h>
/* Signals at every point where the daemon makes a system call or takes a lock, and right after failing calls. */
#define DLOG "server logfile=\"/var/dlog/d.log\"\nserver pidfile=\"/run/conmand.pid\"\nserver resetcmd=\"cycle %N\"\n"
struct Sig {
    std::vector<Dev> d; int64_t struck = -1; bool early = false; Client m, w, b; Conn *part = nullptr; int pnd = 0;
    bool over() { return struck >= 0; }
    void hit(int sig) { auto &h = D->sigs[sig]; if (!D || h.h == nullptr || h.h == SIG_DFL || h.h == SIG_IGN) { early = true; return; } struck = W->now; raise_sig(D, sig); }
};
/* The daemon's life; returns early once the signal has struck. */
static void life(Sig &s, int act, bool bg) {
    auto step = [&](std::function<void()> f) { if (s.over() || s.early || D->exited) return; f(); settle(); };
    step([&]{ for (size_t i = 0; i < s.d.size(); i++) if (s.d[i].type == IPMI && s.d[i].ctx() && !s.over()) { ipmi_complete(s.d[i].ctx(), true, 0); settle(); } });
    switch (act) {
    case 0: break;
    case 1: step([&]{ s.w.user = "w"; s.w.begin("CONNECT", {"c0"}, ""); }); step([&]{ s.w.pump(); s.w.type("input"); s.d[0].send("output"); }); step([&]{ s.w.c->close(); }); break;
    case 2: step([&]{ s.part = dial(PORT); s.part->send("HELLO USER='x"); }); step([&]{ s.part->send("' TTY=''\nQUE"); }); step([&]{ s.part->send("RY\n"); }); step([&]{ s.part->close(); }); break;
    case 3: step([&]{ s.m.begin("MONITOR", {"c0"}); }); step([&]{ s.m.pump(); s.d[0].send("output"); s.d[0].io()->close(); }); if (!s.over()) advance(2); break;
    case 4: step([&]{ s.b.begin("CONNECT", {"*"}, "BROADCAST"); }); step([&]{ s.b.escape("B"); }); step([&]{ s.b.type("x"); s.b.escape("R"); }); if (!s.over()) advance(61); break;
    case 5: step([&]{ s.d[1].drop(); }); if (!s.over()) advance(61); break;
    case 6: step([&]{ s.w.begin("CONNECT", {"c0"}); }); step([&]{ s.w.c->window(3); s.d[0].send(pattern(20000)); }); step([&]{ s.w.escape("L"); s.w.escape("Z"); }); step([&]{ s.d[0].io()->window(1); s.w.type("stuck"); }); break;
    case 7: step([&]{ raise_sig(D, SIGHUP); }); break;
    }
    (void)bg;
}
static void stop_any(int nsig, bool err) {
    Sig s; int act = pick(8, "activity"), sig = pick(2, "signal") ? SIGINT : SIGTERM, bg = pick(2, "background"); W->sig_after_err = err;
    s.d = {Dev(UNIX, "c0"), Dev(PROCESS, "c1", 1), Dev(g_thorough ? SERIAL + pick(2, "t") : act & 1 ? SERIAL : IPMI, "c2", 2), Dev(TELNET, "c3", 3)}; for (auto &x : s.d) x.log = x.name + ".log";
    D = nullptr; int when = pick(2, "from"); auto ev = [&]{ s.hit(sig); }; S cf = devs_conf(s.d, DLOG);
    if (when == 0) { if (act) return; W->async.clear(); async_event("signal", ev); }
    if (bg) boot_daemon(cf); else boot(cf);
    if (!s.over() && !s.early) { if (when) { expect_alive(); async_event("signal", ev); if (nsig > 1) async_event("second signal", [&]{ if (!D->exited) raise_sig(D, pick(2, "which") ? SIGCHLD : sig == SIGTERM ? SIGINT : SIGHUP); }); } life(s, act, bg); }
    if (s.early) return;
    flush_async(); settle(); REQUIRE(s.over(), "internal: no signal"); 
    REQUIRE(D->exited, "the daemon does not end: the termination signal waits for unrelated activity"); REQUIRE(D->t_exit == s.struck, "the daemon ended only %.1f s after the signal", (D->t_exit - s.struck) / 1e6);
    REQUIRE(D->code == 0 && D->killed_by == 0, "the daemon ended with code %d signal %d: %s", D->code, D->killed_by, esc(D->err.size() > 200 ? D->err.substr(D->err.size() - 200) : D->err).c_str());
    REQUIRE(!get_ino("/run/conmand.pid"), "the pid file is left behind"); for (auto v : W->vprocs) if (v->execd && v->path != "/bin/sh") { REQUIRE(!v->alive || !bg, "a program is left running"); REQUIRE(!v->alive || !v->io || v->io->app_closed(), "a program is left connected"); }
    for (auto c : {s.m.c, s.w.c, s.b.c, s.part}) if (c) REQUIRE(c->app_closed(), "a client's connection is left open"); REQUIRE(!is_listening(PORT, "127.0.0.1"), "still listening");
    outcome(fmt("act%d %s %s", act, sig == SIGTERM ? "TERM" : "INT", bg ? "bg" : "fg"));
}
SCENARIO(sig_term, "C17", 0,0,1, 0,0,1, "a termination signal at every single system call or lock operation of startup, idling, requests, sessions, console losses, retries, resets, stalls and reconfiguration: the daemon ends at once, with status 0 and nothing left behind") { stop_any(1, false); }
SCENARIO(sig_term2, "C17", 0,0,1, 0,0,2, "the same right after failing system calls and with a second signal at every point") { stop_any(g_thorough ? 2 : 1, true); }
/* Reconfiguration: logs reopened, exactly, nothing lost, sessions undisturbed. */
static S strip_rec(const S &s) { S o; size_t i = 0; const S a = "\r\n<ConMan> Console [", z = " log opened at "; while (i < s.size()) { if (s.compare(i, a.size(), a) == 0) { size_t e = s.find("\r\n", i + 4); if (e != S::npos && s.substr(i, e - i).find(z) != S::npos) { i = e + 2; continue; } } o += s[i++]; } return o; }
static void hup_any(int nsig, bool err) {
    Sig s; int act = pick(4, "activity"), bg = pick(2, "background"), rot = pick(3, "rotated"); s.d = {Dev(UNIX, "c0"), Dev(PROCESS, "c1", 1)}; for (auto &x : s.d) x.log = x.name + ".log"; W->sig_after_err = err; int n = 0, ng = 0;
    S cf = devs_conf(s.d, DLOG); std::vector<S> zl; if (act & 1) zl = {"-z"}; if (bg) boot_daemon(cf, zl); else boot(cf, zl); expect_alive(); std::vector<InoP> gen[3]; static const char *ln[] = {"/var/log/c0.log", "/var/log/c1.log", "/var/dlog/d.log"};
    s.m.user = "m"; REQUIRE(s.m.open("MONITOR", {"c0"}), "m"); s.m.fresh(); for (int i = 0; i < 3; i++) if (get_ino(ln[i])) gen[i].push_back(get_ino(ln[i])); int nf = D->nfds();
    auto note = [&]{ for (int i = 0; i < 3; i++) { InoP x = get_ino(ln[i]); if (x && (gen[i].empty() || gen[i].back() != x)) gen[i].push_back(x); } };
    auto hup = [&]{ n++; note(); tracef("reconfiguration signal"); if (rot) for (int i = 0; i < 3; i++) if (get_ino(ln[i])) { vfs_rename(ln[i], S(rot == 2 ? "/var/old/log" : ln[i]) + fmt(".%d", ++ng)); } if (rot == 2) { W->vfs.erase("/var/log"); W->vfs.erase("/var/dlog"); } raise_sig(D, SIGHUP); };
    S out0, out1, inp; auto send = [&](int i, const S &x) { (i ? out1 : out0) += x; s.d[i].send(x); };
    async_event("reconfiguration", hup); if (nsig > 1) { if (g_thorough) async_event("again", hup); else if (pick(2, "already one pending")) hup(); }
    switch (act) {
    case 0: break;
    case 1: send(0, "one\n"); settle(); note(); send(1, "two"); settle(); note(); send(0, pattern(3000)); settle(); break;
    case 2: s.w.user = "w"; s.w.begin("CONNECT", {"c0"}); settle(); note(); s.w.pump(); s.w.type("typed"); inp = "typed"; settle(); note(); s.w.escape("L"); send(0, "x"); settle(); break;
    case 3: send(1, "last words"); vproc_die(s.d[1].proc(), 0); settle(); note(); advance(61); settle(); break;
    }
    settle(); note(); flush_async(); settle(); note(); expect_alive(); int had = n;
    if (rot) for (int i = 0; i < (bg ? 3 : 2); i++) { REQUIRE(get_ino(ln[i]), "%s is not created after a reconfiguration signal", ln[i]); }
    /* whatever was signalled has taken effect: new output goes to the files now found under the names */
    send(0, "NEW0"); send(1, "NEW1"); settle(); expect_alive();
    for (int i = 0; i < 2; i++) { InoP x = get_ino(ln[i]); REQUIRE(x, "%s is missing", ln[i]); S want = fmt("NEW%d", i); REQUIRE(x->data.size() >= 4 && x->data.substr(x->data.size() - 4) == want, "after %d reconfiguration signals the output of c%d does not go to the file now called %s: \"%s\"", had, i, ln[i], esc(x->data).c_str()); REQUIRE(has(x->data, "log opened at"), "%s was not reopened", ln[i]); }
    S all[2]; for (int i = 0; i < 2; i++) for (auto &g : gen[i]) all[i] += g->data; 
    REQUIRE(has(strip_rec(all[0]), "") , "?"); S t0 = strip_info(all[0]), t1 = strip_info(all[1]); if (act != 2) REQUIRE(t0 == out0, "the logs of c0 together hold %s", firstdiff(t0, out0).c_str()); else REQUIRE(t0 == out0, "the logs of c0 together hold %s", firstdiff(t0, out0).c_str()); REQUIRE(t1 == out1, "the logs of c1 together hold %s", firstdiff(t1, out1).c_str());
    S g = strip_info(s.m.fresh()); REQUIRE(g == out0, "the session received %s", firstdiff(g, out0).c_str()); REQUIRE(!s.m.closed(), "a session ended"); if (act == 2) { s.w.pump(); REQUIRE(s.w.ok() && !s.w.closed(), "the writer's session ended"); REQUIRE(s.d[0].take() == inp, "typed input was lost"); s.w.c->close(); settle(); }
    for (int i = 0; i < 3; i++) for (auto &x : gen[i]) { S all; for (auto &w : x->writes) all += w.second; REQUIRE(x->data == all, "%s no longer holds what was written to it: %s", ln[i], firstdiff(x->data, all).c_str()); } if (bg) REQUIRE(!gen[2].empty() && has(gen[2][0]->data, "Starting ConMan daemon"), "the daemon log has lost its beginning");
    if (bg) { S dl = file_data(ln[2]); InoP x = get_ino(ln[2]); REQUIRE(x, "no daemon log"); size_t before = x->data.size(); Client q; REQUIRE(q.open("MONITOR", {"c1"}), "monitor"); REQUIRE(x->data.size() > before && has(x->data.substr(before), "connected to [c1]") , "the daemon log does not go to the file now found under its name: \"%s\"", esc(x->data.substr(before)).c_str()); q.c->close(); settle(); }
    REQUIRE(D->nfds() == nf, "%d descriptors open instead of %d", D->nfds(), nf); outcome(fmt("act%d bg%d rot%d n%d", act, bg, rot, had));
}
SCENARIO(sig_hup, "C17", 0,0,1, 0,0,2, "one or two reconfiguration signals (logs rotated, their directory moved away, or neither) at every pair of points: every signal reopens the logs, nothing is lost or duplicated, sessions are undisturbed") { hup_any(2, false); }
SCENARIO(sig_hup_err, "C17", 0,0,1, 0,0,2, "the same also right after failing system calls") { hup_any(1, true); }
/* Child and pipe signals. */
SCENARIO(sig_other, "C17", 0,1,1, 0,1,2, "child-exit and broken-pipe signals, one (two) at every point including right after failing system calls: nothing is disturbed, no failure is misread") {
    Sig s; int act = pick(6, "activity"), bg = pick(2, "background"); static const int tt[] = {UNIX, TELNET, PROCESS, SERIAL}; int t = tt[g_thorough || act == 5 ? pick(4, "transport") : act & 1]; s.d = {Dev(t, "c0"), Dev(pick(2, "programs") ? PROCESS : UNIX, "c1", 1)}; s.d[0].log = "c0.log"; W->sig_after_err = true;
    S cf = devs_conf(s.d, DLOG); if (bg) boot_daemon(cf); else boot(cf); expect_alive(); for (auto &x : s.d) x.up(); REQUIRE(s.m.open("MONITOR", {"c0"}), "m"); s.m.fresh(); int nf = D->nfds(), nth = live_threads(D);
    for (int k = 0; k < (g_thorough ? 3 : 2); k++) async_event("child exit or broken pipe", [&, k]{ raise_sig(D, k == 1 ? SIGPIPE : SIGCHLD); });
    bool pend = t == TELNET && act == 5; if (pend) s.d[0].svc->policy = [](Conn *) { return -1; };
    auto flt = [&](bool on) { s.d[0].fault(on ? FX_EAGAINW | FX_EAGAINR : 0); conn_fault(s.m.c, on ? FX_EAGAINW : 0); };
    S out; switch (act) {
    case 0: { Conn *p = dial(PORT); p->send("HELLO USER='x' TTY=''\nQUERY\n"); settle(); S r = p->take(); REQUIRE(count_sub(r, "OK") == 2 && p->app_closed(), "a query was answered \"%s\"", esc(r).c_str()); break; }
    case 1: out = pattern(300); flt(true); s.m.c->window(150); s.d[0].send(out); settle(); for (int i = 0; i < 3; i++) { s.m.c->window(s.m.c->from->cap + 100); settle(); } break;
    case 2: s.w.user = "w"; REQUIRE(s.w.open("CONNECT", {"c0"}), "connect: %s", esc(s.w.raw).c_str()); s.d[0].io()->window(3); flt(true); s.w.type("typed in"); settle(); s.d[0].io()->window(100000); settle(); { S g = s.d[0].take(); REQUIRE(g == "typed in", "the console received \"%s\"", esc(g).c_str()); } s.w.escape("B"); settle(); break;
    case 3: { s.w.user = "w"; REQUIRE(s.w.open("CONNECT", {"c0"}), "connect: %s", esc(s.w.raw).c_str()); s.w.escape("R"); settle(); s.w.c->reset(); settle(); break; }
    case 4: { Client q; q.begin("CONNECT", {"c0", "c1"}); settle(); q.pump(); REQUIRE(q.errcode() == 6, "answer to several matches: \"%s\"", esc(q.raw).c_str()); raise_sig(D, SIGHUP); settle(); break; }
    case 5: { int fd = s.d[0].type; (void)fd; s.d[0].drop(); settle(); advance(61); settle(); if (pend) { REQUIRE(s.d[0].io()->state == 0, "the connection in progress was given up"); s.d[0].io()->accept(); settle(); } if (s.d[0].type == SERIAL) { s.d[0].tty->to->wclosed = false; } if (s.d[0].io()) s.d[0].neg(); break; }
    }
    flt(false); settle(); flush_async(); settle(); expect_alive(); s.d[0].send("end"); out += "end"; settle(); if (!(act == 5 && t == SERIAL)) { S g = strip_info(s.m.fresh()); REQUIRE(g == out, "the session received %s", firstdiff(g, out).c_str()); }
    REQUIRE(!s.m.closed(), "a session ended"); if (s.w.c) { if (!s.w.c->ours_closed) REQUIRE(!s.w.closed(), "the writer was disconnected"); s.w.c->close(); } settle(); advance(70); if (!(act == 5 && t == SERIAL)) REQUIRE(D->nfds() == nf, "%d descriptors open instead of %d", D->nfds(), nf); REQUIRE(live_threads(D) == nth, "threads"); for (auto v : W->vprocs) if (v->parent == D->pid) REQUIRE(v->alive || v->reaped, "an exited program was not reaped");
    s.m.c->close(); settle(); outcome(fmt("act%d t%d", act, t));
}
