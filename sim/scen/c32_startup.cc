#include "dev.h"
#include <signal.h>
#include <fcntl.h>
/* Starting and stopping the daemon: the starting command (and the process that waits for the daemon) tells the truth. */
static const S CF = "/etc/conman.conf", PF = "/run/conman/c.pid", MIN = "server loopback=on\nserver port=7890\nconsole name=\"c1\" dev=\"unix:/run/c1.sock\"\n", FULL = "server loopback=on\nserver port=7890\nserver coredump=on\nserver logdir=\"/var/log\"\nserver logfile=\"/var/log/conmand.log\"\nserver pidfile=\"" + PF + "\"\nserver nofile=2000\nserver timestamp=1h\nglobal log=\"%N.log\"\nconsole name=\"c1\" dev=\"unix:/run/c1.sock\"\nconsole name=\"c2\" dev=\"/dev/ttyS0\" seropts=\"9600,8n1\"\nconsole name=\"c3\" dev=\"h3:2001\"\nconsole name=\"c4\" dev=\"ipmi:h4\"\n";
static void place() { mk_dir("/run"); mk_dir("/var/log"); mk_dir("/home"); mk_dir("/home/op"); put_tty("/dev/ttyS0"); W->hosts["h3"] = "10.0.0.3"; W->hosts["h4"] = "10.0.0.4"; W->hosts["cli.host"] = "10.9.9.9"; W->shell = true; ref_port = 7890; }
static Proc *launch(bool fg, std::vector<S> a, int (*m)(int, char**) = conmand_main) { if (fg) a.insert(a.begin(), "-F"); a.insert(a.begin(), "conmand"); W->fork_mode = fg ? 0 : 2; Proc *p = start_proc(m == conmand_main ? "conmand" : "conmand2", m, a); p->cwd = "/home/op"; return p; }
static bool serves(Proc *p, int port = 7890) { if (p->exited || p->stopped) return false; int k = ref_port; ref_port = port; Conn *c = dial(port); bool ok = false; if (c) { c->send("HELLO USER='u'\nQUERY\n"); settle(); S r = c->take(); ok = has(r, "CONSOLE='c1'"); if (!c->ours_closed) c->close(); settle(); } ref_port = k; return ok; }
static int pid_in(const S &f) { InoP n = get_ino(f); return n ? atoi(n->data.c_str()) : 0; }
static bool locked(Proc *p) { for (auto &n : W->vfs) if (n.second->locks.count(p->pid)) return true; return false; }
/* after the start of p has run its course: up and reported, or not up and reported */
static bool judge(Proc *p, bool fg, const S &pf, const S &what) {
    settle(); bool up = !p->exited; if (up) { W->fork_mode = 0; REQUIRE(serves(p), "%s: the daemon runs but does not serve its clients (%s)", what.c_str(), esc(p->err).c_str()); }
    ShellView v; if (!fg) v = shell_view(p); S msg = v.err + p->err; int code = fg ? p->code : v.code;
    if (up) { if (!fg) REQUIRE(!v.waiting && v.code == 0 && !v.sig, "%s: the daemon is up, but the starting command %s (status %d, signal %d, \"%s\")", what.c_str(), v.waiting ? "still waits" : "reports failure", v.code, v.sig, esc(msg).c_str()); if (!pf.empty() && get_ino(pf)) REQUIRE(get_ino(pf)->data == fmt("%d\n", p->pid), "%s: the pid file says \"%s\", the daemon is %d", what.c_str(), esc(get_ino(pf)->data).c_str(), p->pid); return true; }
    REQUIRE(!v.waiting, "%s: the daemon has failed, but the starting command waits forever", what.c_str()); REQUIRE(code > 0 || (fg && p->killed_by), "%s: the daemon has ended (status %d, signal %d, \"%s\"), but the starting command reports success", what.c_str(), p->code, p->killed_by, esc(p->err).c_str()); if (!fg || !p->killed_by) REQUIRE(!msg.empty(), "%s: the start fails without a message", what.c_str());
    if (!pf.empty() && !p->killed_by && !has(W->sys_failed, "unlink")) REQUIRE(pid_in(pf) != p->pid, "%s: the start has failed (%s), but a pid file naming the dead process is left behind", what.c_str(), esc(msg).c_str()); return false; }
SCENARIO(start_faults, "C32", 0,1,0, 0,2,0, "start in background and foreground with a full and a minimal configuration, every single (thorough: every two) system calls of the startup failing: reported as success if and only if the daemon is up and serving; no pid file of a failed start") {
    bool fg = pick(2, "foreground"), full = pick(2, "full"); place(); put_file(CF, full ? FULL : MIN); Proc *p = launch(fg, {"-c", CF}); W->sys_faults = p; settle(); W->sys_faults = nullptr; bool up = judge(p, fg, full ? PF : "", fmt("%s, %s configuration, failing: %s", fg ? "foreground" : "background", full ? "full" : "minimal", W->sys_failed.c_str())); if (W->sys_failed.empty()) { REQUIRE(up, "the daemon does not start: %s", p->err.c_str()); if (full) REQUIRE(pid_in(PF) == p->pid, "no pid file"); } outcome(fmt("%d%d %s%d", fg, full, W->sys_failed.c_str(), up)); }
struct Cond { const char *what; bool ok; };
static const Cond CD[] = {{"everything fine", 1}, {"no configuration file", 0}, {"an empty configuration", 0}, {"no console", 0}, {"only invalid consoles", 0}, {"the configuration is locked by a daemon", 0}, {"the configuration is locked by an editor", 0}, {"the port is taken", 0}, {"the daemon log's directory is missing", 1}, {"the daemon log is a directory", 1}, {"the pid file's directory is missing", 1}, {"the pid file is a directory", 1}, {"a relative pid file (-P)", 1}, {"a stale pid file", 1}, {"/dev/null is missing", 0}, {"the limit of open files cannot be raised", 0}, {"an unknown option", 0}, {"an option lacking its value", 0}, {"an invalid port (-p)", 0}, {"a port that is no number (-p)", 0}, {"a negative port (-p)", 0}, {"some invalid lines", 1}, {"a configuration directory", 0}, {"the IPMI engine does not start", 0}, {"the console log's directory is missing", 1}};
SCENARIO(start_conditions, "C32", 0,0,0, 0,0,0, "25 conditions at the start x background or foreground x an earlier pid file present or not x verbose: success reported if and only if the daemon is up and serving") {
    int k = pick(sizeof CD / sizeof *CD, "condition"); bool fg = pick(2, "foreground"), old = pick(2, "old pid file"), verb = pick(2, "verbose"); place(); S conf = FULL, pf = PF; std::vector<S> a = {"-c", CF}; if (verb) a.push_back("-v"); if (old) { mk_dir("/run/conman"); put_file(PF, "77\n"); }
    switch (k) { case 2: conf = ""; break; case 3: conf = "server port=7890\nserver pidfile=\"" + PF + "\"\n"; break; case 4: conf = "server pidfile=\"" + PF + "\"\nconsole name=\"c1\"\nconsole dev=\"/dev/ttyS0\"\nconsole name=\"c1\" dev=\"nothing\"\n"; break; case 8: conf += "server logfile=\"/no/such/dir/log\"\n"; break; case 9: mk_dir("/var/log/d"); conf += "server logfile=\"/var/log/d\"\n"; break; case 11: conf = MIN + "server pidfile=\"/run/d\"\n"; mk_dir("/run/d"); pf = ""; break; case 12: a.push_back("-P"); a.push_back("my.pid"); pf = "/home/op/my.pid"; break; case 13: put_file(PF, "1001\n"); break; case 16: a.push_back("-x"); break; case 17: a.push_back("-P"); break; case 18: a.push_back("-p"); a.push_back("70000"); break; case 19: a.push_back("-p"); a.push_back("abc"); break; case 20: a.push_back("-p"); a.push_back("-5"); break; case 21: conf += "server port\nconsole\nbogus line\n"; break; case 24: conf += "console name=\"c9\" dev=\"/dev/null\" log=\"/no/such/c9\"\n"; break; }
    if (k == 7) ref_port = 7890; put_file(CF, conf); if (k == 1) vfs_unlink(CF); if (k == 22) { vfs_unlink(CF); mk_dir(CF); } if (k == 5) get_ino(CF)->locks[500] = F_RDLCK; if (k == 6) get_ino(CF)->locks[501] = F_WRLCK; if (k == 14) vfs_unlink("/dev/null");
    Proc *p = launch(fg, a); if (k == 7 || k == 15 || k == 23) { W->sys_force = k == 7 ? "bind" : k == 15 ? "setrlimit-nofile" : "ipmi"; } settle(); bool up = judge(p, fg, pf, CD[k].what); bool want = CD[k].ok || (k == 14 && fg) || (k == 9 && fg);
    REQUIRE(up == want, "%s: the daemon %s (\"%s\")", CD[k].what, up ? "starts all the same" : "does not start", esc(p->err).c_str()); if (up && !pf.empty()) { REQUIRE(pid_in(pf) == p->pid, "%s: the pid file has %d, the daemon is %d", CD[k].what, pid_in(pf), p->pid); REQUIRE(!(get_ino(pf)->mode & 022), "the pid file is writable by others"); } if (!up && old && k != 13 && k != 14 && k != 15 && k != 23) REQUIRE(pid_in(PF) == 77, "%s: the failed start has removed or changed another daemon's pid file", CD[k].what); outcome(fmt("%d %d", k, up)); }
SCENARIO(start_options, "C32", 0,0,0, 0,0,0, "all sequences of up to 3 (thorough 4) of 15 option units x background or foreground: the last value of each option counts, an invalid option or a request for help, licence or version (whichever comes first) ends the command with nothing touched; otherwise the daemon serves the configuration, port and pid file asked for, truncates the logs if so asked, once, and tells what it was told to tell") {
    static const std::vector<std::vector<S>> U = {{"-c", CF}, {"-c/etc/b.conf"}, {"-p", "7900"}, {"-p7901"}, {"-P", "/run/p.pid"}, {"-Prel.pid"}, {"-z"}, {"-v"}, {"-vz"}, {"-h"}, {"-zL"}, {"-V"}, {"-y"}, {"-p", "1x"}, {"word"}};
    static const S A = FULL, B = "SERVER Port=7899\nSERVER LOOPBACK=ON\nserver keepalive=off\nserver resetcmd=\"/bin/reset %N\"\nserver logfile=\"/var/log/b.log\"\nserver pidfile=\"/run/b.pid\"\nserver syslog=local3\nserver tcpwrappers=off\nconsole name=\"c1\" dev=\"unix:/run/b.sock\" log=\"/var/log/b1.log\"\n";
    bool fg = pick(2, "foreground"); place(); put_file(CF, A); put_file("/etc/b.conf", B); struct L { const char *f, *old; }; static const L LG[] = {{"/var/log/conmand.log", "old d\n"}, {"/var/log/c1.log", "old c1\n"}, {"/var/log/c3.log", "old c3\n"}, {"/var/log/b.log", "old b\n"}, {"/var/log/b1.log", "old b1\n"}}; for (auto &l : LG) put_file(l.f, l.old, 0600);
    std::vector<S> a; S conf = "", pf; int port = 0; bool z = false, v = false; int end = 0; S text; int n = pick(g_thorough ? 5 : 4, "units"); for (int i = 0; i < n; i++) { int k = pick(U.size(), "unit"); for (auto &x : U[k]) a.push_back(x), text += " " + x; if (end) continue; switch (k) { case 0: conf = CF; break; case 1: conf = "/etc/b.conf"; break; case 2: port = 7900; break; case 3: port = 7901; break; case 4: pf = "/run/p.pid"; break; case 5: pf = "/home/op/rel.pid"; break; case 6: z = true; break; case 7: v = true; break; case 8: z = v = true; break; case 9: end = 'h'; break; case 10: end = 'L'; break; case 11: end = 'V'; break; case 12: case 13: end = '?'; break; } }
    if (conf.empty()) { conf = CF; a.push_back("-c"); a.push_back(CF); } bool b = conf != CF; std::map<S, S> before; for (auto &f : W->vfs) before[f.first] = f.second->data; Proc *p = launch(fg, a); settle(); W->fork_mode = 0; ShellView w; if (fg || p->shell_fd < 0) { w.code = p->code; w.sig = p->killed_by; w.out = p->out; w.err = p->err; w.waiting = !fg && !p->exited; } else w = shell_view(p); S what = (fg ? "-F" : "background:") + text;
    if (end) { REQUIRE(p->exited && !w.waiting && !w.sig && (end == '?' ? w.code > 0 : w.code == 0), "%s: status %d, %s", what.c_str(), w.code, p->exited ? "ended" : "runs"); S want = end == 'h' ? "Usage: conmand [OPTIONS]" : end == 'L' ? "GNU General Public License" : end == 'V' ? "conman-" : ""; REQUIRE(end == '?' ? has(w.err, "invalid") && w.out.empty() : has(w.out, want) && w.err.empty(), "%s: prints \"%s\" and \"%s\"", what.c_str(), esc(w.out).c_str(), esc(w.err).c_str()); for (auto &f : W->vfs) REQUIRE(before.count(f.first) && before[f.first] == f.second->data, "%s: %s is touched", what.c_str(), f.first.c_str()); for (int q : {7890, 7899, 7900, 7901}) REQUIRE(!is_listening(q, "127.0.0.1"), "%s: listens", what.c_str()); REQUIRE(W->syslog.empty(), "%s: something is logged", what.c_str()); outcome(fmt("%c %d", end, w.code)); return; }
    if (!port) port = b ? 7899 : 7890; S cpf = b ? S("/run/b.pid") : PF; if (pf.empty()) pf = cpf; REQUIRE(!p->exited && (fg || (!w.waiting && w.code == 0)), "%s: does not start (%s)", what.c_str(), esc(w.err + p->err).c_str()); for (int q : {7890, 7899, 7900, 7901}) REQUIRE(is_listening(q, "127.0.0.1") == (q == port), "%s: %s port %d", what.c_str(), q == port ? "does not listen on" : "listens on", q); REQUIRE(serves(p, port), "%s: does not serve", what.c_str());
    REQUIRE(pid_in(pf) == p->pid && (pf == cpf || !get_ino(cpf)), "%s: the pid file", what.c_str()); S told = fg ? p->err : w.err + p->err; S show = "Configuration: " + conf + "\nOptions:" + (b ? " LogFile LoopBack ResetCmd SysLog" : " CoreDump KeepAlive LogFile LoopBack TimeStamp=60m") + (z ? " ZeroLogs" : "") + "\nMonitoring " + (b ? "1 console\n" : "4 consoles\n") + "\n";
    if (v) REQUIRE(has(told, show), "%s: tells \"%s\" instead of \"%s\"", what.c_str(), esc(told).c_str(), esc(show).c_str()); else REQUIRE(!has(told, "Options:") && !has(told, "Monitoring") && (fg || told.empty()), "%s: tells \"%s\" unasked", what.c_str(), esc(told).c_str()); REQUIRE(w.out.empty(), "%s: prints \"%s\"", what.c_str(), esc(w.out).c_str());
    raise_sig(p, SIGHUP); settle(); for (auto &l : LG) { bool mine = (S(l.f).find("/b") != S::npos) == b, dl = !strcmp(l.f, "/var/log/conmand.log") || !strcmp(l.f, "/var/log/b.log"); S d = file_data(l.f), old = l.old; if (!mine || (dl && fg)) { REQUIRE(d == old, "%s: %s is touched", what.c_str(), l.f); continue; } if (z) REQUIRE(!has(d, old), "%s: %s is not truncated", what.c_str(), l.f); else REQUIRE(d.compare(0, old.size(), old) == 0, "%s: %s is truncated", what.c_str(), l.f); if (dl) REQUIRE(has(d, "Starting ConMan daemon") && has(d, fmt("TCP port %d", port)), "%s: %s has \"%s\" after a reconfiguration signal", what.c_str(), l.f, esc(d).c_str()); else { int c = 0; for (size_t i = 0; (i = d.find(" log opened at ", i)) != S::npos; i++) c++; REQUIRE(c == 2, "%s: %s has %d opening records after a reconfiguration signal: \"%s\"", what.c_str(), l.f, c, esc(d).c_str()); } }
    raise_sig(p, SIGTERM); settle(); REQUIRE(p->exited && p->code == 0 && !get_ino(pf), "%s: no orderly end", what.c_str()); outcome(fmt("%d%d%d%d %s", fg, b, z, v, pf.c_str())); }
static const int SG[] = {SIGTERM, SIGINT, SIGKILL, SIGSEGV, SIGHUP, SIGPIPE};
SCENARIO(start_struck, "C32", 0,0,1, 0,0,2, "6 signals strike at every single point of the startup (thorough: two of them) and shortly after: success is reported only once the daemon listens, and never for one that died before; after an orderly end no pid file is left") {
    bool fg = pick(2, "foreground"); int s = SG[pick(6, "signal")]; place(); put_file(CF, FULL); Proc *p = launch(fg, {"-c", CF}); bool told = false; int strikes = 0; auto strike = [&]{ if (p->exited) return; if (!fg) { ShellView v = shell_view(p); bool ok = !v.waiting && v.code == 0 && !v.sig && p->shell_fd >= 0; told |= ok; if (ok && !strikes) REQUIRE(is_listening(7890, "127.0.0.1"), "success is reported before the daemon listens"); } strikes++; raise_sig(p, s); }; async_event("signal", strike); async_event("signal again", strike); settle(); bool late = !W->async.empty(); flush_async(); settle();
    if (!p->exited) { judge(p, fg, PF, fmt("signal %d", s)); REQUIRE(s == SIGHUP || s == SIGPIPE, "signal %d does not end the daemon", s); raise_sig(p, SIGTERM); settle(); REQUIRE(p->exited && p->code == 0 && !p->killed_by, "SIGTERM does not end the daemon orderly (status %d, signal %d)", p->code, p->killed_by); REQUIRE(!get_ino(PF), "the pid file is left behind"); return; }
    if (!p->killed_by) { REQUIRE(!get_ino(PF) , "the daemon has ended orderly (status %d), but its pid file is left behind", p->code); }
    ShellView v; if (!fg) { v = shell_view(p); REQUIRE(!v.waiting, "the starting command waits forever"); bool success = v.code == 0 && !v.sig; if (told) REQUIRE(success, "internal"); else if (p->killed_by || p->code) REQUIRE(!success, "signal %d has ended the daemon while it was starting (status %d, signal %d), but the starting command reports success", s, p->code, p->killed_by); if (!success) REQUIRE(p->killed_by || p->code || v.sig, "the starting command reports failure for an orderly end"); } outcome(fmt("%d %d %d %d %d", fg, s, p->code, p->killed_by, told)); }
SCENARIO(pid_life, "C32", 0,0,1, 0,0,1, "pid file by configuration, -P absolute, -P relative, or both (command line first), with an old file or not: names the daemon while it runs, through SIGHUP and clients, and is removed when SIGTERM or SIGINT strikes at any moment") {
    bool fg = pick(2, "foreground"); int k = pick(4, "given by"), s = SG[pick(2, "signal")]; bool old = pick(2, "old"); place(); put_file(CF, k == 1 || k == 2 ? MIN : FULL); std::vector<S> a = {"-c", CF}; S pf = PF; if (k == 1 || k == 3) { a.push_back("-P"); a.push_back("/run/x/y.pid"); pf = "/run/x/y.pid"; } if (k == 2) { a.push_back("-P"); a.push_back("sub/y.pid"); pf = "/home/op/sub/y.pid"; } if (old) { mk_dir("/run/conman"); put_file(PF, "999999999\n"); }
    Proc *p = launch(fg, a); settle(); REQUIRE(pid_in(pf) == p->pid && get_ino(pf)->data == fmt("%d\n", p->pid), "the pid file %s has %d, the daemon is %d", pf.c_str(), pid_in(pf), p->pid); if (k == 3) REQUIRE(pid_in(PF) == (old ? 999999999 : 0), "the configured pid file is touched although -P is given"); async_event("end", [&]{ REQUIRE(p->exited || pid_in(pf) == p->pid, "the pid file is gone while the daemon runs"); raise_sig(p, s); }); settle(); raise_sig(p, SIGHUP); settle(); serves(p); flush_async(); settle(); REQUIRE(p->exited && p->code == 0 && !p->killed_by, "the daemon does not end orderly"); REQUIRE(!get_ino(pf), "the pid file is left behind"); outcome(fmt("%d %d", k, s)); }
static const char *ST[] = {"running", "running, configuration replaced since", "not running", "died leaving its pid file", "another configuration's daemon running", "not running, pid file empty", "not running, pid file garbage", "not running, pid file with 1", "not running, pid file negative", "being locked by an editor only", "running, pid file missing"};
SCENARIO(control, "C32", 0,0,0, 0,0,0, "-q, -k and -r (combined, too) x 11 states of the daemon x with -P or without x -F x -v x several daemons: exactly the daemon of that configuration is signalled; the pid, message and status are right") {
    int st = pick(11, "state"), op = pick(5, "operation"); bool P = pick(2, "-P"), fg = pick(2, "-F"), v = pick(2, "-v"), bgd = pick(2, "daemon in background"); place(); put_file(CF, FULL); put_file("/etc/other.conf", "server loopback=on\nserver port=7891\nserver pidfile=\"/run/other.pid\"\nconsole name=\"c1\" dev=\"unix:/run/o.sock\"\n"); VProc *by = new VProc; by->pid = 4242; by->parent = 1; by->pgid = 4242; W->vprocs.push_back(by);   /* a bystander */
    Proc *p = nullptr; bool runs = st < 2 || st == 10; if (runs || st == 3) { p = launch(!bgd, {"-c", CF}); settle(); REQUIRE(!p->exited, "no start: %s", p->err.c_str()); if (st == 1) { S d = file_data(CF); vfs_rename(CF, "/etc/conman.conf~"); put_file(CF, d); } if (st == 3) { raise_sig(p, SIGKILL); settle(); REQUIRE(pid_in(PF) == p->pid, "scenario"); } if (st == 10) vfs_unlink(PF); }
    if (st == 4) { p = launch(!bgd, {"-c", "/etc/other.conf"}); settle(); REQUIRE(!p->exited && pid_in("/run/other.pid") == p->pid, "no start"); } mk_dir("/run/conman"); if (st == 5) put_file(PF, ""); if (st == 6) put_file(PF, "hello\n"); if (st == 7) put_file(PF, "1\n"); if (st == 8) put_file(PF, "-4242\n"); if (st == 9) { get_ino(CF)->locks[4242] = F_WRLCK; if (op) return; }
    S olddata = get_ino(PF) ? file_data(PF) : S("(none)"); int hups = p ? p->sigcount : 0; std::vector<S> a = {"-c", CF}; if (P) { a.push_back("-P"); a.push_back(PF); } if (v) a.push_back("-v"); switch (op) { case 0: a.push_back("-q"); break; case 1: a.push_back("-r"); break; case 2: a.push_back("-k"); break; case 3: a.push_back("-kr"); break; case 4: a.push_back("-rq"); break; } int sig = op == 0 || op == 4 ? 0 : op == 2 ? SIGTERM : SIGHUP;
    Proc *c = launch(fg, a, conmand2_main); settle(); bool direct = fg || c->shell_fd < 0; ShellView w = direct ? ShellView{!c->exited, c->code, c->killed_by, c->err, c->out} : shell_view(c); S out = w.out + c->out, err = w.err + c->err; if (direct) out = c->out, err = c->err; S what = fmt("%s, %s%s%s%s", ST[st], a.back().c_str(), P ? " -P" : "", fg ? " -F" : "", v ? " -v" : "");
    REQUIRE(!w.waiting && c->exited && !w.sig, "%s: the command does not end", what.c_str()); bool found = st == 0 || st == 10 || (st == 1 && P) || st == 9; REQUIRE(by->killed.empty(), "%s: an unrelated process is signalled", what.c_str());
    if (!found) { REQUIRE(w.code > 0 && has(err, "does not appear to be active") && has(err, CF), "%s: status %d, \"%s\"", what.c_str(), w.code, esc(err).c_str()); REQUIRE(out.empty(), "%s: prints \"%s\"", what.c_str(), esc(out).c_str()); if (p) REQUIRE(p->sigcount == hups && (st == 3 || (!p->exited && serves(p, st == 4 ? 7891 : 7890))), "%s: the daemon is affected", what.c_str()); }
    else { int pid = st == 9 ? 4242 : p->pid; REQUIRE(w.code == 0, "%s: status %d, \"%s\"", what.c_str(), w.code, esc(err).c_str()); if (sig == 0) REQUIRE(out == fmt("%d\n", pid), "%s: prints \"%s\", not %d", what.c_str(), esc(out).c_str(), pid); else REQUIRE(out.empty() && has(err, fmt("pid %d", pid)) == v, "%s: prints \"%s\" and \"%s\"", what.c_str(), esc(out).c_str(), esc(err).c_str());
        if (p) { if (sig == SIGTERM) REQUIRE(p->exited && p->code == 0 && !p->killed_by && !get_ino(PF), "%s: the daemon is not ended", what.c_str()); else { REQUIRE(!p->exited && p->sigcount == hups + (sig == SIGHUP), "%s: the daemon gets %ld signals", what.c_str(), p->sigcount - hups); REQUIRE(serves(p), "%s: the daemon no longer serves", what.c_str()); } } }
    if (!found || sig != SIGTERM) REQUIRE((get_ino(PF) ? file_data(PF) : S("(none)")) == olddata, "%s: the pid file is changed from \"%s\" to \"%s\"", what.c_str(), esc(olddata).c_str(), get_ino(PF) ? esc(file_data(PF)).c_str() : "(none)"); outcome(fmt("%d %d %d", st, op, w.code)); }
SCENARIO(second_start, "C32", 0,0,1, 0,0,2, "a second daemon started for the same configuration (same path, other path, replaced file, other port) at every single point of the first one's startup, and later, with the first struck by nothing or ended: at most one is up, the other reports failure and disturbs neither the first nor its pid file") {
    bool fg = pick(2, "foreground"); int how = pick(4, "second"), when = pick(2, "when"); place(); put_file(CF, FULL); Proc *a = launch(fg, {"-c", CF}), *b = nullptr; std::vector<S> v = {"-c", how == 1 ? S("/etc/../etc/conman.conf") : CF}; if (how == 3) { v.push_back("-p"); v.push_back("7999"); } auto second = [&]{ if (how == 2) { S d = file_data(CF); vfs_rename(CF, "/etc/conman.conf~"); put_file(CF, d); } b = launch(fg, v, conmand2_main); };
    if (when) { if (!fg) { settle(); } else async_event("second start", second); settle(); flush_async(); if (!b) second(); } else { settle(); second(); } settle(); W->fork_mode = 0;
    bool ua = !a->exited && serves(a), ub = !b->exited && serves(b, how == 3 ? 7999 : 7890); REQUIRE(!(ua && ub), "two daemons serve the same configuration"); ShellView x, y; if (!fg) { x = shell_view(a); y = shell_view(b); REQUIRE(!x.waiting && !y.waiting, "a starting command waits forever"); } else x.code = a->code, y.code = b->code; REQUIRE(ua == !a->exited && ub == !b->exited, "a daemon runs without serving"); REQUIRE(ua == (x.code == 0) && ub == (y.code == 0), "the first daemon is %s, reported %d (%s); the second is %s, reported %d (%s)", ua ? "up" : "down", x.code, esc(x.err + a->err).c_str(), ub ? "up" : "down", y.code, esc(y.err + b->err).c_str());
    if (!when) REQUIRE(ua, "the first daemon is ended by the attempt"); if (!ub) REQUIRE(!(y.err + b->err).empty(), "no message"); if (!ua) REQUIRE(!(x.err + a->err).empty(), "no message"); int pid = pid_in(PF); REQUIRE(pid == (ua ? a->pid : ub ? b->pid : 0), "the pid file has %d; the first is %d (%s), the second %d (%s)", pid, a->pid, ua ? "up" : "down", b->pid, ub ? "up" : "down");
    if (ua) { raise_sig(a, SIGTERM); settle(); REQUIRE(a->exited && !get_ino(PF), "no orderly end"); Proc *c = launch(fg, {"-c", CF}, conmand2_main); if (!ub && when == 0 && 0) (void)c; } outcome(fmt("%d %d %d %d", how, when, ua, ub)); }
