#include "cli.h"
/* However and whenever the session ends, the terminal is as before. */
enum { X_CLOSE, X_RESET, X_TERM, X_LEAVE, X_TTYERR, X_OUTERR, X_LOGERR, X_TYPECLOSE, X_HANGUP, NX };
static const char *XN[] = {"server closes", "connection resets", "SIGTERM", "escape and server closes", "terminal read error", "terminal write error", "session log write error", "typing while the server has closed", "terminal hang-up"};
static FileP tty_file(Cli &c) { return c.p->exited ? nullptr : c.p->fds[0]; }
struct Sess2 { Cli c; int kd; 
    void start(int k, bool log) { kd = k; c.term(); c.server(); mk_dir("/tmp"); std::vector<S> a; if (log) a = {"-l", "/tmp/l"}; if (kd == 1) a.push_back("-m"); if (kd == 2) a.push_back("-b"); a.push_back(kd == 2 ? "c1,c2" : "c1"); c.run(a); }
    S rsp() { return kd == 2 ? "OK CONSOLE='c1' CONSOLE='c2'" : "OK OPTION=RESET CONSOLE='c1'"; }
    void cause(int x) { switch (x) { case X_CLOSE: case X_TYPECLOSE: if (c.srv->cur() && !c.srv->cur()->ours_closed) c.srv->cur()->close(); break; case X_RESET: if (c.srv->cur() && !c.srv->cur()->ours_closed) c.srv->cur()->reset(); break; case X_TERM: raise_sig(c.p, SIGTERM); break; case X_LEAVE: c.tty->send("&."); break;
        case X_TTYERR: if (auto f = tty_file(c)) { f->rerr = EIO; c.tty->send("x"); } break; case X_OUTERR: if (auto f = tty_file(c)) f->werr = EIO; if (c.srv->cur()) c.srv->cur()->send("out"); break; case X_HANGUP: if (auto f = tty_file(c)) { f->rx->wclosed = true; c.ino->tio = c.orig; } break; case X_LOGERR: W->write_err_path = ENOSPC; W->write_err_for = "/tmp/l"; if (c.srv->cur()) c.srv->cur()->send("out"); break; } }
    void ended(int x) { if (!c.p->exited && x == X_TYPECLOSE) { c.tty->send("x"); settle(); } if (!c.p->exited && (x == X_LEAVE || x == X_LOGERR || x == X_OUTERR || x == X_TTYERR)) { c.tty->send("\r&."); settle(); if (c.srv->cur()) c.srv->cur()->close(); settle(); } REQUIRE(c.p->exited, "%s: the client does not end", XN[x]);
        REQUIRE(c.restored(), "%s: the client ends (status %d, signal %d, \"%s\") and leaves the terminal changed (iflag %x oflag %x cflag %x lflag %x)", XN[x], c.p->code, c.p->killed_by, c.p->err.c_str(), c.ino->tio.c_iflag, c.ino->tio.c_oflag, c.ino->tio.c_cflag, c.ino->tio.c_lflag); }
};
SCENARIO(end_session, "C24", 0,0,0, 0,0,0, "9 ways of ending (server close, reset, SIGTERM, escape, terminal and log errors, hang-up) x 3 session kinds x with and without a log x with echo toggled, after a mode change, after a suspension, in the middle of an escape: terminal settings and exit status") {
    Sess2 s; int k = pick(3, "kind"), x = pick(NX, "end"), lg = pick(2, "log"), st = pick(6, "state"); if (x == X_LOGERR && !lg) return; s.start(k, lg); s.c.handshake(s.rsp()); REQUIRE(!s.c.p->exited && is_raw(s.c.ino->tio), "no session: %s", s.c.p->err.c_str());
    if (st == 1) s.c.tty->send("&E"); if (st == 2) s.c.tty->send("&M"); if (st == 3) s.c.tty->send("abc&"); if (st == 4) s.c.tty->send("&J&E&E&E"); settle(); if (st == 5) { s.c.tty->send("&Z"); settle(); REQUIRE(s.c.p->stopped, "not suspended"); REQUIRE(s.c.restored(), "suspended with a changed terminal"); raise_sig(s.c.p, SIGCONT); settle(); }
    if (st == 3) { s.c.tty->send("x"); settle(); } s.c.s()->send("some output"); settle(); s.c.show(); s.cause(x); settle(); if (x == X_LEAVE) { REQUIRE(!s.c.p->exited && is_raw(s.c.ino->tio), "the client does not wait for the server's end"); s.c.s()->close(); settle(); } s.ended(x);
    if (x == X_CLOSE || x == X_LEAVE || x == X_TERM || x == X_TYPECLOSE) REQUIRE(s.c.p->code == 0 && !s.c.p->killed_by, "%s: exit status %d, signal %d (%s)", XN[x], s.c.p->code, s.c.p->killed_by, s.c.p->err.c_str()); if (x == X_LOGERR || x == X_TTYERR || x == X_OUTERR) REQUIRE(s.c.p->code != 0 && !s.c.p->err.empty(), "%s: exit status %d, message \"%s\"", XN[x], s.c.p->code, s.c.p->err.c_str()); outcome(fmt("%d %d %d", k, x, s.c.p->code)); }
SCENARIO(end_anytime, "C24", 0,0,1, 0,0,2, "6 ways of ending strike at every single point from the program's start on, through handshake, session, keystrokes, escapes and output: the client ends and the terminal is restored") {
    Sess2 s; int k = pick(3, "kind"), x = pick(5, "end"); if (x == X_TTYERR) x = X_OUTERR; s.start(k, false); W->sig_after_err = true; int hits = 0; async_event("end", [&]{ hits = 1; s.cause(x); });
    settle(); auto gone = [&]{ return s.c.p->exited || !s.c.srv->cur() || s.c.srv->cur()->ours_closed; };
    if (!gone()) { s.c.s()->take(); s.c.s()->send("OK\n"); settle(); } if (!gone()) { s.c.s()->take(); s.c.s()->send(s.rsp() + "\n"); settle(); } if (!gone()) { s.c.s()->send("hello"); s.c.tty->send("a&Eb&M&Jc"); settle(); } if (!gone()) { s.c.s()->send("more"); s.c.tty->send("&Q&I"); settle(); }
    flush_async(); settle(); if (!s.c.p->exited && x <= X_RESET) { s.cause(x); settle(); } if (!s.c.p->exited && x == X_LEAVE && s.c.s()) { s.c.tty->send("&."); settle(); s.c.s()->close(); settle(); }
    if (!s.c.p->exited && x == X_OUTERR) { s.c.tty->send("&I"); settle(); } s.ended(x); if (x == X_TERM) REQUIRE(s.c.p->code == 0 || s.c.p->killed_by == SIGTERM || (s.c.p->code > 0 && !s.c.p->err.empty()), "SIGTERM: exit status %d", s.c.p->code); outcome(fmt("%d %d %d", k, x, s.c.p->code)); }
SCENARIO(end_handshake, "C24", 0,0,0, 0,0,0, "14 ways of failing before the session (no such host, refused, timeout, closed or reset at each handshake stage, error replies, garbage, log or terminal unusable): status, message, terminal untouched") {
    Sess2 s; int k = pick(3, "kind"), h = pick(14, "failure"); s.c.term(); s.c.server(); mk_dir("/tmp"); std::vector<S> a; if (k == 1) a.push_back("-m"); if (k == 2) a.push_back("-b"); Service *v = s.c.srv; S want;
    switch (h) { case 0: a.push_back("-d"); a.push_back("no.where"); want = "resolve"; break; case 1: v->policy = [](Conn*){ return ECONNREFUSED; }; want = "onnect"; break; case 2: v->policy = [](Conn*){ return ETIMEDOUT; }; want = "onnect"; break; case 11: a.push_back("-l"); a.push_back("/no/dir/l"); want = "/no/dir/l"; break; case 12: g_tty_fds = 1; want = "erminal"; break; case 13: a.push_back("-F"); a.push_back("/no/file"); want = "/no/file"; break; }
    a.push_back("c1"); s.c.run(a); settle(); Conn *q = v->cur(); if (h == 3) q->close(); if (h == 4) q->reset(); if (h == 5) { q->send("ERROR CODE=4 MESSAGE='denied by \xa7""rule\xa7'\n"); q->close(); want = "denied by 'rule'"; } if (h == 6) { q->send("WHAT\n"); settle(); q->close(); }
    if ((h >= 7 && h <= 10) || h == 12) { q->take(); q->send("OK\n"); settle(); q->take(); if (h == 7) q->close(); if (h == 8) q->reset(); if (h == 9) { q->send("ERROR CODE=7 MESSAGE='Found 1 console already in use'\nconsole [c1] open R/W\n"); settle(); REQUIRE(!s.c.p->exited, "the client does not read the list"); q->send("more\n"); q->close(); want = "Found 1 console already in use"; } if (h == 10) { q->send("\n"); settle(); if (!s.c.p->exited) q->close(); } if (h == 12) q->send(S(k == 2 ? "OK CONSOLE='c1' CONSOLE='c2'\n" : "OK CONSOLE='c1'\n")); } settle();
    if (h < 11 && !s.c.p->exited && q) { q->close(); settle(); }
    REQUIRE(s.c.p->exited && s.c.p->code > 0 && !s.c.p->killed_by, "failure %d: exited %d, status %d, signal %d", h, s.c.p->exited, s.c.p->code, s.c.p->killed_by); REQUIRE(s.c.restored(), "failure %d: the terminal is changed", h); REQUIRE(!s.c.p->err.empty() && (want.empty() || has(s.c.p->err, want)), "failure %d: the message is \"%s\"", h, esc(s.c.p->err).c_str()); if (h == 9) REQUIRE(has(s.c.p->err, "console [c1] open R/W\nmore\n"), "the server's details are shown as \"%s\"", esc(s.c.p->err).c_str()); outcome(fmt("%d %d", h, s.c.p->code)); }
SCENARIO(suspend_resume, "C24", 0,0,0, 0,0,0, "suspension and resumption, up to three rounds, from 6 states, with 9 things happening meanwhile (output, bursts, close, reset, SIGTERM, terminal settings changed by others, typing for the shell): settings while suspended and after, both escapes sent, display and typing continue without loss") {
    Sess2 s; int k = pick(3, "kind"), st = pick(5, "state"); s.start(k, false); s.c.handshake(s.rsp()); bool conn = k != 1, echo = false; if (st == 1) { s.c.tty->send("&E"); if (conn) echo = true; } if (st == 2) { s.c.tty->send("&J"); conn = true; } if (st == 3) { s.c.tty->send("&M"); if (k != 2) conn = false; } if (st == 4) s.c.tty->send("&E&E"); settle(); S net = s.c.s()->take(); s.c.show(); int n = k == 2 ? 2 : 1;
    int rounds = 1 + pick(g_thorough ? 3 : 2, "rounds"); for (int r = 0; r < rounds; r++) { struct termios run = s.c.ino->tio; int ev = pick(9, "meanwhile");
        s.c.tty->send("&Z"); settle(); REQUIRE(s.c.p->stopped && s.c.p->nstops == r + 1, "the client is not suspended"); REQUIRE(s.c.restored(), "suspended, but the terminal is not as before the session"); S o = s.c.show(); REQUIRE(o == "&Z" + cstat(n, "c1", "suspended"), "on suspension the client shows \"%s\"", esc(o).c_str()); net = s.c.s()->take(); REQUIRE(net == "\xffZ", "on suspension the client sends \"%s\"", esc(net).c_str());
        S out; bool end = false; switch (ev) { case 1: out = "while away"; s.c.s()->send(out); break; case 2: out = pattern(30000, r); s.c.s()->send(out); break; case 3: out = "bye"; s.c.s()->send(out); s.c.s()->close(); end = true; break; case 4: s.c.s()->reset(); end = true; break; case 5: raise_sig(s.c.p, SIGTERM); end = true; break; case 6: s.c.ino->tio.c_lflag &= ~ECHO; s.c.ino->tio.c_cc[VINTR] = 9; s.c.ino->tio = s.c.orig; break; case 7: s.c.s()->send("x"); settle(); s.c.s()->send("y"); out = "xy"; break; case 8: advance(100000); break; }
        settle(); REQUIRE(s.c.p->stopped, "the client runs while suspended"); REQUIRE(s.c.show().empty(), "the client displays while suspended"); raise_sig(s.c.p, SIGCONT); settle(); 
        if (end) { o = s.c.show(); if (ev == 3) REQUIRE(has(o, "bye"), "the last output is missing: \"%s\"", esc(o).c_str()); REQUIRE(s.c.p->exited, "event %d: the client does not end after resuming", ev); REQUIRE(s.c.restored(), "event %d: the client ended after resuming (status %d: %s) and left the terminal changed", ev, s.c.p->code, s.c.p->err.c_str()); if (ev != 4) REQUIRE(s.c.p->code == 0, "event %d: status %d", ev, s.c.p->code); outcome(fmt("%d ended", ev)); return; }
        o = s.c.show(); REQUIRE(o == cstat(n, "c1", "resumed") + out, "on resumption the client shows \"%s\"", esc(o).c_str()); net = s.c.s()->take(); REQUIRE(net == "\xffZ", "on resumption the client sends \"%s\"", esc(net).c_str()); REQUIRE(is_raw(s.c.ino->tio), "after resuming the terminal is not raw"); REQUIRE(!!(s.c.ino->tio.c_lflag & ECHO) == echo, "after resuming local echo is %s", echo ? "off" : "on"); REQUIRE(!memcmp(&run, &s.c.ino->tio, sizeof run), "after resuming the terminal settings differ from those before");
        s.c.tty->send("ab\xff"); settle(); net = s.c.s()->take(); REQUIRE(net == (conn ? "ab\xff\xff" : ""), "after resuming, typing sends \"%s\"", esc(net).c_str()); if (conn) { s.c.tty->send("&E"); settle(); echo = !echo; REQUIRE(!!(s.c.ino->tio.c_lflag & ECHO) == echo, "toggling echo after resuming does not work"); s.c.tty->send("&?"); settle(); o = s.c.show(); REQUIRE(has(o, echo ? "Disable echoing" : "Enable echoing"), "the help message misstates the echo mode"); } }
    s.c.tty->send("&."); settle(); s.c.s()->close(); settle(); s.ended(X_LEAVE); REQUIRE(s.c.p->code == 0, "status %d", s.c.p->code); outcome(fmt("%d %d %d", k, st, rounds)); }
SCENARIO(suspend_anytime, "C24", 0,0,1, 0,0,1, "close, reset, SIGTERM or the resumption itself strike at every single point around a suspension: settings are right whenever the client is stopped or gone") {
    Sess2 s; int k = pick(3, "kind"), x = pick(4, "event"); s.start(k, false); s.c.handshake(s.rsp()); s.c.show(); async_event("strike", [&]{ if (x == 3) raise_sig(s.c.p, SIGCONT); else s.cause(x == 0 ? X_CLOSE : x == 1 ? X_RESET : X_TERM); }); s.c.tty->send("a&Z"); settle(); if (s.c.p->stopped) REQUIRE(s.c.restored(), "suspended with a changed terminal"); flush_async(); settle(); for (int i = 0; i < 3 && s.c.p->stopped; i++) { REQUIRE(s.c.restored(), "suspended with a changed terminal"); raise_sig(s.c.p, SIGCONT); settle(); }
    if (x == 3) { REQUIRE(!s.c.p->exited && is_raw(s.c.ino->tio), "not resumed: %s", s.c.p->err.c_str()); s.c.tty->send("b"); settle(); REQUIRE(has(s.c.s()->take(), k == 1 ? "" : "b"), "typing is lost"); s.c.tty->send("&."); settle(); s.c.s()->close(); settle(); } s.ended(x == 0 || x == 3 ? X_CLOSE : x == 1 ? X_RESET : X_TERM); outcome(fmt("%d %d", x, s.c.p->code)); }
