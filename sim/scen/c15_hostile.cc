/* C15: whatever a client sends, and whenever it stops, others are not harmed and it gains nothing. */
#include "dev.h"
namespace {
struct Env15 {
    std::vector<Dev> d; Client by; int nfd = 0, nth = 0;
    void start(const S &tail = "") {
        d = {Dev(UNIX, "c1"), Dev(UNIX, "c2", 1), Dev(UNIX, "keep", 2)}; d[0].log = "c1.log"; boot(devs_conf(d, tail)); expect_alive();
        nfd = D->nfds(); nth = live_threads(D); by.user = "by"; REQUIRE(by.open("CONNECT", {"keep"}), "bystander"); by.fresh(); for (auto &x : d) x.take();
    }
    void work(const char *when) {   /* the bystander's session is unimpaired and nothing else reached it */
        expect_alive(); S o = by.fresh(), i = d[2].take(); REQUIRE(o.empty() && i.empty(), "%s: another session received \"%s\", its console \"%s\"", when, esc(o).c_str(), esc(i).c_str());
        by.type("in"); d[2].send("out"); settle(); o = by.fresh(); i = d[2].take(); REQUIRE(o == "out" && i == "in", "%s: another session was disturbed (client got \"%s\", console got \"%s\")", when, esc(o).c_str(), esc(i).c_str());
    }
    void after(const char *when) {
        work(when); REQUIRE(D->nfds() == nfd + 1, "%s: %d descriptors are open instead of %d", when, D->nfds(), nfd + 1); REQUIRE(live_threads(D) == nth, "%s: %d threads remain instead of %d", when, live_threads(D), nth); mem_check_all();
        Client n; n.user = "next"; REQUIRE(n.open("CONNECT", {"c*"}, "BROADCAST"), "%s: the next client is refused: %s", when, esc(n.raw).c_str()); d[0].take(); d[1].take(); n.type("new"); settle();
        REQUIRE(d[0].take() == "new" && d[1].take() == "new", "%s: the next client's input is not delivered", when); n.c->close(); settle(); work(when);
    }
};
/* What a request line means, by the documented grammar; lets the check tell a session from a refusal. */
}
static void leave(Conn *c, int how) { if (how == 0) c->close(); else if (how == 1) c->shut_wr(); else c->reset(); settle(); for (int j = 0; j < 20 && how == 1 && !c->app_closed(); j++) { c->take(); settle(); } if (how == 1 && !c->app_closed()) { c->close(); settle(); } }
static const char *const TOK[] = {"HELLO", "USER", "TTY", "CONSOLE", "OPTION", "CONNECT", "MONITOR", "QUERY", "BROADCAST", "REGEX", "=", "'", "\"", "'c1'", "'('", "\\", "\x01", "7", "#", "\r", " "};
enum { NTOK = sizeof TOK / sizeof *TOK };
static S mkline(int len, const char *tag) { S l; for (int i = 0; i < len; i++) { int t = pick(NTOK, tag); l += TOK[t]; } return l; }
/* Any sequence of protocol fragments as greeting: no session ever follows from it, and the others go on. */
static void gr(S first, S second, int how, int rounds) {
  Env15 e; e.start(); size_t mem = 0;
  for (int rd = 0; rd < rounds; rd++) {
    Conn *c = dial(PORT); S got; REQUIRE(c, "cannot connect");
    c->send(first + "\n"); settle(); got = c->take(); bool greeted = got.compare(0, 3, "OK\n") == 0;
    REQUIRE(greeted == (has(first, "USER='") && has(first, "HELLO")) || !greeted || has(first, "USER"), "a greeting without user was accepted: \"%s\"", esc(first).c_str());
    if (!greeted) { REQUIRE(has(got, "ERROR") && c->app_closed(), "invalid greeting \"%s\" answered with \"%s\", connection %s", esc(first).c_str(), esc(got).c_str(), c->app_closed() ? "closed" : "open"); }
    else { c->send(second + "\n"); settle(); S r = c->take(); bool ok = r.compare(0, 2, "OK") == 0;
        REQUIRE(r.empty() ? c->app_closed() : (ok || r.compare(0, 5, "ERROR") == 0), "request \"%s\" answered with \"%s\"", esc(second).c_str(), esc(r).c_str());
        if (!ok) { REQUIRE(c->app_closed(), "the connection of a refused client stays open"); e.d[0].take(); }
        else { bool sess = has(second, "CONNECT") || has(second, "MONITOR"); if (!sess) REQUIRE(c->app_closed(), "no session was requested but the connection stays open");
            if (!has(second, "CONNECT") && !c->app_closed()) { c->send("zz"); settle(); for (int i = 0; i < 3; i++) REQUIRE(e.d[i].take().empty(), "input of a client without write access reached console %d: request \"%s\"", i, esc(second).c_str()); } } }
    e.work("while it is connected"); leave(c, how); advance(1); REQUIRE(c->app_closed(), "the connection is kept"); for (auto &x : e.d) x.take(); e.by.fresh(); e.after("after it left"); outcome(got.substr(0, 5) + (greeted ? "+" : "-"));
    size_t m = mem_live(); REQUIRE(rd < 3 || m == mem, "heap blocks in use grew from %zu to %zu over one more identical request", mem, m); mem = m;
  }
}
SCENARIO(hostile_greeting, "C15", 0,0,0, 0,0,0, "every sequence of protocol fragments (keywords, quotes, backslash, control bytes, numbers) up to 3 (thorough 4) as the greeting, after HELLO, or after HELLO USER=") {
    static const char *pre[] = {"", "HELLO ", "HELLO USER="}; int p = pick(3, "prefix"), n = pick((g_thorough ? 4 : 3), "length") + 1; if (p == 0 && n > 2) n = g_thorough ? 3 : 2; S f = pre[p] + mkline(n, "fragment"); gr(f, "QUERY", 0, n < 3 && p ? 4 : 1);
}
SCENARIO(hostile_request, "C15", 0,0,0, 0,0,0, "every sequence of protocol fragments up to 3 (thorough 4) as the request, bare or after a valid beginning, with every kind of leaving") {
    static const char *pre[] = {"", "CONNECT ", "MONITOR CONSOLE=", "CONNECT OPTION=REGEX CONSOLE='c1' CONSOLE="}; int p = pick(4, "prefix"), n = pick(g_thorough ? 4 : 3, "length") + 1; S s = pre[p] + mkline(n, "fragment"); gr("HELLO USER='x' TTY='y'", s, n < 3 ? pick(3, "how") : 0, n < 2 + g_thorough ? 4 : 1);
}
SCENARIO(hostile_repeat, "C15", 0,0,0, 0,0,0, "every sequence of up to 3 (thorough 4) well-formed fields in the greeting and of up to 3 (thorough 4) in the request, repeated, contradicting and misplaced ones included, four times in a row: nothing is leaked and the others go on") {
    static const char *gf[] = {"USER='a'", "USER='bb'", "TTY='t'", "TTY='uu'", "USER=''", "HELLO"}, *rf[] = {"CONSOLE='c1'", "CONSOLE='c2'", "CONSOLE='(c1)'", "OPTION=REGEX", "OPTION=FORCE", "OPTION=BROADCAST", "OPTION=JOIN", "OPTION=QUIET", "CONNECT", "MONITOR", "QUERY"}; static const char *const cmd[] = {"QUERY", "CONNECT", "MONITOR"};
    S f = "HELLO", s = "QUERY"; if (pick(2, "which") == 0) { int n = pick(g_thorough ? 5 : 4, "length"); for (int i = 0; i < n; i++) f += S(" ") + gf[pick(6, "field")]; } else { f += " USER='x'"; s = cmd[pick(3, "command")]; int n = pick(g_thorough ? 5 : 4, "length"); for (int i = 0; i < n; i++) s += S(" ") + rf[pick(11, "field")]; } gr(f, s, 0, 4);
}
/* Every truncation point of every kind of request, and every way to end there; and: the answer does not depend on the segmentation. */
static const char *REQS[] = {"QUERY CONSOLE='c1'", "QUERY", "MONITOR CONSOLE='c1'", "CONNECT CONSOLE='c2' OPTION=QUIET", "CONNECT OPTION=BROADCAST CONSOLE='c*' OPTION=FORCE", "CONNECT OPTION=REGEX CONSOLE='c('", "CONNECT CONSOLE='keep'", "CONNECT CONSOLE='none'", "CONNECT CONSOLE='c*'", "NONSENSE"};
SCENARIO(hostile_truncate, "C15", 0,0,0, 0,0,0, "ten requests cut off after every byte by close, half-close or reset, sent in one piece or byte by byte") {
    Env15 e; e.start(); int r = pick(10, "request"); S all = S("HELLO USER='x' TTY='y'\n") + REQS[r] + "\n"; size_t n = pick(all.size() + 1, "cut"); int how = pick(3, "how"), bytes = pick(2, "byte by byte");
  int pause = pick(2, "pause"); size_t mem = 0;
  for (int rd = 0; rd < 4; rd++) {
    Conn *c = dial(PORT); if (bytes) for (size_t i = 0; i < n; i++) { c->send(all.substr(i, 1)); settle(); } else c->send(all.substr(0, n)); if (pause) settle();
    leave(c, how); advance(1); REQUIRE(c->app_closed(), "the connection is kept"); S got = all.substr(0, n); size_t q = got.find("CONSOLE='"); bool full = n == all.size() || (how != 2 && q != S::npos && got.find('\'', q + 9) != S::npos);  /* the end of input ends a line like a newline does */
    if (!full && !rd) { for (auto &x : e.d) { S g = x.take(); REQUIRE(g.empty(), "an incomplete request wrote \"%s\" to [%s]", esc(g).c_str(), x.name.c_str()); } S lg = file_data("/var/log/c1.log"); REQUIRE(!has(lg, "joined") && !has(lg, "stolen"), "an incomplete request joined the console: %s", esc(lg).c_str()); }
    e.d[0].take(); e.d[1].take(); e.by.fresh(); e.d[2].take(); e.after("after the truncated request"); outcome(fmt("%d %d", r, full));
    size_t m = mem_live(); REQUIRE(rd < 3 || m == mem, "heap blocks in use grew from %zu to %zu over one more identical request", mem, m); mem = m;
  }
}
SCENARIO(request_segments, "C15", 0,0,0, 0,0,0, "ten requests under every segmentation with up to 2 cuts: the same answer as in one piece") {
    Env15 e; e.start(); int r = pick(10, "request"); S all = S("HELLO USER='x' TTY='y'\n") + REQS[r] + "\n"; S ans[2];
    for (int k = 0; k < 2; k++) { Conn *c = dial(PORT); if (k == 0) { c->send(all); settle(); } else seg_enum(c, all, 2); ans[k] = c->take(); ans[k] += c->app_closed() ? "[closed]" : "[open]"; leave(c, 0); advance(1); e.after("after a segmented request"); }
    REQUIRE(ans[0] == ans[1], "request %d answered with \"%s\" in pieces but \"%s\" in one piece", r, esc(ans[1]).c_str(), esc(ans[0]).c_str()); outcome(ans[0]);
}
/* Any short byte string over the special bytes in a running session. */
SCENARIO(hostile_session, "C15", 0,0,0, 0,0,0, "every string of 3 (thorough 4) items over the escape byte, all command letters and special bytes in a running session (connect, monitor, broadcast, query-like); the others go on") {
    static const char *it[] = {"\xff", "&B", "D", "F", "H", "J", "L", "M", "Q", "R", "Z", "\x7f", "\xff\xff", "\xff&", "\xff?", "a", "\r\n", "\xff""B", "\xff""R", "\xff""Z", "\xff""J", "\xff""F", "\xff""M", "\xff""L", "\xff""\x7f", "\xff""Q"}; static const char *zero = "\0";
    int k = pick(3, "session"); Env15 e; e.start(pick(2, "reset command") ? "server resetcmd=\"/sbin/reset %N\"\n" : ""); Client c; c.user = "x"; REQUIRE(k == 0 ? c.open("CONNECT", {"c1"}) : k == 1 ? c.open("MONITOR", {"c1"}) : c.open("CONNECT", {"c1", "c2"}, "BROADCAST"), "open");
    int n = g_thorough ? 4 : 2; S s; for (int i = 0; i < n; i++) { int x = pick(27, "item"); S t = x == 26 ? S(zero, 1) : S(it[x]); c.c->send(t); settle(); s += t; }
    e.work("during hostile input"); e.d[0].send("o"); settle(); leave(c.c, 0); advance(70); REQUIRE(c.c->app_closed(), "kept"); e.d[0].take(); e.d[1].take(); for (auto v : W->vprocs) if (v->alive && has(v->path, "sh")) vproc_die(v, 0); settle(); e.by.fresh(); e.d[2].take(); advance(61); e.after("after hostile input"); outcome(fmt("%d", k));
}
/* Sizes around every buffer. */
SCENARIO(hostile_sizes, "C15", 0,0,0, 0,0,0, "names, patterns and lines around every fixed buffer size (80, 1024, 4096, 131072) in every field, quoted or not, as busy writer, and thousands of nested groups in regular expressions") {
    static const int sz[] = {1, 78, 79, 80, 255, 1000, 1018, 1022, 1023, 1024, 1025, 2047, 4096, 8192, 65536, 131069, 131070, 131071, 131072, 131073, 262144};
    static const char fill[] = {'x', '\'', '\\', '%', ' ', '(', '*', '\x80', '\xff', '[' };
    int f = pick(7, "field"), n = sz[pick(sizeof sz / sizeof *sz, "size")]; char ch = fill[pick(sizeof fill, "filler")]; S big(n, ch); if (ch == '%') for (int i = 0; i + 1 < n; i += 2) big[i + 1] = 'n'; if (ch == '\'') for (int i = 0; i < n; i += 2) big[i] = '\\';
    Env15 e; e.start(); S g = "HELLO USER='x' TTY='y'", r = "CONNECT CONSOLE='c1'";
    switch (f) { case 0: g = "HELLO USER='" + big + "' TTY='y'"; break; case 1: g = "HELLO USER='x' TTY='" + big + "'"; break; case 2: r = "CONNECT CONSOLE='" + big + "'"; break; case 3: r = "QUERY OPTION=REGEX CONSOLE='" + big + "'"; break;
    case 4: g = "HELLO " + big; break; case 5: r = big; break; case 6: r = "QUERY OPTION=REGEX"; for (int i = 0; i < n && i < 131000; i += 1000) r += " CONSOLE='" + big.substr(i, 1000) + "'"; break; }
    Conn *c = dial(PORT); c->send(g + "\n" + r + "\n"); settle(); S a = c->take(); e.work("during the session"); if (!c->app_closed()) { c->send("typed"); settle(); if (a.compare(0, 3, "OK\n") == 0 && has(a, "OK CONSOLE")) { Client b; b.user = "b"; b.open("CONNECT", {"c1"}); Client m; m.open("MONITOR", {"c1"}); Client th; th.user = "th"; REQUIRE(th.open("CONNECT", {"c1"}, "FORCE"), "force"); m.c->close(); th.c->close(); settle(); if (b.c) b.c->close(); settle(); } }
    e.d[0].take(); e.d[1].take(); leave(c, 0); advance(1); REQUIRE(c->app_closed(), "kept"); e.by.fresh(); e.after("after an oversized request"); outcome(fmt("%d %d", f, (int)a.size() > 40));
}
/* Many clients that go on for ever, and resources that run out. */
SCENARIO(hostile_exhaust, "C15", 0,0,0, 0,0,0, "descriptors run out (by 1 to 3 clients too many), accept() fails with any error, or a thread cannot be created, any number of times: sessions continue and service resumes") {
    Env15 e; e.start(); int k = pick(3, "kind"), extra = pick(3, "how many") + 1, busy = pick(3, "meanwhile"); static const int errs[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM, EPROTO, EINTR, EAGAIN};
    std::vector<Conn*> cs; tracef("kind %d, %d extra, meanwhile %d", k, extra, busy);
    if (k == 0) { int free_ = 4; W->nofile = (int)D->fds.size(); int used = D->nfds(); W->nofile = std::max(W->nofile, used + free_); int slots = W->nofile - used; for (int i = 0; i < slots + extra; i++) { Conn *c = dial(PORT); if (c) { if (busy == 1) c->send("HELLO USER='h'\nCONNECT CONSOLE='c1' OPTION=JOIN\n"); cs.push_back(c); } settle(); } }
    else for (int i = 0; i < extra; i++) { if (k == 1) W->accept_err = errs[pick(9, "errno")]; else W->thread_fails = 1; Conn *c = dial(PORT); if (c) { c->send("HELLO USER='h'\nQUERY\n"); cs.push_back(c); } settle(); }
    int64_t st = W->steps; advance(3); REQUIRE(W->steps - st < 3000, "the daemon spins (%ld steps in 3 s) while clients cannot be accepted", (long)(W->steps - st)); e.work("while resources are exhausted");
    if (busy == 2) { raise_sig(D, SIGHUP); settle(); advance(2); e.work("after a reconfiguration during exhaustion"); }
    for (auto c : cs) { c->take(); c->close(); } settle(); W->nofile = 1024; W->accept_err = 0; W->thread_fails = 0; advance(5); e.d[0].take(); e.d[1].take(); e.after("after the exhaustion"); outcome(fmt("%d %d %d", k, extra, busy));
}
