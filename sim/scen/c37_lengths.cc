/* C37: names and messages of any length. */
#include "sess.h"
#include "cli.h"
static const S PRE("\r\n<ConMan> ");
static std::vector<S> records(const S &s) { std::vector<S> v; size_t i = 0; while (i < s.size()) { size_t n = s.find(PRE, i ? i + 1 : 1); if (n == S::npos) n = s.size(); v.push_back(s.substr(i, n - i)); i = n; } return v; }
/* A record that fits into a line (1020 bytes) is whole; a longer one may be cut, but is still a line of the same beginning. */
static bool same_rec(const S &g, const S &w) { size_t e = w.rfind("\r\n"); S wm = e == S::npos ? w : w.substr(0, e + 2); if (wm.size() <= 1020 || w.compare(0, PRE.size(), PRE)) return g == w; if (g == w) return true;
    S rest = w.substr(wm.size()); if (g.size() < rest.size() || g.compare(g.size() - rest.size(), S::npos, rest)) return false; S gm = g.substr(0, g.size() - rest.size());
    return gm.size() >= 1000 && gm.size() <= 1025 && gm.compare(0, 1000, wm, 0, 1000) == 0 && gm.compare(gm.size() - 2, 2, "\r\n") == 0 && gm.find("\r\n", 2) >= gm.size() - 5; }
static bool same_stream(const S &g, const S &w) { if (g == w) return true; auto a = records(g), b = records(w); if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same_rec(a[i], b[i])) return false; return true; }
static S longs(size_t n) { S s; for (size_t i = 0; i < n; i++) s += (char)('a' + i % 26); return s; }
static void talk(Sess &s, const char *w) { for (size_t k = 0; k < s.cl.size(); k++) if (s.cl[k].live) s.op_type(k, fmt("%zu,", k)); s.op_out(0, "[out]"); s.check(w); }
SCENARIO(len_notices, "C37", 0,0,0, 0,0,0, "console names (every length from 880 to 1023), user names and terminal names (to 1100, 4096, 7000) in a session with every kind of notice: arrival, joining, stealing, departing, busy, monitoring, replay, loss and return of the console") {
    int which = pick(3, "which"); size_t n; if (which == 0) { static const int few[] = {1, 79, 80, 255, 256, 512}; int x = pick(6 + 144, "length"); n = x < 6 ? few[x] : 880 + x - 6; } else { static const int more[] = {80, 255, 4096, 7000}; int x = pick(4 + 240, "length"); n = x < 4 ? more[x] : 860 + x - 4; }
    Sess s; s.same = same_stream; (which == 0 ? s.longname.resize(1) : (void)0, which == 0 ? s.longname[0] : which == 1 ? s.upad : s.tpad) = longs(n); s.start(1, 3); tracef("%s of %zu bytes", which == 0 ? "console name" : which == 1 ? "user" : "tty", n);
    int v = pick(g_thorough ? 4 : 2, "variant"); Client c0; const S nm = s.con[0].name;
    s.op_connect(0, {0}, ""); s.check("connect"); talk(s, "traffic"); s.op_monitor(1, 0); s.check("monitor"); s.op_connect(2, {0}, v & 1 ? "FORCE" : "JOIN"); s.check("second writer"); talk(s, "traffic 2");
    if (s.cl[1].live) { s.op_esc(1, v & 2 ? 'F' : 'J'); s.check("promotion"); talk(s, "traffic 3"); s.op_esc(1, 'Q'); s.check("quiet"); s.op_esc(1, 'Q'); s.check("not quiet"); s.op_esc(1, 'M'); s.check("demotion"); talk(s, "traffic 4");
        S log = s.con[0].log; Client &w = s.cl[1].io; S real = file_data("/var/log/c1.log"); w.escape("L"); settle(); S g = w.fresh(), b = "\r\n<ConMan> Begin log replay of console [" + nm + "].\r\n", e = "\r\n<ConMan> End log replay of console [" + nm + "].\r\n"; REQUIRE(real.size() > 0 && g.size() > b.size() + e.size() && g.compare(0, b.size(), b) == 0 && g.compare(g.size() - e.size(), S::npos, e) == 0, "replay is not framed: %s", esc(g.substr(0, 100)).c_str()); S in = g.substr(b.size(), g.size() - b.size() - e.size()); REQUIRE(in == (real.size() > 4096 ? real.substr(real.size() - 4096) : real), "the replay shows %zu bytes that are not the end of the log (%zu bytes)", in.size(), real.size()); }
    { Client b; b.user = "busy"; bool ok = b.open("CONNECT", {nm}); bool writers = !s.con[0].writers.empty(); REQUIRE(ok == !writers, "a %s request for a console with %zu writers", ok ? "granted" : "refused", s.con[0].writers.size()); if (!ok) { REQUIRE(b.errcode() == 7, "busy console reported with code %d", b.errcode()); b.pump(); REQUIRE(!b.data.empty() && b.data.back() == '\n', "the busy reply is not made of lines: %s", esc(b.data.substr(0, 80)).c_str()); REQUIRE(b.closed(), "refused but open"); s.check("busy request"); } else { b.c->close(); settle(); } }
    for (int k = 0; k < 3; k++) if (s.cl[k].live && k != 1) { s.op_close(k, 0); s.check("departure"); } talk(s, "traffic 5");
    { Client q; q.user = "q"; REQUIRE(q.open("QUERY", {}), "query refused: %s", esc(q.raw.substr(0, 60)).c_str()); REQUIRE(has(q.raw, "CONSOLE='" + nm + "'"), "the list lacks the console: %s", esc(q.raw.substr(0, 80)).c_str()); }
    outcome(fmt("%d %zu", which, n)); }
SCENARIO(len_refused, "C37", 0,0,0, 0,0,0, "console names around and beyond the protocol's limit (1020 to 1030, 2047, 4096, 65536), requested alone, by pattern, in lists and in broadcasts: cut alike everywhere and served under what is left; others unaffected") {
    static const int sz[] = {1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 2047, 2048, 4096, 65536}; size_t n = sz[pick(12, "length")]; static const char *const cmd[] = {"QUERY", "MONITOR", "CONNECT", "CONNECT"}; int c = pick(4, "command"), by = pick(3, "selected by"); S full = longs(n), nm = full.substr(0, 1023);   /* a word of the configuration or of a request counts up to its 1023rd byte */
    Service *v1 = unix_service("c1", "/run/c1"), *v2 = unix_service("c2", "/run/c2"); boot("server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\nconsole name=\"" + full + "\" dev=\"unix:/run/c1\" log=\"c1.log\"\nconsole name=\"c2\" dev=\"unix:/run/c2\" log=\"c2.log\"\n"); expect_alive(); size_t base = D->nfds();
    Client w; w.user = "w"; REQUIRE(w.open("CONNECT", {"c2"}), "c2"); int used = D->nfds();
    for (int r = 0; r < 3; r++) { Client k; k.user = "k"; std::vector<S> sel = by == 0 ? std::vector<S>{full} : by == 1 ? std::vector<S>{"a*"} : std::vector<S>{"*"}; bool ok = k.open(cmd[c], sel, c == 3 ? "BROADCAST,JOIN" : c == 2 ? "JOIN" : ""); expect_alive();
        if (by == 2 && (c == 1 || c == 2)) REQUIRE(!ok && k.errcode() == 6, "several consoles without broadcast: %s", esc(k.raw.substr(0, 80)).c_str());
        else REQUIRE(ok, "the request is refused: %s", esc(k.raw.substr(0, 80)).c_str());
        if (ok) { REQUIRE(has(k.raw, "CONSOLE='" + nm + "'"), "a truncated name in the answer"); if (c >= 2) { k.type("hi"); settle(); REQUIRE(v1->cur()->take() == "hi", "input did not arrive"); if (by == 2) v2->cur()->take(); } }
        else { k.pump(); REQUIRE(k.closed(), "turned down, but the connection stays open"); k.type("x"); settle(); REQUIRE(v1->cur()->take().empty(), "a refused client wrote to the console"); }
        k.c->close(); settle(); advance(1); REQUIRE(D->nfds() == used, "%d descriptors instead of %d after the request", D->nfds(), used); }
    w.fresh(); w.type("still"); settle(); REQUIRE(v2->cur()->take() == "still", "the other session's input is lost"); v2->cur()->send("here"); settle(); REQUIRE(w.fresh() == "here", "the other session's output is lost"); v1->cur()->send("data"); settle(); S l = file_data("/var/log/c1.log"); REQUIRE(has(l, "data"), "output of the console is not logged"); (void)base; outcome(fmt("%zu %d %d", n, c, by)); }
/* A list is served whole or not at all. */
SCENARIO(len_lists, "C37", 0,0,0, 0,0,0, "lists of 120 to 135 consoles with names of 950 to 1023 bytes, around the largest answer (131072 bytes): whole or not at all, byte-exact around the limit") {
    int k = pick(40, "size"); size_t target = 131072 - 20 + k, each = 1000 + 11; int nc = target / each - 1; size_t used = 3 + nc * each, last = target - used - 11; S conf = "server loopback=on\nserver port=7890\n"; std::vector<S> names; (void)0;
    for (int i = 0; i <= nc; i++) { S nm = fmt("%03d", i); size_t want = i < nc ? 1000 : last; size_t over = 0; if (i == nc && want > 1000) { over = want - 1000; want = 1000; } nm += longs(want - 3); names.push_back(nm); if (over) { S t = fmt("%03d", i + 1); if (over > 11 + 3) { names.push_back(t + longs(over - 11 - 3)); } } }
    for (size_t i = 0; i < names.size(); i++) { unix_service(fmt("u%zu", i), fmt("/run/u%zu", i)); conf += "console name=\"" + names[i] + "\" dev=\"unix:/run/u" + fmt("%zu", i) + "\"\n"; }
    S want = "OK"; for (auto &x : names) want += " CONSOLE='" + x + "'"; want += "\n"; boot(conf); expect_alive(); Client q; q.user = "q"; int fds = D->nfds(); bool ok = q.open("QUERY", {}); q.pump(); expect_alive();
    if (want.size() < 131072) { REQUIRE(ok, "a list of %zu bytes is refused", want.size()); } S g = q.raw; size_t p = g.find('\n'); S a = p == S::npos ? "" : g.substr(p + 1);
    REQUIRE(ok ? a == want : a.empty() || a.compare(0, 5, "ERROR") == 0, "the answer is neither the whole list (%zu bytes) nor a refusal: %zu bytes, \"%s\"", want.size(), a.size(), esc(a.substr(0, 60)).c_str()); REQUIRE(q.closed(), "open"); q.c->close(); settle(); REQUIRE(D->nfds() == fds, "descriptor leak"); Client r; r.user = "r"; REQUIRE(r.open("QUERY", {names[0]}), "a single console cannot be queried any more"); outcome(fmt("%d", ok)); }
/* The daemon's own log stays made of lines: a message that is too long is cut, not merged with the next one. */
SCENARIO(len_dlog, "C37", 0,0,0, 0,0,0, "the daemon's log while users with names of every length from 880 to 1023 bytes (or consoles with such names) come, are refused, reset, and go: the same lines as with short names, each cut at most at its end") {
    int which = pick(2, "which"), bg = pick(2, "background"); size_t n = 880 + pick(144, "length"); S lg[2];
    std::vector<Service*> sv; Service *v = unix_service("c1", "/run/c1"); S L = longs(n - 4);
    auto run = [&](const S &cn, const S &u) { (void)0;
        (bg ? boot_daemon : boot)(S("server loopback=on\nserver port=7890\nserver resetcmd=\"/sbin/r\"\nserver logdir=\"/var/log\"\nserver logfile=\"/var/log/conmand.log\"\nconsole name=\"" + cn + "\" dev=\"unix:/run/c1\"\n"), {}); expect_alive();
        Client a; a.user = u; a.open("CONNECT", {cn}); Client b; b.user = u; b.open("CONNECT", {cn}); Client c; c.user = u; c.open("MONITOR", {cn}); Client q; q.user = u; q.open("QUERY", {cn}); Client x; x.user = u; x.open("CONNECT", {"none"}); a.escape("R"); settle(); a.c->close(); settle(); c.c->reset(); settle(); v->cur()->close(); settle(); advance(61); expect_alive(); return bg ? file_data("/var/log/conmand.log") : D->err; };
    S cn = which ? "c1" : "NAME" + L, u = which ? "USER" + L : "u"; S g = run(cn, u); REQUIRE(!g.empty() && g.back() == '\n', "the daemon's log does not end with a line: %s", esc(g.substr(g.size() > 80 ? g.size() - 80 : 0)).c_str());
    std::vector<S> ln; for (size_t i = 0; i < g.size(); ) { size_t e = g.find('\n', i); ln.push_back(g.substr(i, e - i)); i = e + 1; }
    static const char *const pr[] = {"INFO:      ", "NOTICE:    ", "WARNING:   ", "ERROR:     "}; std::map<S,int> kinds; const S &big = which ? u : cn;
    for (auto &l : ln) { bool ok = false; for (auto p : pr) { size_t at = l.find(p); ok |= at == 0 || (at == 20 && l.compare(0, 5, "2023-") == 0); } REQUIRE(ok, "a line of the daemon's log does not begin as one: %s", esc(l.substr(0, 100)).c_str()); REQUIRE(l.size() <= 1024, "a line of %zu bytes", l.size()); if (l.size() < 1000) { size_t at = l.find(which ? "USER" : "NAME"); REQUIRE(at == S::npos || l.compare(at, big.size(), big) == 0, "a name was cut in a message that had room (%zu bytes): %s", l.size(), esc(l.substr(l.size() - 60)).c_str()); } for (auto k : {"connected to", "issued query", "request failed", "disconnected", "reset by"}) if (has(l, k)) kinds[k]++; }
    outcome(fmt("%zu lines %zu", ln.size(), kinds.size())); }
/* The client program with long names. */
SCENARIO(len_client, "C37", 0,0,0, 0,0,0, "the real client and the real daemon with console names of every length from 880 to 1023 bytes: what the user is told, typed and shown, the session log, &I and &L") {
    static const int few[] = {1, 80, 255, 512}; int x = pick(4 + 144, "length"); size_t n = x < 4 ? few[x] : 880 + x - 4; int kd = pick(3, "kind"); S nm = longs(n);
    Service *v = unix_service("c1", "/run/c1"); W->hosts["localhost"] = "127.0.0.1"; boot("server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\nconsole name=\"" + nm + "\" dev=\"unix:/run/c1\" log=\"c1.log\"\n"); expect_alive();
    Cli c; c.term(); c.run(kd == 0 ? std::vector<S>{nm} : kd == 1 ? std::vector<S>{"-m", nm} : std::vector<S>{"-l", "/tmp/l", nm}); settle(); REQUIRE(!c.p->exited, "the client ends: %s%s", c.p->err.c_str(), c.p->out.c_str()); S o = c.show(); REQUIRE(same_stream(o, cstat(1, nm, "opened")), "told \"%s\"", firstdiff(o, cstat(1, nm, "opened")).c_str());
    c.tty->send("hello"); settle(); REQUIRE(v->cur()->take() == (kd == 1 ? "" : "hello"), "typed input is not relayed"); v->cur()->send("[data]"); settle(); REQUIRE((o = c.show()) == "[data]", "output shown as \"%s\"", esc(o.substr(0, 100)).c_str());
    c.tty->send("&I"); settle(); o = c.show(); REQUIRE(o.compare(0, PRE.size(), PRE) == 0 && has(o, nm.substr(0, 900)) && (o.size() > 1000 || has(o, "[" + nm + "] on <localhost:7890>.\r\n")), "the information shown is \"%s\"", esc(o.substr(0, 80)).c_str()); c.tty->send("&L"); settle(); o = c.show(); REQUIRE(has(o, "Begin log replay of console [" + nm + "].\r\n") && has(o, "[data]") && has(o, "End log replay of console [" + nm + "].\r\n"), "the replay is not shown");
    v->cur()->send("[more]"); settle(); REQUIRE((o = c.show()) == "[more]", "output shown as \"%s\"", esc(o.substr(0, 100)).c_str()); c.tty->send("&."); settle(); REQUIRE(c.p->exited && c.p->code == 0 && c.restored(), "leaving"); o = c.show(); if (o.compare(0, 2, "&.") == 0) o.erase(0, 2); REQUIRE(same_stream(o, cstat(1, nm, "closed")), "told at the end \"%s\"", firstdiff(o, cstat(1, nm, "closed")).c_str());
    if (kd == 2) { S l = file_data("/tmp/l"); REQUIRE(has(l, "[data]") && has(l, "[more]") && has(l, "Log finished at"), "the session log is incomplete"); } expect_alive(); outcome(fmt("%zu", n)); }
/* Device names of any length on every transport. */
SCENARIO(len_devs, "C37", 0,0,0, 0,0,0, "consoles of every transport whose names and devices (or hosts, programs) have 1, 95 to 110, 430 to 510 and 990 to 1013 bytes, from connecting through traffic, loss, arrival of a viewer and reconnecting: usable under exactly that name and device, or refused when the daemon starts") {
    int t = pick(5, "transport"), x = pick(1 + 16 + 81 + 24, "length"); size_t n = x < 1 ? 1 : x < 17 ? 95 + x - 1 : x < 98 ? 430 + x - 17 : 990 + x - 98; static const int TY[] = {UNIX, TELNET, PROCESS, SERIAL, IPMI};
    if (TY[t] == UNIX && n > 140) { outcome("skipped"); return; }
    std::vector<Dev> d{Dev(TY[t], longs(n)), Dev(UNIX, "z2", 1)}; S path = "/run/" + d[0].name; bool fits = TY[t] != UNIX || path.size() <= 107; Service *decoy = TY[t] == UNIX && path.size() > 107 ? unix_service("decoy", path.substr(0, 107)) : nullptr;
    boot(devs_conf(d)); if (TY[t] == IPMI) d[0].up(); expect_alive(); Client w; REQUIRE(w.open("CONNECT", {"z2"}), "z2"); d[1].take();
    w.type("in"); settle(); REQUIRE(d[1].take() == "in", "input of the other console"); d[1].send("out"); settle(); REQUIRE(w.fresh() == "out", "output of the other console");
    if (!fits) { REQUIRE(d[0].nconn() == 0 && (!decoy || decoy->conns.empty()), "a device whose name does not fit was opened under another name"); REQUIRE(has(D->err, "exceeds maximum device length"), "a device name that is too long is not reported"); Client q; q.user = "q"; REQUIRE(!q.open("CONNECT", {d[0].name}) && q.errcode() == 5, "the refused console exists (code %d)", q.errcode()); outcome("refused"); return; }
    REQUIRE(d[0].io(), "the console was not opened"); if (TY[t] == TELNET) d[0].neg(); Client a; a.user = "a"; a.tty = "t"; REQUIRE(a.open("MONITOR", {d[0].name}), "monitor: %s", esc(a.raw.substr(0, 60)).c_str()); a.fresh(); d[0].send("hello"); settle(); REQUIRE(a.fresh() == "hello", "output is lost");
    Client c; c.user = "c"; REQUIRE(c.open("CONNECT", {d[0].name}), "connect"); a.fresh(); c.fresh(); c.type("typed"); settle(); S g = d[0].take(); REQUIRE(g == "typed", "input arrives as \"%s\"", esc(g).c_str()); c.c->close(); settle(); a.fresh();
    S tgt = d[0].target(); if (TY[t] == SERIAL) { outcome("serial"); return; } S pid = TY[t] == PROCESS ? fmt(" (pid %d)", d[0].proc()->pid) : ""; d[0].drop(); settle(); g = a.fresh(); S e = PRE + "Console [" + d[0].name + "] disconnected from " + tgt + pid; if (TY[t] == PROCESS) REQUIRE(g.size() <= 1023 && g.compare(0, std::min(e.size(), (size_t)990), e.substr(0, 990)) == 0 && g.compare(g.size() - 2, 2, "\r\n") == 0 && (g.size() > 1020 || (g.compare(0, e.size(), e) == 0 && g[g.size() - 3] == '.')), "told of the loss: %s", firstdiff(g, e).c_str()); else REQUIRE(same_stream(g, e + ".\r\n"), "told of the loss: %s", firstdiff(g, e + ".\r\n").c_str());
    if (d[0].type == UNIX) d[0].svc->policy = [](Conn*) { return ECONNREFUSED; };
    Client b; b.user = "b"; REQUIRE(b.open("MONITOR", {d[0].name}), "second viewer"); S bg = b.fresh(); e = PRE + "Console [" + d[0].name + "] is currently disconnected from " + tgt + ".\r\n"; auto rec = records(bg); REQUIRE(!rec.empty() && same_rec(rec[0], e), "the new viewer is told: %s", firstdiff(bg, e).c_str());
    w.type("in"); settle(); REQUIRE(d[1].take() == "in", "input of the other console afterwards"); expect_alive(); outcome(fmt("%d %zu", t, n)); }
