#include "cli.h"
/* What the client program makes of keystrokes and of the server's data. */
struct Keys {                                   /* the reference */
    bool conn, bc, reset, quiet = false, echo = false, esc = false; unsigned char E; int n; S net; std::vector<S> disp; bool left = false;
    void data(unsigned char c) { if (!conn) return; net += (char)c; if (c == 0xFF) net += (char)c; }
    void cmd(char c) { net += '\xff'; net += c; }
    void key(unsigned char c) {
        if (!esc) { if (c == E) esc = true; else data(c); return; }
        esc = false;
        switch (c) {
        case 'B': case 'D': if (conn) cmd(c); return; case 'E': if (conn) echo = !echo; return; case 'F': case 'J': if (!conn) { conn = true; cmd(c); } return;
        case '?': disp.push_back("help " + help()); return; case 'I': disp.push_back("info"); return; case 'L': if (!bc) cmd(c); return; case 'M': if (conn && !bc) { conn = false; cmd(c); } return;
        case 'Q': quiet = !quiet; cmd(c); return; case 'R': if (conn && reset) cmd(c); return; case '.': left = true; return; }
        if (c == E) data(E); else { data(E); data(c); } }
    S help() const { S h = "?."; h += (char)E; if (conn) h += "BDE"; if (!conn) h += "FJ"; h += "I"; if (!bc) h += "L"; if (conn && !bc) h += "M"; h += "Q"; if (conn && reset) h += "R"; h += "Z"; std::sort(h.begin(), h.end()); return h; }
};
/* Which escapes a help message lists. */
static S listed(const S &s, char E) { S h; size_t i = 0; S mark = fmt("  %2s", S(1, E).c_str()); while ((i = s.find("\r\n" + mark, i)) != S::npos) { i += 2; h += s[i + mark.size()]; } std::sort(h.begin(), h.end()); return h; }
struct Relay { Cli c; Keys k; int kind; S name = "c1";
    void start(int kd, unsigned char E = '&', std::vector<S> extra = {}) { kind = kd; c.term(); c.server(); static const char *RSP[] = {"OK CONSOLE='c1'", "OK OPTION=RESET CONSOLE='c1'", "OK CONSOLE='c1'", "OK OPTION=RESET CONSOLE='c1' CONSOLE='c2'", "OK CONSOLE='c1'", "OK CONSOLE='c1' OPTION=RESET"};
        k.conn = kd != 2 && kd != 5; k.bc = kd == 3; k.reset = kd == 1 || kd == 3 || kd == 5; k.n = kd == 3 ? 2 : 1; k.E = E;
        std::vector<S> a = extra; if (kd == 2 || kd == 5) a.push_back("-m"); if (kd == 3 || kd == 4) a.push_back("-b"); a.push_back(kd == 3 ? "c1,c2" : "c1"); c.run(a); c.handshake(RSP[kd]); REQUIRE(!c.p->exited, "the session did not start: %s", c.p->err.c_str()); REQUIRE(is_raw(c.ino->tio), "the terminal is not raw"); S o = c.show(); REQUIRE(o == cstat(k.n, name, "opened"), "on opening, the client shows \"%s\"", esc(o).c_str()); REQUIRE(c.s()->take().empty(), "the client sends data unasked"); }
    void press(const S &keys, bool oneby) { if (oneby) for (char x : keys) { k.key(x); c.tty->send(S(1, x)); settle(); } else { for (char x : keys) k.key(x); c.tty->send(keys); settle(); } }
    S net;
    void verify() { net += c.s()->take(); REQUIRE(net == k.net, "the client sent \"%s\" instead of \"%s\"", esc(net).c_str(), esc(k.net).c_str()); if (!c.p->exited) REQUIRE(!!(c.ino->tio.c_lflag & ECHO) == k.echo, "local echo is %s", k.echo ? "off" : "on"); }
    void display(const S &o0, const S &mid = "") { S o = o0; for (auto &d : k.disp) { if (d == "info") { S w = k.n == 1 ? "to console [c1] on <localhost:7890>" : "Broadcasting to 2 consoles on <localhost:7890>"; size_t i = o.find("<ConMan> "); REQUIRE(i != S::npos && has(o, w), "the connection information shown is \"%s\"", esc(o).c_str()); } else { S h = listed(o, k.E); REQUIRE(h == d.substr(5), "the help message lists \"%s\" instead of \"%s\"", esc(h).c_str(), esc(d.substr(5)).c_str()); } } if (k.disp.empty()) REQUIRE(o == mid, "the client displayed \"%s\" instead of \"%s\"", esc(o).c_str(), esc(mid).c_str()); k.disp.clear(); }
    void leave(int how) { if (how == 0) { c.tty->send(S(1, k.E) + "."); settle(); S o = c.show(); REQUIRE(has(o, cstat(k.n, name, "closed")), "on leaving, the client shows \"%s\"", esc(o).c_str()); REQUIRE(c.s()->app->tx->wclosed, "the client does not end its sending direction"); c.s()->send("last words"); settle(); o = c.show(); REQUIRE(o == "last words", "output sent while leaving is shown as \"%s\"", esc(o).c_str()); c.s()->close(); settle(); o = c.show(); REQUIRE(o.empty(), "after leaving, the client shows \"%s\"", esc(o).c_str()); }
        else { c.s()->send("last words"); c.s()->close(); settle(); S o = c.show(); REQUIRE(o == "last words" + cstat(k.n, name, "terminated by server"), "at the end of the session, the client shows \"%s\"", esc(o).c_str()); }
        REQUIRE(c.p->exited && c.p->code == 0 && !c.p->killed_by, "the client ends with status %d, signal %d: %s", c.p->code, c.p->killed_by, c.p->err.c_str()); REQUIRE(c.restored(), "the terminal is not restored"); REQUIRE(c.p->err.empty(), "the client complains: %s", c.p->err.c_str()); }
};
static const std::vector<S> UNIT = {"a", "\r", "\xff", S(1, 0), "&&", "&x", "&\xff", "&B", "&D", "&E", "&F", "&I", "&J", "&L", "&M", "&Q", "&R", "&?", "&", "."};
static void units(int len) { Relay r; int kd = pick(6, "kind"), ob = pick(2, "split"); S keys; for (int i = 0; i < len; i++) { int u = pick(UNIT.size(), "keys"); if (!u && i + 1 < len && false) break; keys += UNIT[u]; } if (kd > 3 && ob) return; r.start(kd); S all; if (r.k.E) r.press(keys, ob); if (r.k.left) { outcome("left"); return; } S o = r.c.show(); bool single = r.k.disp.size() <= 1; if (single) r.display(o); else r.k.disp.clear(); r.verify(); if (r.k.esc) { r.press("&", true); r.verify(); } S sent = "out" + S("\0\xff\x80&.", 5); r.c.s()->send(sent); settle(); o = r.c.show(); REQUIRE(o == sent, "the server's \"%s\" is shown as \"%s\"", esc(sent).c_str(), esc(o).c_str()); r.verify(); r.leave(pick(2, "end")); outcome(fmt("%d %d %d%d", kd, (int)r.k.net.size(), r.k.conn, r.k.quiet)); }
SCENARIO(keys_units, "C23", 0,0,0, 0,0,0, "every sequence of 3 (thorough 4) keystroke units from 20 (text, CR, NUL, 0xFF, every escape, incomplete escapes) in 6 session kinds, typed at once or key by key: bytes sent, escapes performed, help shown, local echo, then both ways of ending") { units(g_thorough ? 4 : 3); }
SCENARIO(keys_raw, "C23", 0,0,0, 0,0,0, "every sequence of 5 (thorough 6) single keystrokes over {text, escape, 0xFF, M, J, Q, B} in three session kinds") { static const char K[] = "a&\xff""MJQB"; Relay r; int kd = pick(3, "kind"); S keys; for (int i = 0; i < (g_thorough ? 6 : 5); i++) keys += K[pick(7, "key")]; r.start(kd == 2 ? 3 : kd == 1 ? 2 : 0); r.press(keys, false); r.display(r.c.show()); r.verify(); outcome(r.net); }
SCENARIO(keys_escchar, "C23", 0,0,0, 0,0,0, "18 escape characters (control, punctuation, letters, high and 0xFF bytes) given by option or environment: every 2-key combination after and around the escape; the default escape is then plain text") {
    static const unsigned char EC[] = {'&', '~', ']', 0x1d, 1, '\r', '\n', 0x1b, 0x7f, ' ', 'a', 'z', '0', '%', 0x80, 0xc3, 0xe9, 0xff}; unsigned char E = EC[pick(18, "escape")]; int env = pick(2, "given by"); std::vector<S> x; if (env) setenv("CONMAN_ESCAPE", (S(1, E) + "zz").c_str(), 1); else x = {"-e", S(1, E)};
    Relay r; r.start(pick(2, "kind") ? 2 : 1, E, x); static const S A = S("&E\xffM?.x\r", 8); auto sym = [&](int i) { return A[i] == 'E' ? (char)E : A[i]; }; S keys; keys += sym(pick(8, "k")); keys += sym(pick(8, "k")); keys += sym(pick(8, "k")); unsetenv("CONMAN_ESCAPE");
    for (char ch : keys) { r.k.key(ch); if (r.k.left) return; r.c.tty->send(S(1, ch)); } settle(); r.c.show(); r.verify(); if (r.k.esc) { r.press(S(1, E), true); r.verify(); } r.k.disp.clear(); if (E != '?' && E != '.') r.leave(0); outcome(fmt("%02x %s", E, esc(r.net).c_str())); }
SCENARIO(relay_output, "C23", 0,2,0, 0,3,0, "output of 9 sizes around the buffer size, every byte value, with and without a log file, under short reads: terminal and log get exactly those bytes") {
    static const int SZ[] = {0, 1, 255, 256, 1023, 1024, 1025, 2048, 9000}; Relay r; int a = pick(9, "first"), b = pick(9, "second"), lg = pick(2, "log"), kd = pick(3, "kind"); mk_dir("/tmp"); if (lg && pick(2, "old log")) put_file("/tmp/l", "before\n"); S old = lg && get_ino("/tmp/l") ? file_data("/tmp/l") : "";
    std::vector<S> x; if (lg) x = {"-l", "/tmp/l"}; r.start(kd, '&', x); r.c.s()->app->fault = FX_SHORTR; S p1, p2; for (int i = 0; i < SZ[a]; i++) p1 += (char)(i * 7 + i / 256); for (int i = 0; i < SZ[b]; i++) p2 += (char)(255 - i); r.c.s()->send(p1); settle(); r.press("k", true); r.c.s()->send(p2); settle(); S o = r.c.show(); REQUIRE(o == p1 + p2, "the output is shown differently: %s", firstdiff(p1 + p2, o).c_str()); r.verify(); r.c.s()->app->fault = 0; r.leave(1);
    if (lg) { S f = file_data("/tmp/l"), w = old + "\r\n<ConMan> Log started at " LOGDATE ".\r\n" + p1 + p2 + "last words" + "\r\n<ConMan> Log finished at " LOGDATE ".\r\n"; REQUIRE(f == w, "the session log holds \"%s\" instead of \"%s\"", esc(f).c_str(), esc(w).c_str()); } outcome(fmt("%d %d %d", a, b, lg)); }
SCENARIO(relay_stall, "C23", 0,0,1, 0,0,2, "the terminal or the server stops taking data at any point and continues later, with keystrokes and output under way: nothing is lost, duplicated or reordered") {
    Relay r; int kd = pick(2, "kind") ? 3 : 0, w1 = pick(4, "terminal window"), w2 = pick(4, "server window"); static const size_t WN[] = {1 << 20, 0, 1, 700}; r.start(kd); r.c.tty->window(WN[w1]); r.c.s()->window(WN[w2]); S p1 = pattern(1500, 4), keys = "ab&&\xff&Bcd&x";
    async_event("resume", [&]{ r.c.tty->window(1 << 20); r.c.s()->window(1 << 20); }); r.c.s()->send(p1); S got; for (char x : keys) { r.k.key(x); r.c.tty->send(S(1, x)); settle(); got += r.c.show(); } flush_async(); settle(); got += r.c.show(); r.c.s()->send("end"); settle(); got += r.c.show(); REQUIRE(got == p1 + "end", "shown differently: %s", firstdiff(p1 + "end", got).c_str()); r.verify(); r.leave(pick(2, "end")); outcome(fmt("%d %d", w1, w2)); }
/* End to end: the real client against the real daemon and a console. */
SCENARIO(relay_daemon, "C23", 0,0,0, 0,0,0, "the real client talks to the real daemon: 12 keystroke units in sequences of 2 (thorough 3) in read-write, read-only and broadcast sessions reach the console (or not) as the escapes imply; output reaches the terminal and a second client") {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; W->hosts["localhost"] = "127.0.0.1"; boot(devs_conf(d)); expect_alive(); Client v; REQUIRE(v.open("MONITOR", {"c1"}), "m"); v.fresh(); Cli c; c.term(); int kd = pick(3, "kind"); c.run(kd == 0 ? std::vector<S>{"c1"} : kd == 1 ? std::vector<S>{"-m", "c1"} : std::vector<S>{"-b", "c1", "c2"}); settle(); REQUIRE(!c.p->exited, "the client ends: %s%s", c.p->err.c_str(), c.p->out.c_str()); c.show();
    static const S U[] = {"a", "\xff", "&&", "&x", "&F", "&J", "&M", "&Q", "&I", "&?", "&E", "\r"}; bool w = kd != 1, bc = kd == 2; S want; for (int i = 0; i < (g_thorough ? 3 : 2); i++) { S u = U[pick(12, "keys")]; if (u == "&F" || u == "&J") w = true; else if (u == "&M") { if (!bc) w = false; } else if (u == "&&") { if (w) want += "&"; } else if (u == "&x" || u[0] != '&') { if (w) want += u; } c.tty->send(u); settle(); }
    S g1 = d[0].take(), g2 = d[1].take(); REQUIRE(g1 == want && g2 == (bc ? want : ""), "typing made the consoles receive \"%s\" and \"%s\" instead of \"%s\"", esc(g1).c_str(), esc(g2).c_str(), esc(want).c_str()); c.show(); v.fresh(); S out = "x\xff\xff\r\ny"; d[0].send(out); settle(); S o = c.show(), o2 = v.fresh(); REQUIRE(o == (bc ? "" : out), "console output is shown as \"%s\"", esc(o).c_str()); REQUIRE(o2 == out, "the other client received \"%s\"", esc(o2).c_str());
    c.tty->send("&."); settle(); REQUIRE(c.p->exited && c.p->code == 0 && c.restored(), "leaving: exited %d code %d restored %d: %s", c.p->exited, c.p->code, c.restored(), c.p->err.c_str()); expect_alive(); Client n; REQUIRE(n.open("CONNECT", {"c1"}), "the console is not free afterwards"); outcome(want); }
