#include "dev.h"
#include <fcntl.h>
static const int supp[] = {50,75,110,134,150,200,300,600,1200,1800,2400,4800,9600,19200,38400,57600,115200,230400,460800};
static const speed_t supb[] = {B50,B75,B110,B134,B150,B200,B300,B600,B1200,B1800,B2400,B4800,B9600,B19200,B38400,B57600,B115200,B230400,B460800};
struct Ser { int bps = 9600, db = 8, par = 0, sb = 1; };
static speed_t speed_of(int v) { speed_t r = 0; for (int i = 0; i < 19; i++) if (supp[i] <= v) r = supb[i]; return r; }
/* what the device is to be set to, given its earlier settings */
static void check_tio(InoP ino, const Ser &o, const struct termios &was, const char *what) {
    struct termios &t = ino->tio; static const tcflag_t cs[] = {CS5, CS6, CS7, CS8};
    REQUIRE(cfgetispeed(&t) == speed_of(o.bps) && cfgetospeed(&t) == speed_of(o.bps), "%s: the speed is not %d", what, o.bps);
    REQUIRE((t.c_cflag & CSIZE) == cs[o.db - 5], "%s: not %d data bits", what, o.db);
    REQUIRE(!(t.c_cflag & PARENB) == !o.par, "%s: parity is %s", what, o.par ? "off" : "on"); if (o.par) REQUIRE(!(t.c_cflag & PARODD) == (o.par == 2), "%s: wrong parity", what);
    REQUIRE(!(t.c_cflag & CSTOPB) == (o.sb == 1), "%s: not %d stop bit(s)", what, o.sb); REQUIRE(t.c_cflag & CLOCAL, "%s: modem lines are not ignored", what);
    REQUIRE(!(t.c_iflag & (BRKINT | ICRNL | INLCR | IGNCR | PARMRK | INPCK | ISTRIP | IXON)), "%s: input is processed by the terminal (c_iflag=%o)", what, t.c_iflag); REQUIRE(!(t.c_oflag & OPOST), "%s: output is processed by the terminal", what);
    REQUIRE(!(t.c_lflag & (ECHO | ICANON | IEXTEN | ISIG)), "%s: the terminal is not raw (c_lflag=%o)", what, t.c_lflag); REQUIRE(t.c_cc[VMIN] == 1 && t.c_cc[VTIME] == 0, "%s: read conditions", what);
    tcflag_t keep = CREAD | HUPCL | CRTSCTS; REQUIRE((t.c_cflag & keep) == (was.c_cflag & keep), "%s: unrelated settings changed", what);
}
static bool same_tio(const struct termios &a, const struct termios &b) { return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc); }
static void prior(InoP ino, int k) {
    struct termios &t = ino->tio; memset(&t, 0, sizeof t); t.c_cflag = CREAD | HUPCL;
    switch (k) {
    case 0: t.c_iflag = ICRNL | IXON | BRKINT; t.c_oflag = OPOST; t.c_cflag |= CS8; t.c_lflag = ECHO | ICANON | IEXTEN | ISIG; cfsetspeed(&t, B9600); t.c_cc[VMIN] = 4; break;
    case 1: t.c_iflag = INLCR | IGNCR | PARMRK | ISTRIP | INPCK; t.c_oflag = OPOST; t.c_cflag |= CS7 | PARENB | PARODD | CSTOPB | CRTSCTS; t.c_lflag = ICANON; cfsetspeed(&t, B38400); t.c_cc[VTIME] = 9; break;
    case 2: t.c_cflag |= CS5 | PARENB | CLOCAL; t.c_lflag = ECHO; cfsetspeed(&t, B115200); t.c_cc[VMIN] = 0; break;
    case 3: t.c_cflag |= CS8 | CLOCAL; cfsetspeed(&t, B50); t.c_cc[VMIN] = 1; break; }
}
static S ser_str(const Ser &o, int form, bool up) { S s = fmt("%d", o.bps); if (form >= 1) s += fmt(",%d", o.db); if (form >= 2) s += up ? "NOE"[o.par] : "noe"[o.par]; if (form >= 3) s += fmt("%d", o.sb); return s; }
static Ser pick_ser(int &form) {
    Ser o; form = pick(4, "form"); if (form == 0) { int k = pick(19 * 3, "bps"); int i = k / 3, near = k % 3; o.bps = near == 0 ? supp[i] : near == 1 ? supp[i] + 1 : (i < 18 ? supp[i + 1] - 1 : 460800); } else { static const int b[] = {9600, 115200, 57601, 50}; o.bps = b[pick(4, "bps")]; }
    if (form >= 1) o.db = 5 + pick(4, "databits"); if (form >= 2) o.par = pick(3, "parity"); if (form >= 3) o.sb = 1 + pick(2, "stopbits"); return o;
}
SCENARIO(ser_opts, "C12", 0,0,0, 0,0,0, "every option string (all speeds and their neighbours, data bits, parity, stop bits, partial forms) given globally, on the console or both, over different earlier terminal settings: exact resulting settings, restored on shutdown") {
    Dev d(SERIAL, "s0"); InoP ino = get_ino("/dev/ttys0"); int where = pick(4, "where"); Ser o; int form = -1; S tail; if (where) { o = pick_ser(form); bool up = form >= 2 && pick(2, "case"); S q = "seropts=\"" + ser_str(o, form, up) + "\""; if (where == 1) d.opts = q; else if (where == 2) tail = "global " + q + "\n"; else { d.opts = q; tail = "global seropts=\"300,7e2\"\n"; if (form < 1) o.db = 7; if (form < 2) o.par = 2; if (form < 3) o.sb = 2; } }
    int pk = form == 3 || form == 0 ? pick(4, "earlier") : pick(2, "earlier"); prior(ino, pk); struct termios was = ino->tio; std::vector<Dev> v{d};
    boot(devs_conf(v, tail)); expect_alive(); REQUIRE(ino->tty_opens == 1, "the device was opened %d times", ino->tty_opens); check_tio(ino, o, was, "after startup"); REQUIRE(ino->locks.size() == 1 && ino->locks.begin()->second == F_WRLCK, "the device is not locked");
    raise_sig(D, pick(2, "sig") ? SIGINT : SIGTERM); settle(); REQUIRE(D->exited && D->code == 0, "no orderly end"); REQUIRE(same_tio(ino->tio, was), "the terminal settings are not restored on shutdown"); outcome(ser_str(o, 3, false));
}
SCENARIO(ser_bad, "C12", 0,0,0, 0,0,0, "invalid option strings globally or per console are reported with their line and the device is left alone") {
    static const char *bad[] = {"", "0", "-1", "49", "9600,4", "9600,9", "9600,-5", "9600,8x", "9600,8x1", "9600,8n0", "9600,8n3", "9600,8n-1", "fast", "n81", ",8n1"}; S b = bad[pick(15, "bad")]; int where = pick(2, "where"); Dev d(SERIAL, "s0"); InoP ino = get_ino("/dev/ttys0"); prior(ino, 0); struct termios was = ino->tio; S q = "seropts=\"" + b + "\""; if (where) d.opts = q;
    std::vector<Dev> v{d, Dev(UNIX, "c1", 1)}; boot(devs_conf(v, where ? "" : "global " + q + "\n")); S e = D->err + D->out; REQUIRE(has(e, "CONFIG[/etc/conman.conf:4]"), "an invalid serial option string \"%s\" is not reported: %s", b.c_str(), esc(e).c_str());
    if (where) { REQUIRE(D->exited || ino->tty_opens == 0, "the console was opened with other settings than requested"); REQUIRE(same_tio(ino->tio, was), "the device was changed"); } outcome(b + (D->exited ? " fatal" : " ignored"));
}
/* ---- life of a serial console ---- */
/* leaves out informational messages that do not tell about the device (people coming and going, logs being opened) */
static S dev_only(const S &s) { const S pre = "\r\n<ConMan> "; S o; size_t i = 0; while (i < s.size()) { if (s.compare(i, pre.size(), pre) == 0) { size_t e = s.find("\r\n", i + pre.size()); if (e != S::npos) { S m = s.substr(i, e + 2 - i); if (has(m, "] connected to \"") || has(m, "] disconnected from \"") || has(m, "is currently disconnected")) o += m; i = e + 2; continue; } } o += s[i++]; } return o; }
static void life(bool tc, int depth) {
    std::vector<Dev> d{Dev(SERIAL, "s0"), Dev(SERIAL, "s1", 1), Dev(UNIX, "c2", 2)}; for (auto &x : d) x.log = x.name + ".log"; d[0].opts = "seropts=\"19200,7o2\""; Ser o; o.bps = 19200; o.db = 7; o.par = 1; o.sb = 2;
    const S path = "/dev/ttys0"; InoP ino = get_ino(path); int err = 0, cond = pick(5, "at startup"), pk = pick(2, "earlier settings"); prior(ino, pk); prior(get_ino("/dev/ttys1"), 0); struct termios was = ino->tio, was1 = get_ino("/dev/ttys1")->tio; W->open_hook = [&](const S &p, int) { return p == path ? err : 0; };
    auto obstruct = [&](int k) { cond = k; err = k == 1 ? ENXIO : k == 2 ? EACCES : 0; ino->locks.erase(4242); if (k >= 3) ino->locks[4242] = k == 3 ? F_WRLCK : F_RDLCK; };
    obstruct(cond); boot(devs_conf(d)); expect_alive(); bool up = cond == 0, have_v = false; const S cm = "\r\n<ConMan> Console [s0] connected to \"/dev/ttys0\".\r\n", dm = "\r\n<ConMan> Console [s0] disconnected from \"/dev/ttys0\".\r\n", nm = "\r\n<ConMan> Console [s0] is currently disconnected from \"/dev/ttys0\".\r\n";
    S lf = up ? cm : "", told; Client v, b1, b2; bool can_write = false; REQUIRE(b1.open("MONITOR", {"s1"}, "QUIET"), "m"); REQUIRE(b2.open("CONNECT", {"c2"}, "QUIET"), "m"); int base = D->nfds() - up;
    auto state = [&](const char *w) {
        expect_alive(); if (have_v) { S g = dev_only(v.fresh()); REQUIRE(g == told, "%s: the viewer got %s", w, firstdiff(g, told).c_str()); REQUIRE(!v.closed(), "%s: the viewer was disconnected", w); } told.clear();
        if (up) { check_tio(ino, o, was, w); auto it = ino->locks.find(D->pid); REQUIRE(it != ino->locks.end() && it->second == F_WRLCK, "%s: the device is not locked", w); }
        else { REQUIRE(!ino->locks.count(D->pid), "%s: a device that is not in use is locked", w); REQUIRE(same_tio(ino->tio, was), "%s: the settings of a device that is not in use are not what they were", w); }
        S l = dev_only(file_data("/var/log/s0.log")); REQUIRE(l == lf, "%s: the log holds %s", w, firstdiff(l, lf).c_str());
        d[1].send("x"); d[2].send("y"); b2.type("z"); settle(); REQUIRE(b1.fresh() == "x" && b2.fresh() == "y", "%s: another console is disturbed", w); S g = d[2].take(); REQUIRE(g == "z", "%s: input of another console", w);
        int n = D->nfds(), want = base + up + have_v; REQUIRE(n == want, "%s: %d descriptors open instead of %d", w, n, want); };
    state("at startup");
    auto say = [&](const S &m) { lf += m; told += m; };
    auto reopened = [&] { if (cond == 0) { up = true; say(cm); } };
    auto fresh_dev = [&](int k) { vfs_unlink(path); d[0].tty = put_tty(path); ino = get_ino(path); prior(ino, k); was = ino->tio; };
    for (int i = 0; i < depth; i++) {
        if (up) switch (pick(6, "event")) {
        case 0: { S x = "output" + S("\0\xff\r\n\x7f", 5); d[0].tty->send(x); settle(); say(x); if (can_write) { v.type(x); settle(); S g = d[0].take(); REQUIRE(g == x, "the device received \"%s\"", esc(g).c_str()); v.escape("B"); settle(); REQUIRE(ino->breaks == 1, "%d serial breaks", ino->breaks); ino->breaks = 0; } state("data"); break; }
        case 1: { Conn *old = d[0].tty; if (pick(2, "last words")) { old->send("last words"); say("last words"); settle(); } int nk = pick(3, "replaced by"); say(dm); up = false; fresh_dev(1 - pk); obstruct(nk == 0 ? 0 : nk == 1 ? 1 : 3); old->to->wclosed = true; reopened(); settle(); state("unplugging"); break; }
        case 2: case 3: { bool wr = i % 2; (void)wr; int op = pick(2, "write"); if (pick(2, "cannot be reopened")) obstruct(2); for (auto &f : D->fds) if (f && f->type == F_TTY && f->path == path) (op ? f->werr : f->rerr) = EIO; say(dm); up = false; reopened();
            if (!op) { d[0].tty->send("garbled"); settle(); } else if (can_write) { v.type("typed"); settle(); } else { Client w; w.user = "w"; REQUIRE(w.open("CONNECT", {"s0"}, "QUIET"), "cannot connect: %s", esc(w.raw).c_str()); w.type("typed"); settle(); w.c->close(); settle(); } d[0].tty->to->q.clear(); state(op ? "a write error" : "a read error"); break; }
        case 4: raise_sig(D, SIGHUP); settle(); state("reconfiguration"); break;
        case 5: obstruct(pick(4, "obstacle") + 1); advance(120); state("an obstacle while open"); obstruct(0); break;
        } else switch (pick(3, "event")) {
        case 0: obstruct(pick(5, "obstacle")); advance(120); state("while down"); break;
        case 1: { int how = pick(3, "command"); static const char *cmd[] = {"MONITOR", "CONNECT", "QUERY"}; Client t; Client &c = have_v ? t : v; c.user = "v"; if (how == 2) { Client q; q.begin("QUERY", {"s0"}); settle(); q.pump(); REQUIRE(q.ok(), "query"); state("a query"); break; }
            if (how == 1 && can_write) how = 0; REQUIRE(c.open(cmd[how], {"s0"}), "a console that is down cannot be attached to: %s", esc(c.raw).c_str()); if (have_v) { reopened(); } else if (cond == 0) { up = true; lf += cm; }
            S e = nm + (up ? cm : ""), g = dev_only(c.fresh()); REQUIRE(g == e, "the attaching client is told %s", firstdiff(g, e).c_str()); if (have_v) { c.c->close(); settle(); } else { have_v = true; can_write = how == 1; } state("attaching"); break; }
        case 2: raise_sig(D, SIGHUP); settle(); state("reconfiguration while down"); break;
        }
    }
    bool hadup = up; raise_sig(D, SIGTERM); settle(); REQUIRE(D->exited && D->code == 0, "no orderly end"); REQUIRE(same_tio(ino->tio, was), "the terminal settings are not restored on shutdown%s", hadup ? "" : " (console down)"); REQUIRE(same_tio(get_ino("/dev/ttys1")->tio, was1), "another device's settings are not restored"); (void)tc; outcome(fmt("cond%d up%d", cond, hadup));
}
SCENARIO(ser_life, "C12", 0,0,0, 0,0,0, "all sequences of data, unplugging (with a replacement, without, with one in use by others), read and write errors, changing obstacles, attaching clients, queries and reconfigurations: settings, locks, notices, log, descriptors, other consoles") { life(false, g_thorough ? 5 : 3); }
/* Terminal attribute calls failing at any point: only that console is affected. */
SCENARIO(ser_attr, "C12", 0,1,0, 0,2,0, "the device vanishing between any two terminal calls while it is opened, reopened or shut down: only this console is down, and it can be brought back") {
    std::vector<Dev> d{Dev(SERIAL, "s0"), Dev(UNIX, "c1", 1)}; W->tc_fault = true; boot(devs_conf(d)); expect_alive(); int ev = pick(3, "event"); int gone = 0; W->open_hook = [&](const S &p, int) { return p == "/dev/ttys0" ? gone : 0; }; if (ev == 1) { gone = ENXIO; d[0].drop(); settle(); } if (ev == 2) { for (auto &f : D->fds) if (f && f->type == F_TTY) f->rerr = EIO; d[0].tty->send("x"); settle(); d[0].tty->to->q.clear(); } expect_alive(); W->tc_fault = false; if (ev == 1) { gone = 0; d[0].tty = put_tty("/dev/ttys0"); }
    Client b; REQUIRE(b.open("CONNECT", {"c1"}, "QUIET"), "the other console cannot be used"); d[1].send("x"); settle(); REQUIRE(b.fresh() == "x", "the other console is disturbed"); Client a; REQUIRE(a.open("CONNECT", {"s0"}, "QUIET"), "cannot attach"); a.fresh(); d[0].tty->send("hello"); a.type("hi"); settle(); REQUIRE(a.fresh() == "hello", "the console does not come back"); S g = d[0].take(); REQUIRE(g == "hi", "no input after recovery"); W->tc_fault = true; raise_sig(D, SIGTERM); settle(); REQUIRE(D->exited && D->code == 0, "no orderly end: %s", esc(D->err.substr(D->err.size() > 200 ? D->err.size() - 200 : 0)).c_str());  outcome(fmt("ev%d opens%d", ev, get_ino("/dev/ttys0")->tty_opens));
}
