/* C28: IPMI consoles. */
#include "dev.h"
#include <ipmiconsole.h>
struct Im { Dev *d; int st = 0; double delay = 60, next = -1, up = -1, due = -1; size_t n = 0;   /* st: 0 down, 1 in progress, 2 connected */
    void fail(double t) { st = 0; next = t + delay; delay = std::min(delay * 2, 1800.0); }
    void attempt(double t, bool sub) { n++; next = -1; if (sub) { st = 1; due = t + 300; } else fail(t); }
    void conn(double t) { st = 2; up = t; }
    void lost(double t) { if (t - up >= 60 - 1e-6) delay = 60; st = 0; } };
static S conn_m(Dev &d) { return "\r\n<ConMan> Console [" + d.name + "] connected to " + d.target() + ".\r\n"; }
static S disc_m(Dev &d) { return "\r\n<ConMan> Console [" + d.name + "] disconnected from " + d.target() + ".\r\n"; }
static S cur_m(Dev &d) { return "\r\n<ConMan> Console [" + d.name + "] is currently disconnected from " + d.target() + ".\r\n"; }
static int undestroyed(const S &h) { int n = 0; for (auto c : ipmi_ctxs) if (c->host == h && !c->destroyed) n++; return n; }
static void same_credentials(Dev &d) { for (auto c : ipmi_ctxs) if (c->host == "bmc" + d.name) REQUIRE(c->user == "root" && c->pass == "secret" && c->kg == S("\x01\x00\xff", 3) && c->priv == IPMICONSOLE_PRIVILEGE_OPERATOR && c->cipher == 3 && c->flags == (IPMICONSOLE_WORKAROUND_INTEL_2_0_SESSION | IPMICONSOLE_WORKAROUND_IGNORE_SOL_PORT), "a session is opened with credentials or options that are not the configured ones"); }
#define OPTS "ipmiopts=\"U:root,P:secret,K:0x0100ff,L:op,C:3,W:intel20,W:solport\""
SCENARIO(ipmi_ops, "C28", 0,0,0, 0,0,0, "all sequences of established, failing, timing out, refused and lost sessions, holding times and attaching clients on an IPMI console: exact times of the attempts, notices, credentials, descriptors, sessions, relayed bytes") {
    std::vector<Dev> d{Dev(IPMI, "c1"), Dev(IPMI, "ok", 1), Dev(UNIX, "u1", 2)}; d[0].opts = OPTS; d[0].log = "c1.log"; d[0].opts += " logopts=\"sanitize\""; d[1].log = "ok.log"; Im m{&d[0]};
    boot(devs_conf(d)); expect_alive(); ipmi_complete(d[1].ctx(), true, 0); settle(); Client w, o; o.user = "o"; REQUIRE(o.open("CONNECT", {"ok"}), "connect"); o.fresh(); m.attempt(0, true); int base = D->nfds(); REQUIRE(w.open("MONITOR", {"c1"}), "monitor of a console being connected"); S exp = cur_m(d[0]), got; int att = 1;
    auto check = [&](const char *what) { expect_alive(); got += w.fresh(); REQUIRE(d[0].nconn() == (int)m.n, "%s: %d session attempts instead of %zu", what, d[0].nconn(), m.n); REQUIRE(got == exp, "%s: the viewer was told %s", what, firstdiff(got, exp).c_str()); REQUIRE(!w.closed(), "%s: the viewer was disconnected", what); REQUIRE(undestroyed("bmcc1") == 1, "%s: %d session contexts are kept", what, undestroyed("bmcc1")); REQUIRE(D->nfds() == base + att + (m.st == 2), "%s: %d descriptors open instead of %d", what, D->nfds(), base + att + (m.st == 2)); REQUIRE(d[1].nconn() == 1 && !d[1].io()->app_closed(), "%s: another console was disturbed", what); same_credentials(d[0]); };
    auto at_attempt = [&](double t, bool sub) { m.attempt(t, sub); }; check("startup");
    for (int i = 0, n = g_thorough ? 6 : 5; i < n; i++) {
        if (m.st == 2) {
            static const double tt[] = {0, 59.9, 60.1}; double u = tt[pick(3, "up time")]; if (u > 0 && u > tnow() - m.up) advance(u - (tnow() - m.up)); check("while connected"); d[0].send(S("ou\0t\xff", 5)); settle(); exp += S("ou\0t\xff", 5); check("output");
            d[1].send("z"); settle(); REQUIRE(o.fresh() == "z", "output of another console"); o.type("q"); settle(); REQUIRE(d[1].take() == "q", "input of another console");
            int how = pick(2, "reset"), sub = 1 - pick(2, "refused"); ipmi_submit_fails = !sub; double t = tnow(); if (how) d[0].io()->reset(); else d[0].io()->close(); settle(); exp += disc_m(d[0]); m.lost(t); at_attempt(t, sub); check("after the session was lost");
        } else if (m.st == 1) {
            switch (pick(5, "outcome")) {
            case 0: { static const double tt[] = {0, 299}; double u = tt[pick(2, "duration")]; if (u > 0) { advance(m.due - 300 + u - tnow()); check("while connecting"); } double t = tnow(); ipmi_complete(d[0].ctx(), true, 0); settle(); m.conn(t); exp += conn_m(d[0]); check("a session was established"); break; }
            case 1: { double t = tnow(); ipmi_complete(d[0].ctx(), false, 1 + pick(2, "cause")); settle(); m.fail(t); check("a session failed"); break; }
            case 2: { double t = m.due; advance(t - tnow() - 0.1); check("before the time limit"); advance(t - tnow() + 0.05); m.fail(t); check("at the time limit"); break; }
            case 3: { if (m.due - tnow() > 100) advance(99); check("waiting"); break; }
            case 4: { Client c; REQUIRE(c.open(pick(2, "read only") ? "MONITOR" : "CONNECT", {"c1"}), "attach: %s", esc(c.raw).c_str()); S g = c.fresh(); REQUIRE(g == cur_m(d[0]), "the newly attached viewer was told %s", firstdiff(g, cur_m(d[0])).c_str()); c.c->close(); settle(); got += w.fresh(); if (got != exp) { S x = got.substr(exp.size()); REQUIRE(has(x, "joined by") && has(x, "departed by") && count_sub(x, "<ConMan>") == 2, "unexpected notices: %s", esc(x).c_str()); exp = got; } check("somebody attaching while connecting"); break; }
            }
        } else {
            int k = pick(3, "next"), sub = 1 - pick(2, "refused"); ipmi_submit_fails = !sub;
            if (k == 2) { advance(0.5); if (tnow() >= m.next) { m.attempt(m.next, sub); check("attempt"); continue; } double t = tnow(); Client c; REQUIRE(c.open("MONITOR", {"c1"}), "monitor"); at_attempt(t, sub); S g = c.fresh(); REQUIRE(g == cur_m(d[0]), "the newly attached viewer was told %s", firstdiff(g, cur_m(d[0])).c_str()); att = 2; check("somebody attaching"); att = 1; c.c->close(); settle(); check("leaving"); continue; }
            double at = m.next; if (k == 1 && at - tnow() > 0.2) { advance(at - tnow() - 0.1); check("before the next attempt is due"); } advance(at - tnow() + 0.05); at_attempt(at, sub); check("when the next attempt was due");
        }
    }
    outcome(fmt("st=%d n=%zu", m.st, m.n));
    ipmi_submit_fails = false; /* whatever happened, a BMC that answers is connected and relayed */
    if (m.st == 0) { advance(m.next - tnow() + 0.05); m.attempt(m.next, true); check("the last attempt"); } if (m.st == 1) { ipmi_complete(d[0].ctx(), true, 0); settle(); m.conn(tnow()); exp += conn_m(d[0]); check("established at last"); }
    Client a; a.user = "a"; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "connect"); a.type("in\xff!"); d[0].send("bye"); settle(); S in = d[0].take(); REQUIRE(has(in, "in\xff!"), "input delivered as \"%s\"", esc(in).c_str()); REQUIRE(has(a.fresh(), "bye"), "no output"); int br = d[0].ctx()->breaks; a.escape("B"); settle(); REQUIRE(d[0].ctx()->breaks == br + 1 && d[0].take() == "", "a break is not generated on the session"); 
}
SCENARIO(ipmi_long, "C28", 0,0,0, 0,0,0, "outages of any length with the BMC refusing, failing or never answering: the interval doubles from one to thirty minutes and never further, recovery always works") {
    int fails = pick(10, "failed attempts"), how = pick(3, "failure"); std::vector<Dev> d{Dev(IPMI, "c1")}; d[0].log = "c1.log"; ipmi_submit_fails = how == 0 && fails; boot(devs_conf(d)); double dl = 60, t = 0; int n = 1;
    for (int i = 0; i < fails; i++) { REQUIRE(d[0].nconn() == n, "%d attempts instead of %d", d[0].nconn(), n); if (how == 1) { ipmi_complete(d[0].ctx(), false, 7); settle(); } if (how == 2) { advance(t + 300 - tnow() + 0.001); t += 300; } if (i == fails - 1) ipmi_submit_fails = false; advance(t + dl - tnow() - 0.05); REQUIRE(d[0].nconn() == n, "attempt %d came before its delay of %.0f s", n, dl); advance(0.1); n++; REQUIRE(d[0].nconn() == n, "attempt %d did not come after %.0f s", n, dl); t += dl; dl = std::min(dl * 2, 1800.0); }
    ipmi_complete(d[0].ctx(), true, 0); settle(); REQUIRE(d[0].io(), "not connected although the BMC answers"); d[0].send("hello"); settle(); advance(pick(2, "up time") ? 61 : 1); S log = get_ino("/var/log/c1.log")->data; REQUIRE(has(log, "connected to <bmcc1>.\r\nhello"), "log is %s", esc(log).c_str()); double up = tnow(); bool reset = up - t > 60; d[0].drop(); settle(); n++; REQUIRE(d[0].nconn() == n, "no immediate attempt after a loss"); t = tnow(); ipmi_complete(d[0].ctx(), false, 3); settle(); if (reset) dl = 60; advance(dl - 0.05); REQUIRE(d[0].nconn() == n, "too early"); advance(0.1); REQUIRE(d[0].nconn() == n + 1, "no attempt %.0f s after the failure", dl); expect_alive();
}
SCENARIO(ipmi_late, "C28", 0,0,0, 0,0,0, "completions, successful or not, of sessions that timed out or were replaced, arriving in every later state, once or twice: nothing breaks and the console is connected when its BMC answers") {
    std::vector<Dev> d{Dev(IPMI, "c1"), Dev(IPMI, "ok", 1)}; d[0].opts = OPTS; boot(devs_conf(d)); ipmi_complete(d[1].ctx(), true, 0); settle(); Client w; REQUIRE(w.open("MONITOR", {"c1"}), "monitor"); IpmiCtx *old = d[0].ctx(); int base = D->nfds();
    int how = pick(4, "abandoned by"); if (how == 0) advance(300.1); else if (how == 1) { advance(360.1); } else if (how == 2) { ipmi_complete(old, true, 0); settle(); d[0].drop(); settle(); } else { ipmi_complete(old, false, 2); settle(); }
    int st = pick(3, "later state"); if (st >= 1 && !(d[0].ctx() != old)) { advance(60.1); REQUIRE(d[0].ctx() != old, "no new attempt"); } if (st == 2) { ipmi_complete(d[0].ctx(), true, 0); settle(); REQUIRE(d[0].io(), "not connected"); }
    int times = 1 + pick(2, "times"), ok = pick(2, "success"); W->explore_sched = true; for (int i = 0; i < times; i++) { if (old->destroyed) { int s = old->status; ipmi_complete(old, ok, 4); (void)s; } else ipmi_complete(old, ok, 4); if (pick(2, "apart")) settle(); } settle(); W->explore_sched = false; expect_alive(); REQUIRE(undestroyed("bmcc1") == 1, "%d session contexts are kept", undestroyed("bmcc1"));
    if (st == 2) REQUIRE(d[0].io() && !d[0].io()->app_closed(), "a late completion closed a working session");
    for (int i = 0; i < 40 && !d[0].io(); i++) { if (d[0].ctx()->status == 1) { ipmi_complete(d[0].ctx(), true, 0); settle(); } else advance(60); } REQUIRE(d[0].io() && !d[0].io()->app_closed(), "the console is not connected although its BMC answers"); d[0].send("hi"); settle(); REQUIRE(has(w.fresh(), "hi"), "no output"); REQUIRE(D->nfds() <= base + 1, "descriptors leak"); REQUIRE(d[1].nconn() == 1 && !d[1].io()->app_closed(), "another console was disturbed"); advance(86400); REQUIRE(d[0].io() && !d[0].io()->app_closed(), "lost");
}
SCENARIO(ipmi_race, "C28", 2,0,0, 3,0,0, "a completion racing its time limit, an attaching client, the loss of the previous session, another completion, a reset request or SIGHUP: no crash, no deadlock, no leaked session, and the console ends up connected") {
    std::vector<Dev> d{Dev(IPMI, "c1"), Dev(IPMI, "ok", 1)}; d[0].opts = OPTS; d[0].log = "c1.log"; int what = pick(6, "with"), ok = 1 - pick(2, "failing"); boot(devs_conf(d, "server logfile=\"/var/log/daemon.log\"\n")); if (what != 3) { ipmi_complete(d[1].ctx(), true, 0); settle(); } Client w; REQUIRE(w.open("MONITOR", {"c1"}), "monitor"); if (what == 2) { ipmi_complete(d[0].ctx(), true, 0); settle(); d[0].drop(); settle(); } if (what == 0) advance(299.999);
    Client c; c.user = "c"; W->explore_sched = true;
    ipmi_complete(d[0].ctx(), ok, 4); switch (what) { case 0: advance(0.01); break; case 1: c.begin("CONNECT", {"c1"}); break; case 2: c.begin("MONITOR", {"c1"}); break; case 3: ipmi_complete(d[1].ctx(), true, 0); break; case 4: w.c->close(); c.begin("MONITOR", {"c1"}); break; case 5: raise_sig(D, SIGHUP); break; }
    settle(); W->explore_sched = false; settle(); expect_alive(); REQUIRE(undestroyed("bmcc1") == 1, "%d session contexts are kept", undestroyed("bmcc1")); REQUIRE(d[1].io() && !d[1].io()->app_closed(), "another console was disturbed"); outcome(fmt("%d n=%d up=%d", what, d[0].nconn(), d[0].io() && !d[0].io()->app_closed()));
    if (c.c) c.c->close(); settle(); if (ok && what != 0) REQUIRE(d[0].io(), "the console is not connected although its session was established"); for (int i = 0; i < 40 && !d[0].io(); i++) { if (d[0].ctx()->status == 1) { ipmi_complete(d[0].ctx(), true, 0); settle(); } else advance(60); } REQUIRE(d[0].io() && !d[0].io()->app_closed(), "the console is not connected although its BMC answers"); Client a; REQUIRE(a.open("MONITOR", {"c1"}, "QUIET"), "m"); d[0].send("hi"); settle(); REQUIRE(a.fresh() == "hi", "no output"); a.c->close(); settle(); d[0].drop(); settle(); REQUIRE(d[0].ctx()->status == 1, "no attempt after a loss"); advance(301); expect_alive();
}
/* Options: an independent reference of the documented syntax (conman.conf.5). */
struct Io { bool us = false, ps = false, ks = false; S u, p, k; int l = -1, c = -1; unsigned w = IPMICONSOLE_WORKAROUND_DEFAULT; };
static bool hexkey(const S &v, S &out) { if (v.size() >= 2 && v[0] == '0' && (v[1] == 'x' || v[1] == 'X') && v.find_first_not_of("0123456789abcdefABCDEF", 2) == S::npos) { out = ""; for (size_t i = 2; i < v.size(); i += 2) { S b = v.substr(i, 2); if (b.size() == 1) b += '0'; out += (char)strtoul(b.c_str(), 0, 16); } return true; } out = v; return false; }
static bool num(const S &v, long &n) { char *e; n = strtol(v.c_str(), &e, 0); return !*e; }
static S lower(S s) { for (auto &c : s) c = tolower(c); return s; }
static bool opt1(Io &o, char t, const S &v) {
    static const std::map<S, unsigned> W_ = {{"default", IPMICONSOLE_WORKAROUND_DEFAULT}, {"none", 0}, {"authcap", IPMICONSOLE_WORKAROUND_AUTHENTICATION_CAPABILITIES}, {"intel20", IPMICONSOLE_WORKAROUND_INTEL_2_0_SESSION}, {"supermicro20", IPMICONSOLE_WORKAROUND_SUPERMICRO_2_0_SESSION}, {"sun20", IPMICONSOLE_WORKAROUND_SUN_2_0_SESSION}, {"opensesspriv", IPMICONSOLE_WORKAROUND_OPEN_SESSION_PRIVILEGE}, {"integritycheckvalue", IPMICONSOLE_WORKAROUND_NON_EMPTY_INTEGRITY_CHECK_VALUE}, {"solpayloadsize", IPMICONSOLE_WORKAROUND_IGNORE_SOL_PAYLOAD_SIZE}, {"solport", IPMICONSOLE_WORKAROUND_IGNORE_SOL_PORT}, {"solstatus", IPMICONSOLE_WORKAROUND_SKIP_SOL_ACTIVATION_STATUS}, {"nochecksumcheck", IPMICONSOLE_WORKAROUND_NO_CHECKSUM_CHECK}, {"serialalertsdeferred", IPMICONSOLE_WORKAROUND_SERIAL_ALERTS_DEFERRED}, {"solpacketseq", IPMICONSOLE_WORKAROUND_INCREMENT_SOL_PACKET_SEQUENCE}, {"solchannelsupport", IPMICONSOLE_WORKAROUND_SKIP_CHANNEL_PAYLOAD_SUPPORT}};
    long n; switch (toupper(t)) {
    case 'U': if (v.size() > 16) return false; o.us = true; o.u = v; return true;
    case 'P': { S k; hexkey(v, k); if (k.size() > 20) return false; o.ps = true; o.p = S(k.c_str()); return true; }
    case 'K': { S k; hexkey(v, k); if (k.size() > 20) return false; o.ks = true; o.k = k; return true; }
    case 'L': { S l = lower(v); if (v == "") o.l = -1; else if (l == "user") o.l = 0; else if (l == "op" || l == "operator") o.l = 1; else if (l == "admin" || l == "administrator") o.l = 2; else { if (!num(v, n) || !ipmiconsole_privilege_level_is_valid(n)) return false; o.l = n; } return true; }
    case 'C': if (v == "") o.c = -1; else { if (!num(v, n) || !ipmiconsole_cipher_suite_id_is_valid(n)) return false; o.c = n; } return true;
    case 'W': { unsigned f; auto i = W_.find(lower(v == "" ? "default" : v)); if (i != W_.end()) f = i->second; else { if (!num(v, n) || !ipmiconsole_workaround_flags_is_valid(n)) return false; f = n; } if (f == 0 || f == IPMICONSOLE_WORKAROUND_DEFAULT || o.w == IPMICONSOLE_WORKAROUND_DEFAULT) o.w = f; else o.w |= f; return true; } }
    return false;
}
static bool opts(Io &o, const S &s) { std::vector<S> t; size_t i = 0; while (i <= s.size()) { size_t j = s.find(',', i); if (j == S::npos) j = s.size(); if (j > i) t.push_back(s.substr(i, j - i)); i = j + 1; } Io x = o;
    if (s.size() >= 1 && (s.size() < 2 || s[1] != ':')) { for (size_t k = 0; k < t.size(); k++) if (!opt1(x, "UPKW"[std::min<size_t>(k, 3)], t[k] == "-" ? S() : t[k])) return false; }
    else for (auto &q : t) { if (q.size() < 2 || q[1] != ':' || !opt1(x, q[0], q.substr(2))) return false; } o = x; return true; }
static void same(IpmiCtx *c, const Io &o, const S &what) { REQUIRE(c->user == o.u && c->pass == o.p && c->kg == o.k && c->priv == o.l && c->cipher == o.c && (unsigned)c->flags == o.w, "ipmiopts %s: user \"%s\" password \"%s\" K_g \"%s\" privilege %d cipher %d workarounds 0x%X instead of \"%s\" \"%s\" \"%s\" %d %d 0x%X", what.c_str(), esc(c->user).c_str(), esc(c->pass).c_str(), esc(c->kg).c_str(), c->priv, c->cipher, c->flags, esc(o.u).c_str(), esc(o.p).c_str(), esc(o.k).c_str(), o.l, o.c, o.w); }
static const char *VALS[] = {"U:root", "u:", "U:1234567890123456", "U:12345678901234567", "P:pw", "P:0x00", "P:12345678901234567890", "P:123456789012345678901", "P:0xzz", "p:0x4142434", "K:0x0001", "K:abc", "K:0x", "K:0x0102030405060708090a0b0c0d0e0f1011121314", "k:0x0102030405060708090a0b0c0d0e0f101112131415", "K:123456789012345678901", "L:user", "L:OP", "L:operator", "l:Admin", "L:administrator", "L:2", "L:3", "L:x", "L:", "C:3", "C:0x11", "C:4", "C:3x", "C:", "W:none", "W:default", "W:authcap", "W:intel20", "w:SUPERMICRO20", "W:sun20", "W:opensesspriv", "W:integritycheckvalue", "W:solpayloadsize", "W:solport", "W:solstatus", "W:nochecksumcheck", "W:serialalertsdeferred", "W:solpacketseq", "W:solchannelsupport", "W:0x10", "W:0x10000", "W:foo", "W:", "X:1", "U", "", "Uroot", ":x"};
static const char *V1[] = {"root", "-", "1234567890123456", "12345678901234567", "x"}; static const char *V2[] = {"pw", "-", "0x4142", "123456789012345678901"}; static const char *V3[] = {"0x0102", "-", "key", "123456789012345678901"}; static const char *V4[] = {"sun20", "-", "none", "bogus", "0x3"};
static void tryopts(const S &s) { Io o; bool good = opts(o, s); S what = "\"" + s + "\""; std::vector<Dev> d{Dev(IPMI, "c1"), Dev(IPMI, "c2", 1)}; S conf = "server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\nconsole name=\"c1\" dev=\"ipmi:bmcc1\" ipmiopts=\"" + s + "\"\nconsole name=\"c2\" dev=\"ipmi:bmcc2\"\n"; boot(conf);
    if (D->exited) { REQUIRE(!good, "ipmiopts %s is refused: %s", what.c_str(), esc(D->err).c_str()); REQUIRE(D->code == 1 && D->err.size(), "silent or strange refusal"); outcome("refused"); return; }
    if (good) { REQUIRE(d[0].ctx(), "ipmiopts %s: no session", what.c_str()); same(d[0].ctx(), o, what); outcome("taken"); } else { REQUIRE(has(D->err, "CONFIG[/etc/conman.conf:4]"), "ipmiopts %s is not refused with a message: %s", what.c_str(), esc(D->err).c_str()); REQUIRE(!d[0].ctx(), "a session is opened with refused options %s", what.c_str()); outcome("rejected"); } REQUIRE(d[1].ctx(), "no session of another console"); same(d[1].ctx(), Io(), "none"); }
SCENARIO(ipmi_opts, "C28", 0,0,0, 0,0,0, "every option value alone, before and after every other one: the session is requested with exactly the documented settings, or the console is refused with a message") { int n = sizeof VALS / sizeof *VALS, a = pick(n, "first"), b = pick(n + 1, "second"); S s = VALS[a]; if (b < n) s += S(",") + VALS[b]; tryopts(s); }
SCENARIO(ipmi_opts_old, "C28", 0,0,0, 0,0,0, "every list in the older positional syntax") { S s = V1[pick(5, "user")]; if (pick(2, "more")) { s += S(",") + V2[pick(4, "password")]; if (pick(2, "more")) { s += S(",") + V3[pick(4, "key")]; int k = pick(3, "flags"); for (int i = 0; i < k; i++) s += S(",") + V4[pick(5, "flag")]; } } tryopts(s); }
SCENARIO(ipmi_opts_global, "C28", 0,0,0, 0,0,0, "defaults for all consoles combined with those of one console, before and after its definition") {
    static const char *G[] = {"", "U:glob,P:gp,L:user,W:sun20", "K:0x55,C:1", "W:none"}; static const char *L[] = {"", "U:loc", "P:,L:admin", "W:intel20", "W:default,K:"}; int g = pick(4, "global"), l = pick(5, "console"), g2 = pick(4, "changed later"); Io go, lo; opts(go, G[g]); lo = go; opts(lo, L[l]);
    boot(S("server loopback=on\nserver port=7890\n") + (g ? S("global ipmiopts=\"") + G[g] + "\"\n" : S()) + "console name=\"c1\" dev=\"ipmi:bmcc1\"" + (l ? S(" ipmiopts=\"") + L[l] + "\"" : S()) + "\nconsole name=\"c2\" dev=\"ipmi:bmcc2\"\n" + (g2 ? S("global ipmiopts=\"") + G[g2] + "\"\n" : S()) + "console name=\"c3\" dev=\"ipmi:bmcc3\"\n"); expect_alive(); Io o3 = go; opts(o3, G[g2]); if (g2) { Io f; opts(f, G[g2]); o3 = go; opts(o3, G[g2]); }
    REQUIRE(D->err.find("CONFIG") == S::npos, "%s", esc(D->err).c_str()); Dev a(IPMI, "c1"), b(IPMI, "c2"), c(IPMI, "c3"); same(a.ctx(), lo, S(G[g]) + "+" + L[l]); same(b.ctx(), go, G[g]); same(c.ctx(), o3, S(G[g]) + "|" + G[g2]);
    REQUIRE(ipmi_engine_threads == 1, "engine threads %d", ipmi_engine_threads);
}
