#include "dev.h"
#include "sess.h"
/* Bytes with every special meaning somewhere in the system. */
static const S nasty("a\xff\xff""b\0c\r\n\r\n<ConMan> &.\xff\xfd\x01&L\x7f\n", 30);
static void transports(int type) {
    std::vector<Dev> d{Dev(type, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log";
    boot(devs_conf(d)); expect_alive(); d[0].up(); d[1].up();
    Client rw, ro, other; REQUIRE(rw.open("CONNECT", {"c1"}, "QUIET"), "connect"); REQUIRE(ro.open("MONITOR", {"c1"}, "QUIET"), "monitor"); REQUIRE(other.open("CONNECT", {"c2"}, "QUIET"), "connect");
    d[0].fault(FX_SHORTR | FX_EAGAINR | FX_EINTR); conn_fault(rw.c, FX_SHORTW | FX_EAGAINW | FX_EINTR); conn_fault(ro.c, FX_SHORTW | FX_EAGAINW); log_fault("/var/log/c1.log", FX_SHORTW);
    S sent; S a = file_data("/var/log/c1.log"), g1, g2;
    for (int i = 0; i < 2; i++) { S p = i ? S("second;\xff.") : nasty; d[0].send(p); sent += p; d[1].send("foreign"); settle(); }
    g1 = rw.fresh(); g2 = ro.fresh();
    REQUIRE(g1 == sent, "%s console: the interactive session received %s", devname[type], firstdiff(g1, sent).c_str());
    REQUIRE(g2 == sent, "%s console: the monitoring session received %s", devname[type], firstdiff(g2, sent).c_str());
    S l = file_data("/var/log/c1.log").substr(a.size()); l = l.substr(l.size() - std::min(l.size(), sent.size()));
    REQUIRE(l == sent, "%s console: the log received %s", devname[type], firstdiff(l, sent).c_str());
    REQUIRE(other.fresh() == "foreignforeign", "another console's session received foreign output");
    expect_alive(); outcome(devname[type]);
}
#define T(n, ty) SCENARIO(out_##n, "C01", 0,2,0, 0,3,0, "output of a " #n " console to two readers and the log with short and refused reads and writes at every position") { transports(ty); }
T(unix, UNIX) T(telnet, TELNET) T(process, PROCESS) T(serial, SERIAL) T(ipmi, IPMI)
/* Output in every segmentation. */
SCENARIO(out_segments, "C01", 0,0,0, 0,0,0, "the same output delivered in every segmentation (cuts at any byte) reaches readers unchanged") {
    int type = pick(2, "transport") ? TELNET : UNIX;
    std::vector<Dev> d{Dev(type, "c1")}; boot(devs_conf(d)); d[0].up();
    Client a; REQUIRE(a.open("MONITOR", {"c1"}), "monitor");
    S raw = nasty, wire; if (type == TELNET) { for (char c : raw) { wire += c; if (c == '\xff') wire += c; } } else wire = raw;
    seg_enum(d[0].io(), wire, g_thorough ? 3 : 2); S g = a.fresh(); REQUIRE(g == raw, "segmented output arrived as %s", firstdiff(g, raw).c_str());
}
/* Ring-buffer positions: bursts of sizes around every interesting boundary, read out fully in between. */
SCENARIO(out_bursts, "C01", 0,0,0, 0,0,0, "sequences of bursts whose sizes straddle the buffer and read boundaries, with the reader stalled or not") {
    static const int sz[] = {1, 8190, 8191, 8192, 16381, 16382, 16383}; static const int szt[] = {1, 2, 5000, 8189, 8190, 8191, 8192, 8193, 16380, 16381, 16382, 16383};
    std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; boot(devs_conf(d)); d[0].up();
    Client a, b; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); REQUIRE(b.open("MONITOR", {"c1"}), "m"); S base = file_data("/var/log/c1.log"); S sent; S ga, gb;
    for (int i = 0; i < (g_thorough ? 4 : 3); i++) {
        int n = g_thorough ? szt[pick(12, "size")] : sz[pick(7, "size")]; bool stall = pick(2, "stalled"); S p = pattern(n, i);
        if (stall) { a.c->window(a.c->from->q.size()); }
        d[0].send(p); sent += p; settle();
        if (stall) { a.c->window(1<<20); settle(); }
        ga += a.fresh(); gb += b.fresh();
        REQUIRE(ga == sent, "burst %d of %d bytes: the interactive session has %s", i, n, firstdiff(ga, sent).c_str());
        REQUIRE(gb == sent, "burst %d of %d bytes: the monitoring session has %s", i, n, firstdiff(gb, sent).c_str());
        S l = file_data("/var/log/c1.log"), e = l.substr(0, std::min(l.size(), l.size() - std::min(l.size(), sent.size()))) + sent; REQUIRE(l == e, "burst %d of %d bytes: the log has %s", i, n, firstdiff(l, e).c_str());
    }
}
/* The device sends its last words and hangs up. */
SCENARIO(out_lastwords, "C01", 0,1,0, 0,2,0, "output sent immediately before the device disconnects, with readers stalled or not, for every transport that can hang up") {
    static const int ty[] = {UNIX, TELNET, PROCESS, IPMI}; int t = ty[pick(4, "transport")]; bool stall = pick(2, "stalled reader"), prior = pick(2, "input pending");
    std::vector<Dev> d{Dev(t, "c1")}; d[0].log = "c1.log"; boot(devs_conf(d)); d[0].up();
    Client a; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); d[0].fault(FX_SHORTR); conn_fault(a.c, FX_SHORTW | FX_EAGAINW);
    if (stall) a.c->window(a.c->from->q.size());
    if (prior) a.type("x");
    d[0].send("last words"); d[0].drop(); settle(); a.c->window(1<<20); settle();
    S g = a.fresh(); REQUIRE(g == "last words", "%s: output sent before the hang-up arrived as %s", devname[t], firstdiff(g, "last words").c_str());
    REQUIRE(has(strip_info(file_data("/var/log/c1.log")), "last words"), "%s: output sent before the hang-up is missing from the log", devname[t]); REQUIRE(!a.closed(), "the session ended because its console hung up"); expect_alive();
}
/* Readers come and go between bursts: each gets exactly what was emitted while attached. */
SCENARIO(out_attach, "C01", 0,0,0, 0,0,0, "readers attaching, detaching and toggling between output bursts: each receives exactly the output emitted while attached") {
    Sess s; s.check_info = false; s.start(1, 3);
    for (int i = 0; i < (g_thorough ? 6 : 5); i++) {
        std::vector<std::function<void()>> o; bool idle = false;
        for (int k = 0; k < 3; k++) { auto &m = s.cl[k]; if (!m.used) { if (idle) continue; idle = true; o.push_back([&,k]{ s.op_monitor(k, 0); }); o.push_back([&,k]{ s.op_connect(k, {0}, "JOIN"); }); o.push_back([&,k]{ s.op_connect(k, {0}, "FORCE"); }); }
            else if (m.live) { o.push_back([&,k]{ s.op_close(k, 0); }); if (!m.wr.empty()) o.push_back([&,k]{ s.op_esc(k, 'M'); }); } }
        o[pick(o.size(), "op")](); s.op_out(0, fmt("burst-%d;", i)); s.check("output");
    }
    outcome(s.summary());
}
