#include "sess.h"
#include "dev.h"
static const S nasty("a\xff\xff""b\0c\r\n&.\xff""B\xfd\x01&L\x7f\n\xff", 19);
static void in(int type) {
    std::vector<Dev> d{Dev(type, "c1"), Dev(UNIX, "c2", 1)}; boot(devs_conf(d)); expect_alive(); d[0].up(); d[1].up();
    Client a, b, m; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); REQUIRE(b.open("CONNECT", {"c2"}, "QUIET"), "c"); REQUIRE(m.open("MONITOR", {"c1"}, "QUIET"), "m"); d[0].take();
    d[0].fault(FX_SHORTW | FX_EAGAINW | FX_EINTR); conn_fault(a.c, FX_SHORTR | FX_EAGAINR | FX_EINTR); S want, got;
    for (int i = 0; i < 2; i++) { S p = i ? S("second\xff!") : nasty; a.type(p); b.type("foreign"); m.type("monitor"); settle(); want += p; }
    got = d[0].take(); REQUIRE(got == want, "%s console received %s", devname[type], firstdiff(got, want).c_str());
    S o = d[1].take(); REQUIRE(o == "foreignforeign", "the other console received %s", esc(o).c_str()); expect_alive(); outcome(devname[type]);
}
#define T(n, ty) SCENARIO(in_##n, "C03", 0,2,0, 0,3,0, "typed input (every special byte) to a " #n " console with short and refused reads and writes at every position") { in(ty); }
T(unix, UNIX) T(telnet, TELNET) T(process, PROCESS) T(serial, SERIAL) T(ipmi, IPMI)
SCENARIO(in_segments, "C03", 0,0,0, 0,0,0, "typed input in every segmentation, to each transport") {
    int type = pick(NDEV, "transport"); std::vector<Dev> d{Dev(type, "c1")}; boot(devs_conf(d)); d[0].up(); Client a; REQUIRE(a.open("CONNECT", {"c1"}), "c"); d[0].take();
    S w; for (char c : nasty) { w += c; if (c == '\xff') w += c; } seg_enum(a.c, w, g_thorough ? 3 : 2); S g = d[0].take(); REQUIRE(g == nasty, "%s console received %s", devname[type], firstdiff(g, nasty).c_str()); expect_alive();
}
/* All byte values and pairs of adjacent values around the special ones. */
SCENARIO(in_bytes, "C03", 0,0,0, 0,0,0, "every byte value, alone and next to each special byte, to each transport") {
    int type = pick(NDEV, "transport"); int v = pick(256, "byte"); std::vector<Dev> d{Dev(type, "c1")}; boot(devs_conf(d)); d[0].up(); Client a; REQUIRE(a.open("CONNECT", {"c1"}), "c"); d[0].take();
    static const unsigned char sp[] = {255, 0, 13, 10, '&', 'B', 'F', 'M', 'D', 240, 250, 253}; S w; w += (char)v; for (unsigned char s : sp) { w += (char)s; w += (char)v; w += (char)v; w += (char)s; }
    a.type(w); settle(); S g = d[0].take(); REQUIRE(g == w, "%s console received %s", devname[type], firstdiff(g, w).c_str()); expect_alive();
}
SCENARIO(in_bursts, "C03", 0,0,0, 0,0,0, "bursts of typed input of boundary sizes with the device stalled or not, to each transport") {
    static const int sz[] = {1, 4095, 8190, 8191, 8192, 16382, 16383}; static const int ty[] = {UNIX, TELNET, PROCESS, IPMI}; int type = ty[pick(4, "transport")];
    std::vector<Dev> d{Dev(type, "c1")}; boot(devs_conf(d)); d[0].up(); Client a; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); d[0].take(); S want, got;
    for (int i = 0; i < (g_thorough ? 3 : 2); i++) { int n = sz[pick(7, "size")]; bool stall = pick(2, "stalled"); S p = pattern(n, i); if (stall) d[0].io()->window(d[0].io()->from->q.size());
        a.type(p); settle(); want += p; if (stall) d[0].io()->window(1<<20); settle(); got += d[0].take(); REQUIRE(got == want, "%s console, burst %d of %d bytes: %s", devname[type], i, n, firstdiff(got, want).c_str()); }
    expect_alive();
}
SCENARIO(in_bcast, "C03", 0,1,0, 0,2,0, "broadcast input reaches every selected console and only those, with one console stalled or down") {
    std::vector<Dev> d; for (int i = 0; i < NDEV; i++) d.push_back(Dev(i, fmt("b%d", i + 1), i)); d.push_back(Dev(UNIX, "other", 9)); boot(devs_conf(d)); for (auto &x : d) x.up();
    int mask = 3 + pick((1 << NDEV) - 3, "selection"); if (__builtin_popcount(mask) < 2) { outcome("skip"); return; } int bad = pick(3, "trouble"); int who = 0; while (!(mask >> who & 1)) who++;
    Client a; std::vector<S> sel; for (int i = 0; i < NDEV; i++) if (mask >> i & 1) sel.push_back(d[i].name); REQUIRE(a.open("CONNECT", sel, "BROADCAST"), "broadcast refused: %s", esc(a.raw).c_str()); for (auto &x : d) x.take();
    if (bad == 1) { d[who].io()->window(d[who].io()->from->q.size()); } conn_fault(a.c, FX_SHORTR); S want;
    for (int i = 0; i < 3; i++) { if (bad == 2 && i == 1) { d[who].drop(); settle(); } S p = fmt("cmd%d\xff\r", i); a.type(p); settle(); want += p; d[(who + 1) % NDEV].send("noise"); settle(); }
    if (bad == 1) { d[who].io()->window(1<<20); settle(); }
    for (int i = 0; i < (int)d.size(); i++) { if (bad == 2 && i == who) continue; S g = d[i].take(), w = i < NDEV && (mask >> i & 1) ? want : S(); REQUIRE(g == w, "broadcast to %s console [%s]: %s", devname[d[i].type], d[i].name.c_str(), firstdiff(g, w).c_str()); }
    REQUIRE(!has(a.fresh(), "noise"), "a broadcast session received console output"); REQUIRE(!a.closed(), "the broadcast session was closed"); expect_alive();
}
/* Who may write: typed input is interleaved whole-order from every writer and never from anyone else. */
SCENARIO(in_rights, "C03", 0,0,0, 0,0,0, "sequences of typing, toggling, stealing and leaving: input reaches the console exactly while its sender has write access") {
    Sess s; s.logs = false; s.check_info = false; s.start(2, 2); int depth = g_thorough ? 6 : 5;
    for (int i = 0; i < depth; i++) { std::vector<std::function<void()>> o;
        for (int k = 0; k < 2; k++) { auto &m = s.cl[k]; if (!m.used) { o.push_back([&,k]{ s.op_monitor(k, 0); }); o.push_back([&,k]{ s.op_connect(k, {0}, "FORCE"); }); o.push_back([&,k]{ s.op_connect(k, {0, 1}, "BROADCAST,JOIN"); }); }
            else if (m.live) { o.push_back([&,k]{ s.op_close(k, 2); }); if (!m.rd.empty()) { if (m.wr.empty()) o.push_back([&,k]{ s.op_esc(k, 'J'); }); else o.push_back([&,k]{ s.op_esc(k, 'M'); }); } else { } } }
        o[pick(o.size(), "op")](); for (int k = 0; k < 2; k++) if (s.cl[k].live) s.op_type(k, fmt("<%d by %d\xff>", i, k)); s.check("typing"); }
    outcome(s.summary());
}
