#include "dev.h"
static S begin_m(const S &n) { return "\r\n<ConMan> Begin log replay of console [" + n + "].\r\n"; }
static S end_m(const S &n) { return "\r\n<ConMan> End log replay of console [" + n + "].\r\n"; }
static void ask(Client &a, const S &log, const char *when) { a.fresh(); a.escape("L"); settle(); S g = a.fresh(), w = begin_m("c1") + log.substr(log.size() - std::min<size_t>(log.size(), 4096)) + end_m("c1"); REQUIRE(g == w, "replay %s: %s", when, firstdiff(g, w).c_str()); }
/* Every sequence of bursts around the replay window and the buffer's wrap-around. */
SCENARIO(replay_sizes, "C07", 0,0,0, 0,0,0, "log replay after every sequence of bursts whose sizes straddle the replay window and the log buffer size") {
    static const int sz[] = {1, 500, 4095, 4096, 8191, 12288, 16255, 16256, 16257, 16300, 16383, 16384, 16385, 40000}; std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; int ro = pick(2, "read-only");
    boot(devs_conf(d)); Client a; REQUIRE(a.open(ro ? "MONITOR" : "CONNECT", {"c1"}, "QUIET"), "c"); S log = file_data("/var/log/c1.log"); ask(a, log, "at start");
    for (int i = 0; i < (g_thorough ? 4 : 3); i++) { int n = sz[pick(14, "size")]; d[0].send(pattern(n, i)); settle(); log += pattern(n, i); ask(a, log, fmt("after burst %d of %d bytes", i, n).c_str()); }
    REQUIRE(!a.closed(), "closed"); expect_alive();
}
/* Position of the buffer end swept byte by byte across the wrap. */
SCENARIO(replay_sweep, "C07", 0,0,0, 0,0,0, "log replay with the write position at every offset around the buffer wrap and the replay length") {
    std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; boot(devs_conf(d)); Client a; REQUIRE(a.open("MONITOR", {"c1"}), "c"); S log = file_data("/var/log/c1.log");
    static const int base[] = {4096, 8192, 16384, 16384 + 4096, 32768}; int b = base[pick(5, "base")], o = pick(g_thorough ? 401 : 81, "offset") - (g_thorough ? 200 : 40); int n = b + o - (int)log.size(); d[0].send(pattern(n, 1)); settle(); log += pattern(n, 1); ask(a, log, fmt("with %zu bytes logged", log.size()).c_str());
    d[0].send("tail"); settle(); log += "tail"; ask(a, log, "after more output"); ask(a, log, "repeated"); expect_alive();
}
/* Reopening, outages, unwritten data and logging errors in the history. */
SCENARIO(replay_events, "C07", 0,0,0, 0,0,0, "log replay across reopen signals, console outages, stalled and failing log files, and a second viewer") {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; d[1].log = "c2.log"; boot(devs_conf(d)); Client a, b; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); REQUIRE(b.open("MONITOR", {"c2"}), "m");
    S log = file_data("/var/log/c1.log"); bool off = false, fill = pick(2, "buffer wrapped before"); if (fill) { d[0].send(pattern(20000, 7)); settle(); log += pattern(20000, 7); }
    for (int i = 0; i < (g_thorough ? 6 : 5); i++) {
        switch (pick(6, "event")) {
        case 0: { S p = pattern(300, i); d[0].send(p); d[1].send("other"); settle(); log += p; break; }
        case 1: { raise_sig(D, SIGHUP); settle(); log += opened_msg("c1", "@"); off = false; { S x = "@"; size_t k = log.rfind("@"); time_t t = W->now / 1000000; struct tm tm; gmtime_r(&t, &tm); char z[64]; strftime(z, sizeof z, "%Y-%m-%d %H:%M:%S UTC", &tm); log.replace(k, 1, z); } break; }
        case 2: { d[0].drop(); settle(); S m = "\r\n<ConMan> Console [c1] disconnected from \"/run/c1\".\r\n"; advance(61); m += up_msg(d[0]); log += m; break; }
        case 3: { if (!off) { W->write_err_path = ENOSPC; W->write_err_for = "/var/log/c1.log"; d[0].send("lost"); settle(); W->write_err_path = 0; off = true; log = ""; } break; }
        case 4: { S p("\xff\0\r\n\x01", 5); d[0].send(p); settle(); log += p; break; }
        case 5: { b.fresh(); b.escape("L"); settle(); S g = b.fresh(); REQUIRE(g.compare(0, begin_m("c2").size(), begin_m("c2")) == 0 && !has(g, "[c1]"), "replay of the other console: %s", esc(g).c_str()); break; }
        }
        if (!off) ask(a, log, "after event"); else { a.fresh(); a.escape("L"); settle(); S g = a.fresh(), w = "\r\n<ConMan> Console [c1] is not being logged -- cannot replay.\r\n"; REQUIRE(g == w, "replay without a log: %s", esc(g).c_str()); }
    }
    expect_alive();
}
SCENARIO(replay_none, "C07", 0,0,0, 0,0,0, "replay of a console without a log, of a processed log, and in a broadcast session, on each transport") {
    int type = pick(NDEV, "transport"); int mode = pick(4, "mode"); std::vector<Dev> d{Dev(type, "c1"), Dev(UNIX, "c2", 1)}; if (mode) d[0].log = "c1.log"; if (mode == 2) d[0].opts = "logopts=\"sanitize,timestamp\""; boot(devs_conf(d)); d[0].up(); d[1].up(); Client a;
    if (mode == 3) { REQUIRE(a.open("CONNECT", {"c1", "c2"}, "BROADCAST,QUIET"), "bc"); a.escape("L"); settle(); REQUIRE(a.fresh() == "", "replay in a broadcast session produced data"); expect_alive(); return; }
    REQUIRE(a.open("MONITOR", {"c1"}), "m"); S p("one\r\n\x01two\xff\n", 11); d[0].send(p); settle(); a.fresh(); a.escape("L"); settle(); S g = a.fresh();
    S w = mode == 0 ? S("\r\n<ConMan> Console [c1] is not being logged -- cannot replay.\r\n") : begin_m("c1") + file_data("/var/log/c1.log") + end_m("c1"); REQUIRE(g == w, "%s", firstdiff(g, w).c_str()); expect_alive(); outcome(fmt("%d", mode));
}
