#include "dev.h"
#include <time.h>
static const int64_t MID = 1699920000;             /* 2023-11-14 00:00:00 UTC */
static S stamp(const S &con, time_t t, int off, const S &zn) { time_t l = t + off; struct tm tm; gmtime_r(&l, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S ", &tm); return "\r\n<ConMan> Console [" + con + "] log at " + b + zn + ".\r\n"; }
static void set_tz(const char *tz) { setenv("TZ", tz, 1); tzset(); }
struct Tz { const char *tz; int off; const char *name; }; static const Tz zones[] = {{"UTC0", 0, "UTC"}, {"AAA-5:45", 20700, "AAA"}, {"BBB3:30", -12600, "BBB"}, {"CCC-14", 50400, "CCC"}, {"DDD12", -43200, "DDD"}};
struct Iv { const char *conf; int64_t min; }; static const Iv ivs[] = {{"1", 1}, {"7m", 7}, {"1h", 60}, {"60m", 60}, {"90", 90}, {"7h", 420}, {"24h", 1440}, {"1d", 1440}, {"25h", 1500}, {"7d", 10080}, {"30d", 43200}, {"1440M", 1440}, {"2H", 120}, {"400D", 576000}};
/* first record: the next multiple of the interval since the last local midnight */
static int64_t first(int64_t start, int off, int64_t min) { int64_t l = start + off, mid = l - ((l % 86400) + 86400) % 86400, n = (l - mid) / 60 / min; return mid + (n + 1) * min * 60 - off; }
SCENARIO(ts_exact, "C26", 0,0,0, 0,0,0, "every interval form from a minute to a year, every boundary start second of ordinary, leap and year-end days, several time zones: the exact instants, texts and files of the records, and no processor use between them") {
    const Iv &iv = ivs[pick(14, "interval")]; const Tz &z = zones[pick(g_thorough ? 5 : 3, "zone")]; static const int days[] = {0, 106, 47, 107}; int day = days[pick(g_thorough ? 4 : 2, "day")]; static const int secs[] = {0, 1, 59, 60, 43199, 43200, 45000, 86340, 86399}; int sec = secs[pick(9, "second")], frac = pick(2, "fraction") ? 999999 : 0; set_tz(z.tz);
    W->now = ((MID + day * 86400LL + sec - z.off) * 1000000LL) + frac; int64_t start = W->now / 1000000; std::vector<Dev> d{Dev(UNIX, "c1"), Dev(TELNET, "c2", 1), Dev(UNIX, "c3", 2), Dev(UNIX, "c4", 3)}; d[0].log = "c1.log"; d[1].log = "c2.log"; d[3].log = "c4.log"; W->open_hook = [](const S &p, int) { return has(p, "c4.log") ? EACCES : 0; };
    boot(devs_conf(d, fmt("server timestamp=%s\n", iv.conf))); expect_alive(); S l1 = file_data("/var/log/c1.log"), l2 = file_data("/var/log/c2.log"); int64_t t = first(start, z.off, iv.min); int n = g_thorough ? 6 : 3; d[1].svc->policy = [](Conn*) { return 0; };
    REQUIRE(t > start && t - start <= std::max<int64_t>(iv.min * 60, 86400 + iv.min * 60), "internal");
    for (int i = 0; i < n; i++) { double left = t - W->now / 1e6; long p0 = D->npolls; if (left > 0.002) advance(left - 0.001); REQUIRE(file_data("/var/log/c1.log") == l1 && file_data("/var/log/c2.log") == l2, "a record was written before the time (interval %s, start second %d): %s", iv.conf, sec, esc(file_data("/var/log/c1.log").substr(l1.size())).c_str()); REQUIRE(D->npolls - p0 <= 4 + left / 86400, "%ld wakeups while waiting %.0f s for the next timestamp", D->npolls - p0, left);
        advance(0.002); l1 += stamp("c1", t, z.off, z.name); l2 += stamp("c2", t, z.off, z.name); S g1 = file_data("/var/log/c1.log"), g2 = file_data("/var/log/c2.log"); REQUIRE(g1 == l1, "timestamp %d (interval %s, start second %d, zone %s): the log holds %s", i + 1, iv.conf, sec, z.tz, firstdiff(g1, l1).c_str()); REQUIRE(g2 == l2, "second log: %s", firstdiff(g2, l2).c_str()); t += iv.min * 60; }
    expect_alive(); outcome(fmt("%s %s first+%ld", iv.conf, z.tz, (long)(first(start, z.off, iv.min) - start))); set_tz("UTC0");
}
SCENARIO(ts_none, "C26", 0,0,0, 0,0,0, "without an interval (default or 0) no records are written in a year; with no logs there is nothing to do") {
    int k = pick(4, "setting"); std::vector<Dev> d{Dev(UNIX, "c1")}; if (k < 3) d[0].log = "c1.log"; set_tz("UTC0"); boot(devs_conf(d, k == 0 ? S() : k == 1 ? S("server timestamp=0\n") : k == 2 ? S("server timestamp=0h\n") : S("server timestamp=1\n"))); expect_alive(); S l = file_data("/var/log/c1.log"); long p = D->npolls; advance(k == 3 ? 7200 : 400 * 86400.0); REQUIRE(file_data("/var/log/c1.log") == l, "timestamps although none were requested"); REQUIRE(D->npolls - p < 40, "busy while idle: %ld wakeups", D->npolls - p); expect_alive(); outcome(fmt("%d", k));
}
/* Daylight saving: hourly records stay on the hour, one per elapsed hour. */
SCENARIO(ts_dst, "C26", 0,0,0, 0,0,0, "intervals of up to an hour across both daylight saving changes, starting in any of the hours around them") {
    static const int mins[] = {1, 15, 30, 60}; int m = mins[pick(4, "interval")], spring = pick(2, "spring"), h = pick(8, "start hour"), off = pick(3, "start minute") * 29; set_tz("EST5EDT,M3.2.0,M11.1.0"); int64_t base = spring ? 1710046800 : 1699156800;   /* local midnight of 2024-03-10 (EST) and 2023-11-05 (EDT) */
    W->now = (base + (h - 2) * 3600 + off * 60 + 7) * 1000000LL; std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; boot(devs_conf(d, fmt("server timestamp=%d\n", m))); S l = file_data("/var/log/c1.log"); int64_t t = (W->now / 1000000 / (m * 60) + 1) * (m * 60);
    for (int i = 0; i < 7 * 60 / m && i < 130; i++, t += m * 60) { advance(t - W->now / 1e6 - 0.001); REQUIRE(file_data("/var/log/c1.log") == l, "a record before its time (%d min, %s, start hour %d+%d): %s", m, spring ? "spring" : "fall", h, off, esc(file_data("/var/log/c1.log").substr(l.size())).c_str()); advance(0.002); struct tm tm; time_t tt = t; localtime_r(&tt, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S %Z", &tm); l += S("\r\n<ConMan> Console [c1] log at ") + b + ".\r\n"; S g = file_data("/var/log/c1.log"); REQUIRE(g == l, "%d min, %s, start hour %d+%d: %s", m, spring ? "spring" : "fall", h, off, firstdiff(g, l).c_str()); }
    outcome(fmt("%d %d", m, spring)); set_tz("UTC0");
}
/* Whatever else happens, each log gets each record once, between the bytes of the output. */
SCENARIO(ts_mix, "C26", 0,0,1, 0,0,1, "records due before, after and at every point during output, reconfiguration with rotation, log failures, outages, sessions, suspended or stalled clients and other timers") {
    set_tz("UTC0"); std::vector<Dev> d{Dev(UNIX, "c1"), Dev(pick(2, "type") ? PROCESS : TELNET, "c2", 1)}; d[0].log = "c1.log"; d[1].log = "c2.log"; static const char *lo[] = {"", "logopts=\"sanitize\"", "logopts=\"timestamp\""}; int opt = pick(3, "log option"); d[0].opts = lo[opt]; boot(devs_conf(d, "server timestamp=1\n")); expect_alive(); int64_t t = first(W->now / 1000000, 0, 1); Client a; REQUIRE(a.open("MONITOR", {"c1"}), "m"); a.fresh();
    std::vector<InoP> gen{get_ino("/var/log/c1.log")}; S out; int down = 0, exp1 = 0, hups = 0; std::vector<time_t> due; Client b; bool has_b = false; int steps = g_thorough ? 3 : 2;
    double struck = -1; async_event("a second passes", [&] { struck = W->now / 1e6; W->now += 1000000; }); bool late = false;
    auto note = [&] { InoP x = get_ino("/var/log/c1.log"); if (x && x != gen.back()) gen.push_back(x); };
    for (int i = 0; i < steps; i++) {
        switch (pick(7, "event")) {
        case 0: out += fmt("part%d ", i); d[0].send(fmt("part%d ", i)); settle(); break;
        case 1: vfs_rename("/var/log/c1.log", fmt("/var/log/c1.old%d", i)); raise_sig(D, SIGHUP); hups++; settle(); note(); break;
        case 2: raise_sig(D, SIGHUP); hups++; settle(); break;
        case 3: d[0].io()->close(); settle(); advance(1); break;
        case 4: if (!has_b) { has_b = true; b.user = "b"; REQUIRE(b.open("CONNECT", {"c2"}), "c"); b.escape("L"); b.escape("Z"); settle(); } break;
        case 5: d[1].drop(); settle(); break;
        case 6: break;
        }
        /* let it become due */
        if (W->now / 1000000 < t) advance(t - W->now / 1e6 + 0.001); else settle(); while (t <= W->now / 1000000) { due.push_back(t); t += 60; exp1++; } expect_alive(); note();
    }
    flush_async(); settle(); advance(1.1); while (t <= W->now / 1000000) { due.push_back(t); t += 60; exp1++; }
    (void)down; S all; for (auto &g : gen) all += g->data; std::vector<S> ms; S data = strip_info(all, &ms); int n = 0; std::vector<S> want, got; for (auto x : due) { S s = stamp("c1", x, 0, "UTC"); want.push_back(s.substr(2, s.size() - 4)); } for (auto &m : ms) if (has(m, "] log at ")) { got.push_back(m); n++; }
    REQUIRE((int)got.size() == exp1, "%d timestamp records instead of %d: %s", (int)got.size(), exp1, esc(all, 1500).c_str()); for (size_t i = 0; i < got.size(); i++) { S w = want[i], g = got[i]; /* one second may have passed before it was written */ S s1 = stamp("c1", due[i] + 1, 0, "UTC"); s1 = s1.substr(2, s1.size() - 4); bool may = !late && struck >= 0 && due[i] >= struck - 1 && due[i] <= struck + 61; if (g != w) late = true; REQUIRE(g == w || (may && g == s1), "record %zu is \"%s\" instead of \"%s\"", i, g.c_str(), w.c_str()); }
    if (opt == 0) REQUIRE(data == out, "the output in the log was disturbed: %s", firstdiff(data, out).c_str()); S l2 = file_data("/var/log/c2.log"); REQUIRE(count_sub(l2, "] log at ") == exp1, "the other log has %d records instead of %d", count_sub(l2, "] log at "), exp1); S g = strip_info(a.fresh()); REQUIRE(g == out, "the session got %s", firstdiff(g, out).c_str()); REQUIRE(!a.closed(), "session ended"); outcome(fmt("n%d hups%d gens%zu", n, hups, gen.size())); if (has_b) b.c->close();
}
/* The daemon held up (e.g. a suspended system) for any time at any point: no record is lost, and later ones are exact again. */
SCENARIO(ts_late, "C26", 0,0,1, 0,0,2, "the daemon being held up for seconds to hours at every point between system calls: each record is written as soon as it can be, and the following ones are on time") {
    set_tz("UTC0"); static const int hold[] = {1, 59, 61, 130, 3601}; int h = hold[pick(5, "hold-up")], m = pick(2, "interval") ? 7 : 1; std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; boot(devs_conf(d, fmt("server timestamp=%d\n", m))); expect_alive(); int64_t t0 = first(W->now / 1000000, 0, m); S base = file_data("/var/log/c1.log");
    async_event("held up", [&] { W->now += h * 1000000LL; }); for (int i = 0; i < 3; i++) { advance(m * 60 / 2.0); d[0].send("."); settle(); } flush_async(); settle(); advance(m * 60 + 1); int64_t last = W->now / 1000000; S l = file_data("/var/log/c1.log").substr(base.size()); int n = (last - t0) / (m * 60) + 1; REQUIRE(count_sub(l, "] log at ") == n, "%d records instead of %d after a hold-up of %d s: %s", count_sub(l, "] log at "), n, h, esc(l, 2000).c_str());
    for (int i = 0; i < 3; i++) { int64_t nx = t0 + (int64_t)n * m * 60; advance(nx - W->now / 1e6 - 0.001); REQUIRE(file_data("/var/log/c1.log").substr(base.size()) == l, "early after a hold-up of %d s", h); advance(0.002); l += stamp("c1", nx, 0, "UTC"); S g = file_data("/var/log/c1.log").substr(base.size()); REQUIRE(g == l, "after a hold-up of %d s: %s", h, firstdiff(g, l).c_str()); n++; } outcome(fmt("%d %d", h, n)); expect_alive();
}

/* Logs that cannot be written at the moment a record is due: records of the others, and all later ones, are unaffected. */
SCENARIO(ts_down, "C26", 0,0,0, 0,0,1, "every subset of the logs unavailable (from the start, since a reconfiguration, or failing in a write) at each of several due times: exactly one record per due time in every log that is open") {
    set_tz("UTC0"); std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; d[1].log = "c2.log"; int bad = pick(4, "unavailable at the start"); auto hook = [&](const S &p, int) { for (int i = 0; i < 2; i++) if ((bad >> i & 1) && has(p, i ? "c2.log" : "c1.log")) return EACCES; return 0; }; W->open_hook = hook;
    boot(devs_conf(d, "server timestamp=1\n")); expect_alive(); int64_t t = first(W->now / 1000000, 0, 1); int n = g_thorough ? 5 : 3, full = 0; S old[2];
    bool open[2]; for (int i = 0; i < 2; i++) open[i] = !(bad >> i & 1); async_event("a reconfiguration", [&] { if (!D->exited) raise_sig(D, SIGHUP); });
    for (int k = 0; k <= n; k++) {
        advance(t - W->now / 1e6 + 0.001); settle(); expect_alive();
        for (int i = 0; i < 2; i++) { S nm = i ? "c2" : "c1", l = file_data("/var/log/" + nm + ".log"); int c = count_sub(l, stamp(nm, t, 0, "UTC").substr(2)); if (open[i]) REQUIRE(c == 1, "%d records for minute %d in the log of [%s], unavailable before were %d: %s", c, k, nm.c_str(), bad, esc(l.substr(std::min(l.size(), old[i].size())), 800).c_str()); else REQUIRE(c <= 1, "%d records for one minute", c); old[i] = l; }
        t += 60; if (k == n) break; advance(20); int nb = k == n - 1 ? 0 : pick(4, "unavailable next"), how = pick(2, "by"); (void)full;
        if (how == 0 || !nb) { bad = nb; raise_sig(D, SIGHUP); settle(); for (int i = 0; i < 2; i++) open[i] = !(bad >> i & 1); }
        else { bad = nb; W->disk_full = 1; for (auto &x : d) x.send("y"); settle(); W->disk_full = 0; for (int i = 0; i < 2; i++) open[i] = false; }   /* both fail in a write */
    }
    flush_async(); settle(); expect_alive(); outcome(fmt("%d%d", open[0], open[1])); set_tz("UTC0");
}
