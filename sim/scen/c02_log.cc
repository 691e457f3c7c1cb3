#include "dev.h"
#include <fcntl.h>
/* The console log file holds everything, in order, across reopening, rotation, removal, short writes and outages. */
static S dropped_msg(Dev &d) { return "\r\n<ConMan> Console [" + d.name + "] disconnected from " + d.target() + ".\r\n"; }
static S logdate() { time_t t = W->now / 1000000; struct tm tm; gmtime_r(&t, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S UTC", &tm); return b; }
struct LogM { S path; InoP ino; S want; S pending; };
static void sync_log(const S &path, std::vector<std::pair<InoP,S>> &hist, InoP &ino) { ino = get_ino(path); hist.push_back({ino, ""}); }
/* All sequences of output, signals and file manipulations. */
static void ops(int depth, int faults) {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; d[1].log = "c2.log"; bool zero = pick(2, "zerologs"), pre = pick(2, "old content");
    if (pre) put_file("/var/log/c1.log", "old content\n", 0600);
    boot(devs_conf(d, zero ? "server loopback=on\n" : "")); (void)zero; expect_alive();
    std::vector<std::pair<InoP,S>> h; std::vector<S> where; InoP cur = get_ino("/var/log/c1.log"); REQUIRE(cur, "the log file was not created");
    h.push_back({cur, (pre ? "old content\n" : "") + opened_msg("c1") + up_msg(d[0])}); S two = opened_msg("c2") + up_msg(d[1]);
    bool linked = true;
    for (int i = 0; i < depth; i++) {
        if (faults) log_fault("/var/log/c1.log", faults);
        int o = pick(7, "op"); tracef("op %d", o);
        switch (o) {
        case 0: { S p = fmt("out%d\r\n;", i); d[0].send(p); d[1].send("x" + p); settle(); h.back().second += p; two += "x" + p; break; }
        case 1: { S p = pattern(faults ? 5000 : 20000, i); d[0].send(p); settle(); h.back().second += p; break; }
        case 2: case 6: {
            if (o == 6) { W->open_hook = [](const S &p, int) { return p == "/var/log/c1.log" ? ENOENT * 0 + EACCES : 0; }; W->open_hook = nullptr; advance(1); }
            raise_sig(D, SIGHUP); settle(); if (!linked) { InoP n = get_ino("/var/log/c1.log"); REQUIRE(n, "no log file after a reconfiguration signal"); h.push_back({n, ""}); linked = true; }
            h.back().second += opened_msg("c1", logdate()); two += opened_msg("c2", logdate()); break; }
        case 3: if (linked) { vfs_rename("/var/log/c1.log", fmt("/var/log/c1.log.%d", i)); linked = false; } break;
        case 4: if (linked) { vfs_unlink("/var/log/c1.log"); linked = false; } break;
        case 5: { d[0].drop(); settle(); h.back().second += dropped_msg(d[0]); advance(61); settle(); h.back().second += up_msg(d[0]); break; }
        }
        settle(); expect_alive();
        for (size_t k = 0; k < h.size(); k++) REQUIRE(h[k].first->data == h[k].second, "log file %zu: %s", k, firstdiff(h[k].first->data, h[k].second).c_str());
        S l = file_data("/var/log/c2.log"); REQUIRE(l == two, "the log of the other console: %s", firstdiff(l, two).c_str());
    }
    outcome(fmt("%zu files", h.size()));
}
SCENARIO(log_ops, "C02", 0,0,0, 0,0,0, "all sequences of output, reopen signal, rotation, removal and console outage; every file generation must have its exact content") { ops(g_thorough ? 6 : 5, 0); }
SCENARIO(log_shortw, "C02", 0,2,0, 0,3,0, "the same with short and refused log writes at any write") { ops(g_thorough ? 3 : 2, FX_SHORTW | FX_EAGAINW | FX_EINTR); }
/* Truncation happens at the first opening only, and only if configured. */
SCENARIO(log_zero, "C02", 0,0,0, 0,0,0, "old content kept or truncated at startup as configured, never at later reopenings") {
    bool zero = pick(2, "zerologs"); int nsig = pick(3, "signals"); bool pct = pick(2, "conversion specifier"); std::vector<Dev> d{Dev(UNIX, "c1")};
    put_file("/etc/conman.conf", ""); put_file("/var/log/c1.log", "old\n", 0600); d[0].log = pct ? "%N.log" : "c1.log";
    boot(devs_conf(d), zero ? std::vector<S>{"-z"} : std::vector<S>{}); expect_alive();
    S w = (zero ? S() : S("old\n")) + opened_msg("c1") + up_msg(d[0]); for (int i = 0; i < nsig; i++) { d[0].send(fmt("s%d", i)); settle(); w += fmt("s%d", i); raise_sig(D, SIGHUP); settle(); w += opened_msg("c1"); }
    S l = file_data("/var/log/c1.log"); REQUIRE(l == w, "log (%s): %s", zero ? "truncate" : "append", firstdiff(l, w).c_str());
    REQUIRE((get_ino("/var/log/c1.log")->mode & 077) == 0, "the log is accessible to others (mode %o)", get_ino("/var/log/c1.log")->mode); outcome(fmt("%d%d%d", zero, nsig, pct));
}
/* A log locked by another process is not written to until it is free and the daemon is told to reopen. */
SCENARIO(log_lock, "C02", 0,0,0, 0,0,0, "log files locked by another process, with lock and nolock, before start or appearing later; console service is not affected") {
    bool nolock = pick(2, "nolock"); bool foreign = pick(2, "foreign lock at start"); int seq = pick(9, "later"); std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; d[1].log = "c2.log"; d[0].opts = nolock ? "logopts=\"nolock\"" : "logopts=\"lock\"";
    put_file("/var/log/c1.log", "theirs\n", 0600); InoP n = get_ino("/var/log/c1.log"); if (foreign) n->locks[77777] = F_WRLCK;
    boot(devs_conf(d)); expect_alive(); Client a; REQUIRE(a.open("MONITOR", {"c1"}, "QUIET"), "monitor refused");
    bool act = !foreign || nolock; S w = "theirs\n"; if (act) w += opened_msg("c1") + up_msg(d[0]); S sess, two = opened_msg("c2") + up_msg(d[1]);
    for (int i = 0; i < 2; i++) {
        S p = fmt("p%d", i); d[0].send(p); d[1].send(p); settle(); sess += p; two += p; if (act) w += p;
        int k = i ? seq / 3 : seq % 3;
        if (k == 1) n->locks.erase(77777); if (k == 2) { n->locks.clear(); n->locks[77777] = F_WRLCK; }
        if (k) { raise_sig(D, SIGHUP); settle(); bool f = n->locks.count(77777); bool was = act; act = !f || nolock; two += opened_msg("c2"); if (act) { if (!was) { REQUIRE(n->data.compare(0, w.size(), w) == 0, "content of the locked file changed"); w = n->data; REQUIRE(has(w, opened_msg("c1")), "no opening record after the lock was released"); } else w += opened_msg("c1"); } }
        S l = n->data; REQUIRE(l == w, "log file (%s%s): %s", nolock ? "nolock" : "lock", n->locks.count(77777) ? ", locked by another process" : "", firstdiff(l, w).c_str());
    }
    d[0].send("end"); d[1].send("end"); settle(); sess += "end"; two += "end"; if (act) w += "end"; REQUIRE(n->data == w, "log file: %s", firstdiff(n->data, w).c_str());
    REQUIRE(!nolock || true, ""); if (act && !nolock) REQUIRE(n->locks.count(D->pid), "the daemon holds no lock on its log file"); if (nolock) REQUIRE(!n->locks.count(D->pid), "the daemon locked a log file configured nolock");
    REQUIRE(a.fresh() == sess, "the session did not get the console output"); S l = file_data("/var/log/c2.log"); REQUIRE(l == two, "other log: %s", firstdiff(l, two).c_str()); expect_alive(); outcome(fmt("%d%d%d", nolock, foreign, act));
}
/* Logs that cannot be opened or written. */
SCENARIO(log_errors, "C02", 0,0,0, 0,0,0, "log open and write failures: the console keeps working, other logs are unaffected and logging resumes at the next reopen") {
    int kind = pick(4, "error"); int e = pick(2, "errno") ? ENOSPC : EIO; std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "sub/dir/c1.log"; d[1].log = "c2.log"; const S P = "/var/log/sub/dir/c1.log";
    if (kind == 0) W->open_hook = [P,e](const S &p, int) { return p == P ? e : 0; };
    boot(devs_conf(d)); expect_alive(); Client a; REQUIRE(a.open("MONITOR", {"c1"}, "QUIET"), "monitor refused"); S sess, two = opened_msg("c2") + up_msg(d[1]);
    auto out = [&](const S &s) { d[0].send(s); d[1].send(s); settle(); sess += s; two += s; };
    if (kind == 0) REQUIRE(!get_ino(P), "file exists"); else REQUIRE(file_data(P) == opened_msg("c1") + up_msg(d[0]), "log in a new directory: %s", esc(file_data(P)).c_str());
    out("one;");
    if (kind == 1) { W->write_err_path = e; W->write_err_for = P; out("two;"); } else if (kind == 2) { W->open_hook = [P,e](const S &p, int) { return p == P ? e : 0; }; raise_sig(D, SIGHUP); settle(); two += opened_msg("c2"); out("two;"); } else out("two;");
    expect_alive(); W->open_hook = nullptr; W->write_err_path = 0; out("three;");
    raise_sig(D, SIGHUP); settle(); two += opened_msg("c2"); size_t at = file_data(P).size(); S r = file_data(P); REQUIRE(has(r, opened_msg("c1")), "logging did not resume after the error: %s", esc(r).c_str());
    out("four;"); REQUIRE(file_data(P).substr(at) == "four;", "after the error the log received %s", esc(file_data(P).substr(at)).c_str());
    REQUIRE(a.fresh() == sess, "the session did not get the console output during log errors"); REQUIRE(file_data("/var/log/c2.log") == two, "other log: %s", firstdiff(file_data("/var/log/c2.log"), two).c_str()); expect_alive(); outcome(fmt("%d", kind));
}
SCENARIO(log_reopen_fails, "C02", 0,0,1, 0,0,2, "a reconfiguration signal at every point of a console's output, with one log that cannot be opened then (4 reasons): what had been written stays, service and the other log are undisturbed, the daemon rests when idle, and logging resumes at the next signal") {
    int why = pick(4, "reason"), again = pick(2, "second attempt"), len = pick(2, "long") ? 9000 : 5; std::vector<Dev> d{Dev(UNIX, "c1"), Dev(pick(2, "program") ? PROCESS : UNIX, "c2", 1)}; d[0].log = "sub/c1.log"; d[1].log = "c2.log"; const S P = "/var/log/sub/c1.log"; mk_dir("/var/log"); boot(devs_conf(d)); expect_alive(); d[1].up(); Client a; REQUIRE(a.open("MONITOR", {"c1"}, "QUIET"), "m"); a.fresh(); int nf = D->nfds(), hups = 0;
    InoP first = get_ino(P); REQUIRE(first, "no log"); bool bad = false; S sess, two, one; auto base1 = first->data, base2 = strip_info(file_data("/var/log/c2.log")); auto fail_now = [&]{ bad = true; switch (why) { case 0: W->open_hook = [P](const S &p, int) { return p == P ? EACCES : 0; }; break; case 1: W->open_hook = [P](const S &p, int) { return p == P ? EMFILE : 0; }; break; case 2: W->open_hook = [P](const S &p, int) { return p == P ? EROFS : 0; }; vfs_rename(P, P + ".1"); break; case 3: vfs_rename(P, P + ".1"); mk_dir(P); break; } hups++; raise_sig(D, SIGHUP); };
    async_event("reconfiguration", fail_now); if (again) async_event("reconfiguration again", [&]{ if (!bad) fail_now(); else { hups++; raise_sig(D, SIGHUP); } }); S pat = pattern(len);
    for (int i = 0; i < 3; i++) { S x = i == 1 ? pat : fmt("<%d>", i); sess += x; d[0].send(x); S y = fmt("[%d]", i); two += y; d[1].send(y); settle(); } flush_async(); settle(); advance(3); expect_alive();
    S t = strip_info(file_data("/var/log/c2.log")); REQUIRE(t == base2 + two, "the other log: %s", firstdiff(t, base2 + two).c_str()); S g = strip_info(a.fresh()); REQUIRE(g == sess, "the session: %s", firstdiff(g, sess).c_str()); S kept = strip_info(first->data), full = strip_info(base1) + sess; REQUIRE(full.compare(0, kept.size(), kept) == 0, "the log that could not be reopened: %s", firstdiff(kept, full).c_str());
    W->open_hook = nullptr; if (why == 3) W->vfs.erase(P); raise_sig(D, SIGHUP); settle(); InoP n = get_ino(P); REQUIRE(n && has(n->data, " log opened at "), "logging does not resume at the next reconfiguration signal"); size_t at = n->data.size(); d[0].send("after"); settle(); REQUIRE(n->data.substr(at) == "after", "after the error the log receives \"%s\"", esc(n->data.substr(at)).c_str()); REQUIRE(strip_info(a.fresh()) == "after", "the session misses output"); REQUIRE(D->nfds() == nf, "%d descriptors are open instead of %d", D->nfds(), nf); expect_alive(); outcome(fmt("%d %d %zu", why, hups, kept.size())); }
