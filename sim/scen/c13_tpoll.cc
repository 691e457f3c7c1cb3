/* C13: the multiplexer of timers and descriptors, driven directly: every sequence of operations against a reference. */
#include "../ref.h"
#include "../core.h"
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
extern "C" {
#include "tpoll.h"
}
struct Tm { int64_t due = 0, t0 = 0; int seq = 0, id = 0, st = 0; int act = 0; bool in = false; };   /* st: 1 pending 2 fired 3 cancelled 4 being cancelled */
struct Fd { int fd = -1; short want = 0; int reports = 0; bool wr = false; };
static struct Tp { tpoll_t tp = nullptr; int n = 0, ms = -1; int cmd_r = -1, cmd_w = -1; std::vector<std::function<void()>> ops; std::vector<Tm> tm; std::vector<Fd> fd; int64_t t0 = 0; int fires = 0, rets = 0, zero = 0, seq = 0; bool conc = false; } g;
static const int64_t SLACK = 2000;
static Proc *Q;
static void set_rel(int ms, int act); static void cancel(size_t i);
static void cb(void *a) {
    size_t i = (size_t)a; Tm &t = g.tm[i]; REQUIRE(t.st == 1 || t.st == 4, "timer %zu is dispatched although it %s", i, t.st == 2 ? "already was" : "was cancelled"); if (t.in) REQUIRE(W->now >= t.due, "timer %zu is dispatched %lld us early", i, (long long)(t.due - W->now)); REQUIRE(W->now <= std::max(t.due, t.t0) + SLACK, "timer %zu is dispatched %lld us late", i, (long long)(W->now - std::max(t.due, t.t0)));
    for (size_t j = 0; j < g.tm.size(); j++) { Tm &o = g.tm[j]; if (j != i && o.st == 1 && o.in && t.in) REQUIRE(o.due > t.due || (o.due == t.due && (g.conc || o.seq > t.seq)), "timer %zu is dispatched before timer %zu, which is due %s", i, j, o.due < t.due ? "earlier" : "at the same time and was set first"); }
    t.st = 2; g.fires++; obs(fmt("fire %zu", i)); tracef("timer %zu fires", i); int act = t.act;
    switch (act) { case 1: set_rel(0, 0); break; case 2: set_rel(50, 0); break; case 3: for (size_t j = 0; j < g.tm.size(); j++) if (g.tm[j].st == 1) { cancel(j); break; } break; case 4: set_rel(50, 4); break; }
}
static void add(int64_t due, int act, std::function<int(size_t)> f) { size_t i = g.tm.size(); g.tm.push_back(Tm()); g.tm[i].due = due; g.tm[i].t0 = W->now; g.tm[i].seq = ++g.seq; g.tm[i].st = 1; g.tm[i].act = act; int id = f(i); REQUIRE(id > 0, "a timer could not be set"); for (size_t j = 0; j < g.tm.size(); j++) REQUIRE(j == i || g.tm[j].id != id || g.tm[j].st == 2, "two timers have the same id"); g.tm[i].id = id; g.tm[i].in = true; }
static void set_rel(int ms, int act) { add(W->now + ms * 1000ll, act, [=](size_t i) { return tpoll_timeout_relative(g.tp, cb, (void*)i, ms); }); }
static void set_abs(int64_t us, int act) { add(W->now + us, act, [=](size_t i) { struct timeval tv; tv.tv_sec = g.tm[i].due / 1000000; tv.tv_usec = g.tm[i].due % 1000000; return tpoll_timeout_absolute(g.tp, cb, (void*)i, &tv); }); }
static void cancel(size_t i) { if (!g.tm[i].id) return; bool was = g.tm[i].st == 1 && g.tm[i].in; if (was) g.tm[i].st = 4; int rc = tpoll_timeout_cancel(g.tp, g.tm[i].id); if (!g.conc) REQUIRE(rc == was, "cancelling a %s timer returns %d", was ? "pending" : "past", rc); else REQUIRE(rc >= 0, "cancel"); if (rc == 1) { REQUIRE(g.tm[i].st == 4, "a timer that was dispatched is reported as cancelled"); g.tm[i].st = 3; } else if (was && !g.conc) REQUIRE(g.tm[i].st == 2, "a pending timer could not be cancelled"); }
static int tp_main(int, char **) {
    if (g.n == -1) for (int i = 0; i < 300; i++) open("/dev/null", O_RDONLY);   /* started with many descriptors open */
    g.tp = tpoll_create(g.n > 0 ? g.n : 0); REQUIRE(g.tp, "tpoll_create"); int p[2]; pipe(p); g.cmd_r = p[0]; g.cmd_w = p[1]; for (auto &f : g.fd) { pipe(p); f.fd = f.wr ? p[1] : p[0]; } tpoll_set(g.tp, g.cmd_r, POLLIN);
    for (;;) {
        int r = tpoll(g.tp, g.ms); g.rets++; REQUIRE(r >= 0, "tpoll fails"); if (r == 0) { g.zero++; REQUIRE(g.ms >= 0, "waiting without a limit returned although nothing is ready"); }
        int n = 0; if (tpoll_is_set(g.tp, g.cmd_r, POLLIN) > 0) { n++; REQUIRE(!Q->fds[g.cmd_r]->rx->q.empty(), "an idle descriptor is reported as ready"); char c; read(g.cmd_r, &c, 1); auto f = g.ops[(unsigned char)c]; if (f) f(); else { tpoll_destroy(g.tp); g.tp = nullptr; return 0; } }
        for (auto &f : g.fd) if (f.fd >= 0) { int e = tpoll_is_set(g.tp, f.fd, POLLIN | POLLOUT | POLLHUP | POLLERR); if (e <= 0) continue; n++; f.reports++; obs(fmt("ready %d", f.fd)); FileP x = Q->fds[f.fd]; if (!g.conc) { REQUIRE(f.want, "descriptor %d is reported although nobody asked for it", f.fd); REQUIRE(f.wr ? x->tx->q.size() < x->tx->cap : !x->rx->q.empty(), "descriptor %d is reported although it is not ready", f.fd); } if (f.wr) { tpoll_clear(g.tp, f.fd, POLLOUT); f.want = 0; } else if (!x->rx->q.empty()) { char b[64]; read(f.fd, b, 64); } }
        if (!g.conc) REQUIRE(n == r, "tpoll reports %d ready descriptors instead of %d", r, n);
    }
}
static void *thr(void *a) { auto *f = (std::function<void()>*)a; (*f)(); return 0; }
static bool byth; static int g_issued;
static void issue(std::function<void()> f) { g.ops.push_back(f); g_issued++; if (byth) new_task(Q, "helper", thr, new std::function<void()>(f)); else Q->fds[g.cmd_r]->rx->q += (char)(g.ops.size() - 1); }
static void check(const char *w) { for (size_t i = 0; i < g.tm.size(); i++) { Tm &t = g.tm[i]; REQUIRE(t.st != 1 || t.due + SLACK > W->now, "%s: timer %zu was due %lld us ago and has not been dispatched", w, i, (long long)(W->now - t.due)); } for (auto &f : g.fd) if (f.fd >= 0 && f.want) { FileP x = Q->fds[f.fd]; REQUIRE(f.wr ? x->tx->q.size() >= x->tx->cap : x->rx->q.empty(), "%s: descriptor %d is ready and was not reported", w, f.fd); } mem_check_all(); REQUIRE(!Q->exited || g.tp == nullptr, "%s: crash", w); long lim = 3 * (g_issued + g.fires + g.rets) + 40 + (long)((W->now - g.t0) / 1000000 / 86400 / 20); REQUIRE(Q->npolls <= lim, "%s: waiting took %ld rounds for %d changes, %d timers and %d returns: it is busy", w, Q->npolls, g_issued, g.fires, g.rets); }
static void start(int n, int ms) { g.n = n; g.ms = ms; g_issued = 0; g.t0 = W->now; Q = start_proc("conmand", tp_main, {"tpoll"}); settle(); }
static void finish() { size_t before = g.tm.size(); (void)before; Q->fds[g.cmd_r]->rx->q += (char)g.ops.size(); g.ops.push_back(nullptr); settle(); REQUIRE(Q->exited && Q->code == 0, "not ended"); mem_check_all(); REQUIRE(mem_live() == 0, "%zu heap blocks leak", mem_live()); }
/* every sequence of timer operations */
static const int64_t DAY = 86400000000ll;
static void timers(int depth, int ms, bool far) {
    byth = pick(2, "set by another thread"); start(0, ms);
    for (int i = 0; i < depth; i++) {
        size_t nt = 0; std::vector<size_t> known; for (size_t j = 0; j < g.tm.size(); j++) known.push_back(j); nt = std::min<size_t>(known.size(), 2);
        int k = pick(far ? 7 : 10, "operation");
        if (far) { static const int64_t T[] = {24 * DAY + 20 * 3600000000ll, 25 * DAY, 30 * DAY + 1, 50 * DAY, 4000 * DAY}; if (k < 5) { int64_t u = T[k]; issue([u]{ set_abs(u, 0); }); settle(); } else { advance(k == 5 ? 3600 * 24 * 13 : 3600 * 24 * 26); } check("far away timers"); continue; }
        if (k < 5) { static const int MS[] = {0, 1, 50, 100, 50}; static const int AC[] = {0, 1, 4, 3, 2}; int m = MS[k], a = pick(2, "action") ? AC[k] : 0; issue([m, a]{ set_rel(m, a); }); settle(); }
        else if (k == 5) { int64_t u = pick(2, "past") ? -1000000 : 50000 - 300; issue([u]{ set_abs(u, 0); }); settle(); }
        else if (k == 6) { if (!nt) { i = depth; break; } size_t which = pick(nt, "which") ? known.back() : known[0]; issue([which]{ cancel(which); }); settle(); }
        else advance(k == 7 ? 0.0005 : k == 8 ? 0.049 : 0.0505);
        check("operation");
    }
    bool periodic = false; for (auto &t : g.tm) periodic |= t.act == 4; advance(far ? 4100.0 * 86400 : periodic ? 0.21 : 1); check("at the end"); int p = 0; for (auto &t : g.tm) p += t.st == 1; REQUIRE(periodic || !p, "%d timers were never dispatched", p); long np = Q->npolls; if (!periodic && ms < 0) { advance(86400); REQUIRE(Q->npolls == np, "the idle multiplexer wakes up"); } outcome(fmt("%d", g.fires)); finish(); 
}
SCENARIO(tp_timers, "C13", 0,0,0, 0,0,0, "all sequences of setting timers (immediate, near, equal, past, self-repeating, setting or cancelling others), cancelling and waiting, from the waiting or another thread: each runs once, when due, in order") { timers(g_thorough ? 6 : 4, -1, false); }
SCENARIO(tp_limit, "C13", 0,0,0, 0,0,0, "the same while waiting with a limit") { timers(g_thorough ? 5 : 3, pick(2, "limit") ? 70 : 1, false); }
SCENARIO(tp_far, "C13", 0,0,0, 0,0,0, "timers days to years away, in any order: dispatched when due, without busy waiting") { timers(g_thorough ? 4 : 3, -1, true); }
SCENARIO(tp_threads, "C13", 2,0,0, 3,0,0, "setting, cancelling and readiness changes by two threads at every point of the multiplexer's wait") {
    g.conc = true; byth = true; g.fd = {Fd(), Fd(), Fd()}; g.fd[1].wr = true; start(4 + 2 * pick(3, "initial size"), -1); static const int MS[] = {0, 1, 50}; int a = pick(3, "already pending"); if (a) issue([a]{ set_rel(MS[a], 0); }); settle(); int o1 = pick(6, "first"), o2 = pick(6, "second"); 
    auto op = [&](int o) { return [o]{ switch (o) { case 0: set_rel(0, 0); break; case 1: set_rel(50, 1); break; case 2: if (g.tm.size()) cancel(0); else set_rel(1, 0); break; case 3: Q->fds[g.fd[0].fd]->rx->q += "x"; g.fd[0].want = POLLIN; tpoll_set(g.tp, g.fd[0].fd, POLLIN); break; case 4: g.fd[1].want = POLLOUT; tpoll_set(g.tp, g.fd[1].fd, POLLOUT); break; case 5: g.fd[2].want = POLLIN; tpoll_set(g.tp, g.fd[2].fd, POLLIN); g.fd[2].want = 0; tpoll_clear(g.tp, g.fd[2].fd, POLLIN); break; } }; };
    W->explore_sched = true; issue(op(o1)); issue(op(o2)); settle(); int w = pick(3, "wait"); if (w) advance(w == 1 ? 0.0011 : 0.0511); settle(); W->explore_sched = false; settle(); check("after concurrent changes"); advance(0.2); check("later"); for (auto &t : g.tm) REQUIRE(t.st == 2 || t.st == 3, "a timer was never dispatched"); REQUIRE(o1 != 4 && o2 != 4 || g.fd[1].reports > 0, "writable descriptor not reported"); REQUIRE(o1 != 3 && o2 != 3 || g.fd[0].reports > 0, "readable descriptor not reported"); long np = Q->npolls; advance(86400); REQUIRE(Q->npolls == np, "the idle multiplexer wakes up"); finish();
}
SCENARIO(tp_ready, "C13", 0,0,0, 0,0,0, "all sequences of requesting, withdrawing and making ready, with few or many descriptors and growth while waiting, from the waiting or another thread: readiness reported exactly as requested") {
    static const int N[] = {4, 6, 8, 0, -1}; int ni = pick(5, "initial size"); byth = pick(2, "changed by another thread"); bool tmr = g_thorough ? pick(2, "timer pending") : ni & 1; g.fd.resize(6); g.fd[1].wr = g.fd[4].wr = true; start(N[ni], -1); for (auto &f : g.fd) if (f.wr && &f == &g.fd[4]) Q->fds[f.fd]->tx->cap = 0; if (tmr) issue([]{ set_rel(100000, 0); }); settle();
    for (int i = 0, n = g_thorough ? 5 : ni < 3 ? 4 : 3; i < n; i++) {
        int w = pick(3, "descriptor"), k = w == 0 ? 0 : w == 1 ? 1 + 3 * pick(2, "which") : 5; Fd *f = &g.fd[k];
        switch (pick(3, "operation")) {
        case 0: issue([f]{ f->want = f->wr ? POLLOUT : POLLIN; tpoll_set(g.tp, f->fd, f->want); }); break;
        case 1: issue([f]{ f->want = 0; tpoll_clear(g.tp, f->fd, POLLIN | POLLOUT); }); break;
        case 2: if (f->wr) Q->fds[f->fd]->tx->cap ^= 1; else Q->fds[f->fd]->rx->q += "d"; break; }
        settle(); check("change");
    }
    long np = Q->npolls; advance(50); REQUIRE(Q->npolls == np, "the multiplexer wakes up although nothing requested is ready"); issue([]{ tpoll_zero(g.tp, TPOLL_ZERO_ALL); for (auto &f : g.fd) f.want = 0; tpoll_set(g.tp, g.cmd_r, POLLIN); for (auto &t : g.tm) if (t.st == 1) t.st = 3; }); settle(); check("reset"); advance(200); check("after a reset"); finish();
}
/* the daemon itself: readiness bookkeeping with more descriptors than the initial table holds */
SCENARIO(tp_daemon, "C13", 1,0,0, 2,0,0, "clients arriving at a daemon with more consoles than the descriptor table holds, growing it while the main loop waits") {
    int n = 121 + pick(4, "consoles"); S conf = "server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\n"; std::vector<Service*> s; for (int i = 0; i < n; i++) { s.push_back(unix_service(fmt("u%d", i), fmt("/run/u%d", i))); conf += fmt("console name=\"u%d\" dev=\"unix:/run/u%d\" log=\"u%d.log\"\n", i, i, i); } W->nofile = 4096; boot(conf); expect_alive(); std::vector<Client> c(4); W->explore_sched = false; c[0].user = "a"; REQUIRE(c[0].open("CONNECT", {"u0"}, "QUIET"), "connect"); int before = D->nfds(); outcome(fmt("%d %d", n, before)); W->explore_sched = true; for (int i = 1; i < 4; i++) { c[i].begin(i & 1 ? "MONITOR" : "CONNECT", {fmt("u%d", i)}, "QUIET"); if (i == 2) settle(); } settle(); W->explore_sched = false; settle(); mem_check_all();
    for (int i = 0; i < 4; i++) { c[i].pump(); REQUIRE(c[i].ok(), "client %d: %s", i, esc(c[i].raw).c_str()); s[i]->cur()->send("hi"); settle(); REQUIRE(has(c[i].fresh(), "hi"), "client %d sees no output", i); c[i].type("in"); settle(); S in = s[i]->cur()->take(); REQUIRE(has(in, "in") == (i == 0 || !(i & 1)), "input of client %d: %s", i, esc(in).c_str()); } expect_alive();
}
