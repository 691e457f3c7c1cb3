/* C05: request threads against each other and against the main loop, under every schedule up to a preemption bound. */
#include "dev.h"
static const char *RCMD[] = {"CONNECT", "CONNECT", "CONNECT", "MONITOR", "QUERY", "CONNECT", "QUERY", "CONNECT"};
static const char *ROPT[] = {"", "FORCE", "JOIN", "", "", "BROADCAST", "REGEX", "BROADCAST,FORCE"};
static const std::vector<S> RCON[] = {{"c1"}, {"c1"}, {"c1"}, {"c1"}, {}, {"c*"}, {".*"}, {"c*"}};
struct Race {
    std::vector<Dev> d; int nfd = 0, nth = 0; std::deque<Client> cl; std::vector<int> kind; Client v;
    void start(int t1 = UNIX, int t2 = UNIX) { d = {Dev(t1, "c1"), Dev(t2, "c2", 1)}; d[0].log = "c1.log"; boot(devs_conf(d)); expect_alive(); nfd = D->nfds(); nth = live_threads(D); }
    Client &begin(int k) { cl.emplace_back(); Client &c = cl.back(); c.user = fmt("r%zu", cl.size()); kind.push_back(k); c.begin(RCMD[k], RCON[k], ROPT[k]); return c; }
    void finish(bool alldown = false) {
        W->explore_sched = false; flush_async(); settle(); advance(1); expect_alive();
        int nw = 0, excl = 0; S sum;
        for (size_t i = 0; i < cl.size(); i++) { Client &c = cl[i]; c.pump(); int k = kind[i]; if (c.c->ours_closed) { sum += "g"; continue; }
            REQUIRE(c.handshaken(), "client %zu (%s %s) got no answer: \"%s\"", i, RCMD[k], ROPT[k], esc(c.raw).c_str());
            if (k == 4 || k == 6) { REQUIRE(c.ok() && c.closed(), "query not answered: %s", esc(c.raw).c_str()); sum += "q"; continue; }
            if (!c.ok()) { REQUIRE(c.errcode() == 7 && (k == 0 || k == 5), "client %zu (%s %s): %s", i, RCMD[k], ROPT[k], esc(c.raw).c_str()); REQUIRE(c.closed(), "a refused client is kept"); sum += "b"; continue; }
            if (c.closed()) { sum += "s"; continue; }
            sum += "o"; if (k != 3) { nw++; if (k == 0 || k == 5) excl++; } }
        for (size_t i = 0; i < cl.size(); i++) { Client &c = cl[i]; if (!c.c->ours_closed && !c.closed() && c.ok()) REQUIRE(would_wake(c.c), "input of admitted client %zu (%s %s) would not be noticed", i, RCMD[kind[i]], ROPT[kind[i]]); }
        for (auto &x : d) REQUIRE(!x.io() || would_wake(x.io()), "output of console %s would not be noticed", x.name.c_str());
        d[0].take(); d[1].take(); for (auto &c : cl) if (c.c) c.fresh();
        if (!alldown) for (size_t i = 0; i < cl.size(); i++) { Client &c = cl[i]; if (c.c->ours_closed || c.closed() || !c.ok()) continue; int k = kind[i];
            if (k != 3) { c.type(fmt("<%zu>", i)); settle(); S g = d[0].take(); REQUIRE(g == fmt("<%zu>", i), "input of admitted client %zu (%s %s) arrived as \"%s\"", i, RCMD[k], ROPT[k], esc(g).c_str()); if (k == 5 || k == 7) { g = d[1].take(); REQUIRE(g == fmt("<%zu>", i), "broadcast input of client %zu arrived at c2 as \"%s\"", i, esc(g).c_str()); } } }
        if (!alldown) { d[0].send("out!"); settle(); for (size_t i = 0; i < cl.size(); i++) { Client &c = cl[i]; if (c.c->ours_closed || c.closed() || !c.ok()) continue; S o = strip_info(c.fresh()), w = kind[i] == 5 || kind[i] == 7 ? "" : "out!"; REQUIRE(o == w, "admitted client %zu (%s %s) received \"%s\" instead of \"%s\"", i, RCMD[kind[i]], ROPT[kind[i]], esc(o).c_str(), w.c_str()); } }
        for (auto &c : cl) if (!c.c->ours_closed) c.c->close(); settle(); advance(1);
        if (v.c) { v.c->close(); settle(); } expect_alive();
        if (!alldown) REQUIRE(D->nfds() == nfd, "%d descriptors open after everybody left, %d before", D->nfds(), nfd); REQUIRE(live_threads(D) == nth, "threads remain");
        Client n; n.user = "next"; REQUIRE(n.open("CONNECT", {"c*"}, "BROADCAST"), "the consoles are not free after everybody left: %s", esc(n.raw).c_str()); n.c->close(); settle(); mem_check_all();
        REQUIRE(excl <= 1 || nw <= 1, "%d clients that neither forced nor joined have write access at the same time", excl); outcome(sum);
    }
};
SCENARIO(race_two, "C05", 1,0,0, 2,0,0, "two clients arrive at the same time, all pairs of 8 request kinds, every schedule up to the preemption bound") {
    Race r; r.start(); int a = pick(8, "first"), b = pick(8, "second"); W->explore_sched = true; r.begin(a); r.begin(b); settle(); r.finish();
}
SCENARIO(race_leave, "C05", 1,0,1, 2,0,1, "a client arrives while another one (reader, writer or broadcaster) leaves at any moment, or the console goes down, or a reconfiguration signal arrives") {
    static const int QA[] = {1, 3, 1}, QB[] = {1, 2, 7}; int q = g_thorough ? 0 : pick(3, "pair");
    Race r; r.start(g_thorough && pick(2, "transport") ? TELNET : UNIX); int a = g_thorough ? pick(8, "first") : QA[q], b = g_thorough ? pick(8, "second") : QB[q], ev = pick(4, "event"); Client &f = r.begin(a); settle(); f.pump(); if (!f.ok() || f.closed()) return;
    r.d[0].send("some output"); settle(); f.fresh(); W->explore_sched = true; W->async_io_only = true; Conn *fc = f.c;
    async_event("event", [&r, ev, fc]{ if (ev == 0) fc->close(); else if (ev == 1) fc->reset(); else if (ev == 2) r.d[0].io()->close(); else raise_sig(D, SIGHUP); });
    r.begin(b); settle(); W->explore_sched = false; flush_async(); settle(); if (ev == 2) { advance(20); r.d[0].io()->take(); if (r.d[0].type == TELNET) r.d[0].trx = TelnetRx(); r.d[0].take(); } r.finish();
}
