/* C27: receivers that do not accept data, and everybody else. */
#include "dev.h"
#define RING 16383
/* What one receiver may still get: what its socket took, then what the daemon holds for it. */
struct Rcv { S sock, ring; size_t space = 0; bool susp = false;
    void flush() { if (susp) return; size_t k = std::min(space, ring.size()); sock += ring.substr(0, k); ring.erase(0, k); space -= k; }
    void put(const S &s) { ring += s; if (space && !susp) { size_t k = std::min(space, ring.size()); sock += ring.substr(0, k); ring.erase(0, k); space -= k; } if (ring.size() > RING) ring.erase(0, ring.size() - RING); }
    void allow(size_t n) { space = n; flush(); } };
static const size_t BURST[] = {1, 100, 8191, 16383, 16384, 20000, 40000};
SCENARIO(stall_client, "C27", 0,0,0, 0,0,0, "sequences of bursts of 7 sizes, partial acceptance and suspension by one reader; the second reader, the log and the console are undisturbed") {
    std::vector<Dev> d{Dev(pick(2, "transport") ? TELNET : UNIX, "c1")}; d[0].log = "c1.log"; boot(devs_conf(d)); expect_alive(); d[0].up();
    Client a, b; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); REQUIRE(b.open("MONITOR", {"c1"}, "QUIET"), "m"); Rcv m; S lg = file_data("/var/log/c1.log"), sent, got; double t0 = tnow(); size_t big = 1 << 20;
    static const size_t first[] = {0, 7, big}; size_t w0 = first[pick(3, "initial space")]; a.c->window(w0); m.space = w0;
    for (int i = 0, n = g_thorough ? 6 : 4; i < n; i++) {
        int op = pick(g_thorough ? 12 : 9, "operation"); static const int bs[] = {1, 3, 4, 6, 0, 2, 5};
        if (op == 8 && !g_thorough) op = 11;
        S note;
        if (op < 4 || (op >= 8 && op < 11)) { S p = pattern(BURST[bs[op < 4 ? op : op - 4]], i + 1); sent += p; d[0].send(p); settle(); m.put(p); note = fmt("burst of %zu", p.size()); }
        else if (op == 4) { a.c->window(1000); settle(); got += a.fresh(); settle(); got += a.fresh(); note = "accept 1000"; a.c->window(0); m.allow(1000); m.space = 0; if (a.c->from->q.size()) {} m.ring = m.ring; /* two helpings */ m.allow(1000); m.space = 0; }
        else if (op == 5) { for (int k = 0; k < 4; k++) { a.c->window(big); settle(); got += a.fresh(); } m.allow(big); note = "accept everything"; }
        else if (op == 6) { a.escape("Z"); settle(); m.susp = !m.susp; if (!m.susp) m.flush(); note = "suspend/resume"; }
        else if (op == 7) { got += a.fresh(); a.c->window(0); m.space = 0; note = "stop accepting"; }
        else { a.type("t"); settle(); S g = d[0].take(); REQUIRE(g == "t", "input of the stalled client arrived as \"%s\"", esc(g).c_str()); note = "type"; }
        expect_alive(); S g2 = b.fresh(); (void)g2;
        got += a.fresh(); if (m.space < big && op != 4) { /* the socket's free space grows when it is read */ a.c->window(m.space); }
        S o = b.data; REQUIRE(tnow() == t0, "time passed"); static S dummy; (void)dummy; (void)o;
        REQUIRE(got == m.sock, "after %s: the stalled reader received %s", note.c_str(), firstdiff(got, m.sock).c_str());
        S all = strip_info(file_data("/var/log/c1.log").substr(lg.size())); REQUIRE(all == sent, "after %s: the log has %s", note.c_str(), firstdiff(all, sent).c_str());
        b.raw = ""; b.hdr = 0; b.want = 0; static thread_local S bg; if (i == 0) bg = ""; bg += g2; REQUIRE(bg == sent, "after %s: the other reader has %s", note.c_str(), firstdiff(bg, sent).c_str());
    }
    if (m.susp) { a.escape("Z"); settle(); m.susp = false; } m.allow(big); for (int k = 0; k < 4; k++) { a.c->window(big); settle(); got += a.fresh(); }
    REQUIRE(got == m.sock, "after accepting everything: the stalled reader received %s", firstdiff(got, m.sock).c_str()); REQUIRE(!a.closed() && !b.closed(), "a session ended"); outcome(fmt("%zu", got.size() == sent.size()));
}
SCENARIO(stall_console, "C27", 0,0,0, 0,0,0, "typed bursts into consoles of which one does not accept input, by a broadcaster and another writer; partial acceptance at any time") {
    int ty = pick(5, "transport"); static const int T[] = {UNIX, PROCESS, TELNET, IPMI, SERIAL}; std::vector<Dev> d{Dev(T[ty], "c1"), Dev(UNIX, "c2", 1)}; boot(devs_conf(d)); d[0].up(); d[1].up(); d[0].take();
    Client a, b, r; REQUIRE(a.open("CONNECT", {"c1", "c2"}, "BROADCAST,QUIET"), "b"); REQUIRE(b.open("CONNECT", {"c2"}, "JOIN,QUIET"), "c"); REQUIRE(r.open("MONITOR", {"c1"}, "QUIET"), "m");
    Rcv m; Conn *io = d[0].io(); size_t big = 1 << 20; io->window(0); S got, sent2; static const size_t sz[] = {5, 16383, 16384, 30000}; double t0 = tnow();
    for (int i = 0, n = g_thorough ? 6 : 5; i < n; i++) { int op = pick(7, "operation"); S note;
        if (op < 4) { S p = pattern(sz[op], i + 1); a.type(p); settle(); m.put(p); sent2 += p; note = fmt("typing %zu", p.size()); }
        else if (op == 4) { io->window(1000); settle(); got += d[0].take(); io->window(0); m.allow(1000); m.space = 0; note = "accepting 1000"; }
        else if (op == 5) { for (int k = 0; k < 4; k++) { io->window(big); settle(); got += d[0].take(); } m.allow(big); m.space = 0; io->window(0); note = "accepting all"; }
        else { b.type("hey"); settle(); sent2 += "hey"; d[0].send("out"); settle(); S g = r.fresh(); REQUIRE(g == "out", "output of the stalled console arrived as \"%s\"", esc(g).c_str()); note = "others"; }
        REQUIRE(got == m.sock, "after %s: the stalled console received %s", note.c_str(), firstdiff(got, m.sock).c_str());
        static thread_local S g2; if (!i) g2 = ""; g2 += d[1].take(); REQUIRE(g2 == sent2, "after %s: the other console received %s", note.c_str(), firstdiff(g2, sent2).c_str()); REQUIRE(tnow() == t0, "time passed"); expect_alive(); }
}
SCENARIO(stall_request, "C27", 1,0,0, 2,0,0, "clients that stop at any point of their request, or do not accept the answer, while others are served at once") {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; boot(devs_conf(d, "server resetcmd=\"/bin/true\"\n")); Client w, v; REQUIRE(w.open("CONNECT", {"c1"}), "w"); REQUIRE(v.open("MONITOR", {"c1"}), "m"); v.fresh(); w.fresh();
    int k = pick(8, "kind"), cut = pick(4, "stalls after"), n = pick(2, "two of them") + 1; double t0 = tnow();
    static const char *R[] = {"QUERY", "MONITOR CONSOLE='*'", "CONNECT CONSOLE='c1'", "CONNECT CONSOLE='zz'", "MONITOR CONSOLE='c2'", "CONNECT CONSOLE='c2'", "CONNECT OPTION=BROADCAST CONSOLE='*'", "CONNECT OPTION=FORCE CONSOLE='c1'"};
    W->explore_sched = true; std::vector<Conn*> cs;
    for (int i = 0; i < n; i++) { Conn *c = dial(PORT); cs.push_back(c); S g = "HELLO USER='slow' TTY='x'\n", q = S(R[k]) + "\n"; if (cut == 0) c->send(g.substr(0, 5)); else if (cut == 1) { c->window(0); c->send(g + q); } else if (cut == 2) { c->window(3 + 4); c->send(g + q); } else c->send(g + q.substr(0, 4)); }
    settle();
    bool forced = k == 7 && (cut == 1 || cut == 2); bool got2 = (k == 5 || (k == 6)) && cut == 2; (void)got2;
    d[0].send("tick"); settle(); S g = strip_info(v.fresh()); REQUIRE(g == "tick", "a viewer received \"%s\" while a client does not read its answer", esc(g).c_str());
    if (!w.closed()) { w.type("in"); settle(); g = d[0].take(); REQUIRE(g == "in" || forced, "input arrived as \"%s\" while a client does not read its answer", esc(g).c_str()); }
    Client q; q.user = "new"; REQUIRE(q.open("QUERY", {}) && q.closed(), "a query is not answered while a client does not read its answer: %s", esc(q.raw).c_str());
    Client o; o.user = "new2"; REQUIRE(o.open("CONNECT", {"c2"}, "FORCE"), "a request is not answered while a client does not read its answer: %s", esc(o.raw).c_str()); o.type("z"); settle(); g = d[1].take(); REQUIRE(g == "z", "input arrived as \"%s\"", esc(g).c_str());
    REQUIRE(tnow() == t0, "time passed"); W->explore_sched = false;
    for (auto c : cs) c->window(1 << 20); settle(); if (cut == 0 || cut == 3) for (auto c : cs) c->close(); settle(); advance(1); expect_alive(); for (auto c : cs) if (cut == 1 || cut == 2) { S r = c->take(); REQUIRE(r.compare(0, 3, "OK\n") == 0 && r.size() > 6, "the slow client finally received \"%s\"", esc(r).c_str()); } outcome(fmt("%d%d", k, cut));
}
