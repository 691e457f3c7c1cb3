#include "dev.h"
/* A client leaves, in every way, from every state, with every kind of pending data. */
enum { K_NONE, K_PARTGREET, K_GREET, K_PARTREQ, K_QUERY, K_MON, K_CONN, K_BC, K_SUSP, K_HALFESC, K_TORO, K_TORW, K_BCSUSP, K_STOLEN, K_STOLENSUSP, NK };
static const char *kn[] = {"no greeting", "partial greeting", "greeting only", "partial request", "query", "monitor", "connect", "broadcast", "suspended", "half an escape", "connect turned read-only", "monitor turned read-write", "suspended broadcast", "robbed", "robbed while suspended"};
static void depart() {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; boot(devs_conf(d)); expect_alive();
    Client v; REQUIRE(v.open("MONITOR", {"c1"}), "m"); v.fresh();
    int k = pick(NK, "state"), how = pick(3, "how"), outp = k >= K_MON ? pick(3, "pending output") : 0, inp = k >= K_CONN ? pick(4, "pending input") : 0;
    bool writer = k == K_CONN || k == K_BC || k == K_SUSP || k == K_HALFESC || k == K_TORW || k == K_BCSUSP;
    bool reader = k >= K_MON && k != K_BC && k != K_BCSUSP;
    size_t mem = 0; int nfd = D->nfds(), nth = live_threads(D);
    for (int round = 0; round < 4; round++) {   /* the last rounds repeat the same story to expose anything left behind */
        tracef("round %d: %s, leaving by %s, output %d, input %d", round, kn[k], how == 0 ? "close" : how == 1 ? "half-close" : "reset", outp, inp);
        Client c, thief; c.tty = "pts/7"; c.user = "gone"; bool robbed = false; S greet = "HELLO USER='gone' TTY='pts/7'\n";
        switch (k) {
        case K_NONE: c.c = dial(PORT); break; case K_PARTGREET: c.c = dial(PORT); c.c->send(greet.substr(0, 14)); break; case K_GREET: c.c = dial(PORT); c.c->send(greet); break;
        case K_PARTREQ: c.c = dial(PORT); c.c->send(greet + "CONNECT CONSOLE='c"); break;
        case K_QUERY: c.begin("QUERY", {}); break;
        case K_MON: case K_TORW: REQUIRE(c.open("MONITOR", {"c1"}), "m"); break; case K_BC: case K_BCSUSP: REQUIRE(c.open("CONNECT", {"c1", "c2"}, "BROADCAST"), "b"); break;
        default: REQUIRE(c.open("CONNECT", {"c1"}), "%s: the console is not free: %s", kn[k], esc(c.raw).c_str()); }
        settle();
        if (k == K_TORO) { c.escape("M"); settle(); } if (k == K_TORW) { c.escape("J"); settle(); }
        c.pump(); v.fresh();
        if (outp && reader) { c.c->window(outp == 1 ? 5 : 40); d[0].send(pattern(outp == 1 ? 300 : 30000, 3)); settle(); v.fresh(); }
        if (k == K_SUSP || k == K_BCSUSP || k == K_STOLENSUSP) { c.escape("Z"); settle(); if (reader) { d[0].send("while suspended"); settle(); } v.fresh(); }
        if (k == K_HALFESC) { c.c->send("\xff"); settle(); }
        if (k == K_STOLEN || k == K_STOLENSUSP) { REQUIRE(thief.open("CONNECT", {"c1"}, "FORCE"), "forcing failed"); robbed = true; v.fresh(); }
        S in; if (inp == 1) in = "bye"; if (inp == 2) { d[0].io()->window(0); in = "bye"; } if (inp == 3) in = S("\xff""J", 2);
        if (inp) c.c->send(in);
        if (inp == 2) settle();
        if (how == 0) c.c->close(); else if (how == 1) c.c->shut_wr(); else c.c->reset();
        settle(); expect_alive();
        if (how == 1 && !c.c->app_closed()) {   /* still willing to receive: gets what is pending, then the end */
            for (int j = 0; j < 200 && !c.c->app_closed(); j++) { c.c->take(); c.c->window(100000); settle(); }
        }
        if (how == 0) { advance(1); }
        REQUIRE(c.c->app_closed(), "%s: the daemon keeps the connection of a client that left", kn[k]);
        d[0].io()->window(1 << 20); d[1].io()->window(1 << 20); settle(); advance(1);
        if (robbed) { thief.type("t"); settle(); S g = d[0].take(); REQUIRE(g == "t", "the console received \"%s\" from the robbed client and the new writer", esc(g).c_str()); thief.c->close(); settle(); }
        else if (writer && k != K_HALFESC && (inp == 1 || inp == 2) && how != 2) { S g = d[0].take(); REQUIRE(g == "bye", "input typed before leaving: the console received \"%s\"", esc(g).c_str()); }
        else d[0].take();
        S told = v.fresh(); int dep = count_sub(told, "departed by <gone@cli> on pts/7"), want = writer || k == K_TORO ? (k == K_TORO ? 0 : 1) : 0;
        if (k == K_MON && inp == 3) want = dep;  /* it may have become a writer just before */
        if (k == K_TORO && inp == 3) want = dep; if (k == K_TORW && inp == 3) want = dep > 1 ? -1 : dep;
        if (inp == 3 && (k == K_CONN || k == K_SUSP || k == K_HALFESC)) want = dep; if (robbed) want = dep;
        REQUIRE(dep == want, "%s: the departure was announced %d times instead of %d: %s", kn[k], dep, want, esc(told).c_str());
        v.fresh(); REQUIRE(D->nfds() == nfd, "%s: %d descriptors open after the client left, %d before it came", kn[k], D->nfds(), nfd);
        REQUIRE(live_threads(D) == nth, "%s: a thread of the departed client is still there", kn[k]);
        Client n; REQUIRE(n.open("CONNECT", {"c1"}), "%s: after the client left the console is not free: error %d %s", kn[k], n.errcode(), esc(n.raw).c_str()); n.fresh(); v.fresh();
        d[0].take(); n.type("new"); d[0].send("out"); settle(); S g = d[0].take(); REQUIRE(g == "new", "the next writer's input arrived as \"%s\"", esc(g).c_str()); S o = n.fresh(); REQUIRE(strip_info(o) == "out", "the next client received \"%s\"", esc(o).c_str()); REQUIRE(strip_info(v.fresh()) == "out", "the viewer missed output");
        n.c->close(); settle(); Client n2; REQUIRE(n2.open("CONNECT", {"c2"}), "c2 is not free"); n2.c->close(); settle(); v.fresh(); d[0].take(); d[1].take();
        mem_check_all(); size_t m = mem_live(); if (round == 3) REQUIRE(m == mem, "%s: heap blocks in use grew from %zu to %zu over one more identical visit", kn[k], mem, m); mem = m;
    }
    outcome(fmt("%s %d %d %d", kn[k], how, outp, inp));
}
SCENARIO(depart_any, "C16", 0,0,0, 0,0,0, "departure by close, half-close or reset from every session state with every kind of pending data: connection, descriptors, threads, memory, write access and notices") { depart(); }
/* The client vanishes at any system call or lock operation the daemon performs on its behalf. */
SCENARIO(depart_async, "C16", 0,0,1, 0,0,2, "a client vanishes at every single point of its request's processing and of its first session commands (and, thorough, another one too)") {
    std::vector<Dev> d{Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; boot(devs_conf(d)); Client v; REQUIRE(v.open("MONITOR", {"c1"}), "m"); v.fresh();
    static const char *cmd[] = {"QUERY", "MONITOR", "CONNECT", "CONNECT", "CONNECT", "CONNECT", "CONNECT"}; static const char *opt[] = {"", "", "", "FORCE", "JOIN", "BROADCAST,FORCE", ""};
    int k = pick(8, "request"), how = pick(2, "how"), other = pick(2, "console has a writer"), act = pick(4, "then");
    int nfd = D->nfds(), nth = live_threads(D); Client o; if (other) { o.user = "other"; REQUIRE(o.open("CONNECT", {"c1"}), "other"); } v.fresh(); if (other) o.fresh();
    Client c; c.user = "gone"; std::vector<S> cons = {"c1"}; S ops; const char *cm = "CONNECT"; if (k < 7) { cm = cmd[k]; ops = opt[k]; } if (k == 5 || k == 6) cons = {"c*"}; if (k == 7) { cons = {"("}; ops = "REGEX"; }
    auto leave = [&]{ if (c.c && !c.c->ours_closed) { if (how) c.c->reset(); else c.c->close(); } };
    c.c = nullptr; async_event("the client vanishes", leave); if (g_thorough && other) async_event("the other client vanishes", [&]{ o.c->close(); });
    c.begin(cm, cons, ops); settle(); if (!c.c->ours_closed) { if (act == 1) c.type("x"); if (act == 2) c.escape("L"); if (act == 3) d[0].send("out"); } settle();
    flush_async(); advance(1); expect_alive();
    REQUIRE(c.c->app_closed(), "the daemon keeps the connection of a client that vanished");
    if (other && !o.c->ours_closed) { bool gone = k == 3 || k == 5; if (o.closed()) REQUIRE(gone, "another client was disconnected"); else { o.fresh(); v.fresh(); d[0].take(); o.type("Y"); d[0].send("Z"); settle(); REQUIRE(d[0].take() == "Y" && strip_info(o.fresh()) == "Z" && strip_info(v.fresh()) == "Z", "another session was disturbed"); o.c->close(); settle(); } }
    advance(1); S t = v.fresh(); REQUIRE(D->nfds() == nfd && live_threads(D) == nth, "%d descriptors and %d threads remain instead of %d and %d", D->nfds(), live_threads(D), nfd, nth);
    REQUIRE(count_sub(t, "departed by <gone@cli>") <= 1, "departure announced twice"); 
    Client n; REQUIRE(n.open("CONNECT", {"c*"}, "BROADCAST"), "consoles are not free after everybody left: %s", esc(n.raw).c_str()); d[0].take(); d[1].take(); n.type("new"); settle(); REQUIRE(d[0].take() == "new" && d[1].take() == "new", "the next writer's input is not delivered"); mem_check_all();
    outcome(fmt("k%d h%d o%d a%d", k, how, other, act));
}
