#include "dev.h"
#include <arpa/inet.h>
/* Who is served: the listening address and the access rules. */
#include <arpa/inet.h>
static int nlisten(S *where = nullptr) { int n = 0; for (auto &f : D->fds) if (f && f->type == F_SOCK && f->state == 2) { n++; if (where) *where = fmt("%s:%d", inet_ntoa(f->local.sin_addr), ntohs(f->local.sin_port)); } return n; }
SCENARIO(peers_listen, "C31", 0,0,0, 0,0,0, "all combinations of up to two loopback directives, port settings (configured, on the command line, any free one) and access control settings: the address and port that accept connections, before and after a reconfiguration signal, and that they serve requests") {
    static const char *LB[] = {"", "loopback=on", "loopback=off"}; int a = pick(3, "first loopback"), b = pick(3, "second loopback"), p = pick(6, "port"), tw = pick(3, "access control"), order = pick(2, "order"); bool lo = b ? b == 1 : a ? a == 1 : true;
    std::vector<Dev> d{Dev(UNIX, "c1")}; S tail = fmt("server %s\nserver %s%s%s\n", LB[a], order ? "" : LB[b], p == 1 ? " port=7899" : p == 2 || p == 5 ? " port=7898" : "", tw == 1 ? " tcpwrappers=on" : tw == 2 ? " tcpwrappers=off" : ""); if (order) tail += fmt("server keepalive=on %s\n", LB[b]);
    std::vector<S> extra; int port = p == 1 ? 7899 : p == 2 ? 7898 : 7890; if (p == 2 || p == 3) { extra = {"-p", "7897"}; port = 7897; } if (p >= 4) { extra = {"-p", "0"}; port = -1; }
    W->hosts_ctl_fn = [](S, S, S, S) { return 1; };
    boot("server logdir=\"/var/log\"\n" + tail + d[0].conf(), extra); expect_alive(); if (port < 0) { S s = D->err + D->out; auto k = s.find("Listening on TCP port "); REQUIRE(k != S::npos, "the port is not told: %s", esc(s).c_str()); port = atoi(s.c_str() + k + 22); REQUIRE(port > 0 && port < 65536 && port != 7898 && port != 7890, "port %d", port); } ref_port = port;
    for (int round = 0; round < 2; round++) { S w; int n = nlisten(&w); REQUIRE(n == 1, "%d listening sockets", n);
        REQUIRE(is_listening(port, "127.0.0.1"), "nothing listens on the loopback address, port %d (listening on %s)", port, w.c_str());
        REQUIRE(is_listening(port, "10.0.0.1") == !lo, "%s: listening on %s", lo ? "loopback is configured, but the daemon accepts connections on every address" : "loopback is off, but the daemon listens on the loopback address only", w.c_str());
        for (const char *dst : {"127.0.0.1", "10.0.0.1"}) { Conn *c = dial(port, "10.9.9.9", 0, dst); if (!c) continue; c->send("HELLO USER='u' TTY='t'\nQUERY\n"); settle(); S g = c->take(); REQUIRE(has(g, "CONSOLE='c1'") && c->app_closed(), "a query sent to %s was answered \"%s\"", dst, esc(g).c_str()); }
        raise_sig(D, SIGHUP); settle(); expect_alive(); }
    REQUIRE(W->hosts_ctl_calls == (tw == 1 ? lo ? 2 : 4 : 0), "%d connections were checked against the access rules", W->hosts_ctl_calls); outcome(fmt("%d %d", port, lo));
}
struct Peer { const char *ip, *name; };
static const Peer PEERS[] = {{"10.9.9.9", "cli.host"}, {"10.9.9.8", nullptr}, {"127.0.0.1", "localhost"}, {"10.9.9.7", "bad.host"}, {"10.7.0.1", "10.9.9.9"}, {"10.9.9.6", "unknown"}, {"10.9.9.5", "LONG"}};
static S longname() { S s; for (int i = 0; i < 24; i++) s += "abcdefghi."; return s + "host"; }
static S pname(const Peer &p) { return !p.name ? "unknown" : S(p.name) == "LONG" ? longname() : p.name; }
static bool ends(const S &s, const S &t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
/* Access rules, as functions of what the peer is. */
static const int NRULES = 9;
static int rule(int r, const S &n, const S &ip) { switch (r) { case 0: return 1; case 1: return 0; case 2: return ip == "10.9.9.9"; case 3: return n == "cli.host"; case 4: return ends(n, ".host"); case 5: return n != "unknown"; case 6: return ip != "10.9.9.7"; case 7: return n != "bad.host" && ip.compare(0, 5, "10.9.") == 0; default: return ip == "127.0.0.1"; } }
static const char *CMD[] = {"QUERY", "MONITOR", "CONNECT", "CONNECT", "CONNECT", "CONNECT", "CONNECT"}; static const char *OPT[] = {"", "", "", "FORCE", "JOIN", "BROADCAST,FORCE", "FORCE,QUIET"};
static void arm(const std::vector<int*> &cur, std::vector<S> *args) { (void)cur; int *r = cur[0]; W->hosts_ctl_fn = [r, args](S d, S n, S a, S u) { args->push_back(d + "|" + n + "|" + a + "|" + u); return rule(*r, n, a); }; for (auto &p : PEERS) if (p.name) W->hosts[pname(p)] = p.ip; }
/* One peer comes with a request in hand; says whether it was served. */
struct Visit {
    std::vector<Dev> d; Client holder, viewer; int cur = 0; std::vector<S> args; int nfd = 0, nth = 0; bool tw = true;
    void start(bool on, const S &mid = "") { tw = on; d = {Dev(UNIX, "c1"), Dev(UNIX, "c2", 1)}; d[0].log = "c1.log"; std::vector<int*> p{&cur}; arm(p, &args);
        boot(devs_conf(d, mid + (on ? "server tcpwrappers=on loopback=off\n" : "server loopback=off\n"))); expect_alive(); cur = 0; holder.user = "holder"; viewer.user = "viewer"; REQUIRE(holder.open("CONNECT", {"c1"}), "holder"); REQUIRE(viewer.open("MONITOR", {"c1"}), "viewer"); holder.fresh(); viewer.fresh(); settle(); nfd = D->nfds(); nth = live_threads(D); args.clear(); }
    void undisturbed(const char *who) { S h = holder.fresh(), v = viewer.fresh(); REQUIRE(h.empty() && v.empty(), "%s: the holder saw \"%s\" and the viewer \"%s\"", who, esc(h).c_str(), esc(v).c_str()); d[0].take(); holder.type("ab"); d[0].send("cd"); settle(); S g = d[0].take(); REQUIRE(g == "ab", "%s: the holder's input arrived as \"%s\"", who, esc(g).c_str()); h = holder.fresh(); v = viewer.fresh(); REQUIRE(h == "cd" && v == "cd", "%s: the holder received \"%s\", the viewer \"%s\"", who, esc(h).c_str(), esc(v).c_str()); }
    bool refused(Conn *c, const S &got, const char *who) { REQUIRE(got.empty(), "%s is not permitted, but received \"%s\"", who, esc(got).c_str()); REQUIRE(c->app_closed(), "%s is not permitted, but its connection is kept", who); return true; }
};
SCENARIO(peers_rules, "C31", 0,0,0, 0,0,0, "9 rule tables (and access control off or switched off again) x 7 peers (named, unnamed, loopback, names that look like addresses, long names) x 9 things the peer sends right away: served if and only if the rules allow it; a rejected peer gets no byte and changes nothing") {
    int mode = pick(3, "access control"), r = pick(NRULES, "rules"), pi = pick(7, "peer"), q = pick(9, "request"), when = pick(2, "sent"); const Peer &p = PEERS[pi]; if (mode && (r > 1 || when)) return; if (q > 6 && when) return;
    Visit v; v.start(mode == 0, mode == 2 ? "server tcpwrappers=on\nserver tcpwrappers=off\n" : ""); v.cur = r; S n = pname(p); bool ok = mode || rule(r, n, p.ip);
    for (int round = 0; round < 2; round++) {
        S logs = get_ino("/var/log/c1.log") ? get_ino("/var/log/c1.log")->data : ""; S who = fmt("peer %s (%s)", p.ip, n.c_str());
        Conn *c = dial(PORT, p.ip, 0, "10.0.0.1"); REQUIRE(c, "no connection accepted"); S l = q == 7 ? "" : q == 8 ? "HELLO USER='gu" : fmt("HELLO USER='guest' TTY='t'\n%s", CMD[q]);
        if (q < 7) { S o = OPT[q]; size_t i = 0; while (i < o.size()) { size_t j = o.find(',', i); if (j == S::npos) j = o.size(); l += " OPTION=" + o.substr(i, j - i); i = j + 1; } if (q) l += q == 5 ? " CONSOLE='c1' CONSOLE='c2'" : " CONSOLE='c1'"; l += "\n"; }
        if (when) settle(); if (!l.empty()) c->send(l); settle(); expect_alive(); S got = c->take();
        if (mode) REQUIRE(v.args.empty(), "access control is off but the rules were consulted");
        else { REQUIRE(v.args.size() == 1, "the rules were consulted %zu times for one connection", v.args.size()); S w = "conmand|" + n + "|" + p.ip + "|unknown"; REQUIRE(v.args[0] == w, "the rules were asked about %s instead of %s", v.args[0].c_str(), w.c_str()); v.args.clear(); }
        if (!ok) { v.refused(c, got, who.c_str()); v.undisturbed(who.c_str()); S now = get_ino("/var/log/c1.log") ? get_ino("/var/log/c1.log")->data : ""; REQUIRE(now.size() <= logs.size() + 2 && now.compare(0, logs.size(), logs) == 0, "the console log changed by more than the output"); }
        else if (q >= 7) { REQUIRE(got.empty() && !c->app_closed(), "%s is permitted, but was not awaited: \"%s\"", who.c_str(), esc(got).c_str()); c->close(); settle(); v.undisturbed(who.c_str()); }
        else { bool busy = q == 2; REQUIRE(got.compare(0, 2, "OK") == 0, "%s is permitted, but was answered \"%s\"", who.c_str(), esc(got).c_str()); size_t k = got.find('\n'); S second = got.substr(k + 1); REQUIRE(busy ? has(second, "CODE=7") : second.compare(0, 2, "OK") == 0, "%s asked %s %s and was answered \"%s\"", who.c_str(), CMD[q], OPT[q], esc(second).c_str());
            if (!c->app_closed()) c->close(); settle(); if (v.holder.closed()) { v.holder = Client(); v.holder.user = "holder"; v.cur = 0; REQUIRE(v.holder.open("CONNECT", {"c1"}), "holder again"); v.cur = r; v.args.clear(); } v.holder.fresh(); v.viewer.fresh(); v.d[0].take(); v.undisturbed(who.c_str()); }
        settle(); REQUIRE(D->nfds() == v.nfd && live_threads(D) == v.nth, "descriptors %d -> %d, threads %d -> %d after the peer left", v.nfd, D->nfds(), v.nth, live_threads(D));
    }
    mem_check_all(); outcome(fmt("%d %d %d %d %d", mode, r, pi, q, ok));
}
SCENARIO(peers_change, "C31", 0,0,0, 0,0,0, "the rules change between connections: every sequence of four verdicts, peers arriving one by one or all at once, with a reconfiguration signal at any place: each connection gets its own verdict") {
    int m = pick(16, "verdicts"), hup = pick(5, "signal at"), wait = pick(3, "arrival"); Visit v; v.start(true); std::vector<Conn*> c; std::map<S, int> verdict; W->hosts_ctl_fn = [&verdict](S, S, S ip, S) { return verdict[ip]; };
    for (int i = 0; i < 4; i++) { S ip = fmt("10.5.0.%d", i + 1); verdict[ip] = m >> i & 1; if (hup == i) { raise_sig(D, SIGHUP); settle(); } c.push_back(dial(PORT, ip, 0, "10.0.0.1")); REQUIRE(c.back(), "refused"); if (wait != 1) c.back()->send("HELLO USER='g' TTY='t'\nMONITOR CONSOLE='c1'\n"); if (wait != 2) settle(); }
    settle(); if (wait == 1) for (auto x : c) x->send("HELLO USER='g' TTY='t'\nMONITOR CONSOLE='c1'\n"); settle(); expect_alive();
    S got[4]; for (int i = 0; i < 4; i++) { got[i] = c[i]->take(); if (m >> i & 1) REQUIRE(count_sub(got[i], "OK") >= 2 && !c[i]->app_closed(), "permitted peer %d was answered \"%s\"", i, esc(got[i]).c_str()); else v.refused(c[i], got[i], fmt("peer %d", i).c_str()); }
    v.holder.fresh(); v.viewer.fresh(); v.d[0].send("to all"); settle(); for (int i = 0; i < 4; i++) { S o = c[i]->take(); REQUIRE((m >> i & 1) ? o == "to all" : o.empty(), "peer %d received \"%s\"", i, esc(o).c_str()); }
    v.holder.fresh(); v.viewer.fresh(); for (auto x : c) if (!x->app_closed()) x->close(); settle(); REQUIRE(D->nfds() == v.nfd && live_threads(D) == v.nth, "descriptors or threads left over"); outcome(fmt("%d", m));
}
SCENARIO(peers_race, "C31", 2,0,0, 3,0,0, "two or three peers with different verdicts arrive at the same time, under every schedule of their threads and the main loop up to the preemption bound; neither the resolver nor the access library is entered twice at a time") {
    int m = pick(4, "verdicts"), n = g_thorough ? 2 + pick(2, "peers") : 2, q = pick(2, "request"); Visit v; v.start(true); std::vector<Conn*> c; std::map<S, int> verdict; W->hosts_ctl_fn = [&verdict](S d, S, S ip, S) { REQUIRE(d == "conmand" && verdict.count(ip), "asked about %s", ip.c_str()); return verdict[ip]; };
    W->explore_sched = true;
    for (int i = 0; i < n; i++) { S ip = fmt("10.5.0.%d", i + 1); verdict[ip] = m >> (i & 1) & 1; W->hosts[fmt("p%d.host", i)] = ip; c.push_back(dial(PORT, ip, 0, "10.0.0.1")); REQUIRE(c.back(), "refused"); c.back()->send(q ? "HELLO USER='g' TTY='t'\nQUERY\n" : "HELLO USER='g' TTY='t'\nMONITOR CONSOLE='c1'\n"); }
    settle(); W->explore_sched = false; settle(); expect_alive();
    for (int i = 0; i < n; i++) { S got = c[i]->take(); if (verdict[fmt("10.5.0.%d", i + 1)]) { REQUIRE(count_sub(got, "OK") == 2 && c[i]->app_closed() == (q == 1), "permitted peer %d was answered \"%s\"", i, esc(got).c_str()); if (!q) c[i]->close(); } else v.refused(c[i], got, fmt("peer %d", i).c_str()); }
    settle(); v.holder.fresh(); v.viewer.fresh(); v.undisturbed("after the visits"); REQUIRE(D->nfds() == v.nfd && live_threads(D) == v.nth, "descriptors or threads left over"); outcome(fmt("%d %d", m, q));
}
SCENARIO(peers_vanish, "C31", 0,0,1, 0,0,2, "a rejected or permitted peer hangs up or resets at every single point of its processing") {
    int ok = pick(2, "verdict"), how = pick(2, "how"), q = pick(2, "request"); Visit v; v.start(true); W->hosts_ctl_fn = [ok](S, S, S ip, S) { return ip == "10.5.0.1" ? ok : 1; };
    Conn *c = dial(PORT, "10.5.0.1", 0, "10.0.0.1"); c->send(q ? "HELLO USER='g' TTY='t'\nQUERY\n" : "HELLO USER='g' TTY='t'\nCONNECT OPTION=JOIN CONSOLE='c1'\n");
    async_event("vanish", [c, how]{ if (how) c->reset(); else c->close(); }); settle(); flush_async(); settle(); advance(1); expect_alive(); REQUIRE(c->app_closed(), "the connection is kept");
    S h = v.holder.fresh(), w = v.viewer.fresh(); if (!ok) REQUIRE(h.empty() && w.empty(), "a rejected peer was announced: \"%s\" \"%s\"", esc(h).c_str(), esc(w).c_str()); v.undisturbed("after the visit"); REQUIRE(D->nfds() == v.nfd && live_threads(D) == v.nth, "descriptors or threads left over"); outcome(fmt("%d %d", ok, how));
}
