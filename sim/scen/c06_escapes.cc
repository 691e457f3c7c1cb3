#include "dev.h"
/* In-session commands are recognised whatever the framing and whatever surrounds them. */
static void escapes(int ntok, int maxcuts) {
    static const char *tok[] = {"x", "\xff", "!B", "!D", "!Q", "!L", "!M", "!?", "!R"}; const int NT = 9;
    int type = pick(NDEV, "transport"); std::vector<Dev> d{Dev(type, "c1")}; d[0].log = "c1.log"; put_file("/bin/sh", "", 0755); boot(devs_conf(d, "server resetcmd=\"power-cycle %N\"\n")); d[0].up();
    Client a; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); d[0].take(); size_t ncmd0 = d[0].trx.cmds.size(); Ino *ti = type == SERIAL ? get_ino("/dev/tty" "c1").get() : nullptr; int p0 = W->vprocs.size();
    S wire, want, exp; int brk = 0, quiet = 1, wr = 1, resets = 0; S log = file_data("/var/log/c1.log");
    auto info = [&](const S &m) { log += m; };
    for (int i = 0; i < ntok; i++) {
        int t = pick(NT, "token"); S k = tok[t];
        if (t == 0) { wire += "x"; if (wr != 2) want += wr ? "x" : ""; }
        else if (t == 1) { wire += "\xff\xff"; if (wr) want += "\xff"; }
        else if (t == 2) { wire += "\xff""B"; if (wr) { if (type == PROCESS) want += "&B"; else brk++; } }
        else if (t == 3) { wire += "\xff""D"; if (wr) want += "\x7f"; }
        else if (t == 4) { wire += "\xff""Q"; quiet ^= 1; exp += S("\r\n<ConMan> Quiet-mode ") + (quiet ? "enabled -- info msgs will be suppressed" : "disabled -- info msgs will be displayed") + ".\r\n"; }
        else if (t == 5) { wire += "\xff""L"; exp += "\r\n<ConMan> Begin log replay of console [c1].\r\n" + log + "\r\n<ConMan> End log replay of console [c1].\r\n"; }
        else if (t == 6) { if (!wr) { wire += "\xff""J"; S m = "\r\n<ConMan> Console [c1] joined by <" + a.user + "@cli> on pts/0 at 11-14 22:13.\r\n"; if (!quiet) exp += m; info(m); wr = 1; }
            else { wire += "\xff""M"; S m = "\r\n<ConMan> Console [c1] departed by <" + a.user + "@cli> on pts/0 at 11-14 22:13.\r\n"; if (!quiet) exp += m; info(m); wr = 0; } }
        else if (t == 7) wire += "\xff""z";
        else if (t == 8) { wire += "\xff""R"; if (wr) { if (!resets++) { S m = fmt("\r\n<ConMan> Console [c1] reset by <%s@cli> (pid %d).\r\n", a.user.c_str(), D->pid * 0 + -1); exp += "@R"; log += "@R"; } else { exp += "@I"; log += "@I"; } } }
    }
    bool rs = has(exp, "@") || has(log, "@");
    seg_enum(a.c, wire, maxcuts); S g = d[0].take();
    /* typed data follows the order of typing; a data byte typed before a toggle within one segment is still subject to the rights at the end of that segment for the daemon that batches reads, so rights changes are compared only in separate segments (see in_rights); here the whole is compared when no toggle occurred */
    bool toggled = has(wire, "\xff""M");
    if (!toggled && type != PROCESS && !has(wire, "\xff""D")) REQUIRE(g == want, "%s console received %s", devname[type], firstdiff(g, want).c_str());
    if (!toggled) { S x = g, y = want; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); REQUIRE(x == y, "%s console received %s", devname[type], firstdiff(g, want).c_str());
        int n = type == TELNET ? (int)(d[0].trx.cmds.size() - ncmd0) : type == SERIAL ? ti->breaks : type == IPMI ? d[0].ctx()->breaks : brk; if (type == UNIX || type == PROCESS) n = brk;
        REQUIRE(n == brk, "%s console: %d breaks generated instead of %d", devname[type], n, brk); if (type == TELNET) for (size_t i = ncmd0; i < d[0].trx.cmds.size(); i++) REQUIRE(d[0].trx.cmds[i] == "\xf3", "telnet command %02x sent instead of BREAK", (unsigned char)d[0].trx.cmds[i][0]); }
    int np = 0; for (size_t i = p0; i < W->vprocs.size(); i++) { np++; REQUIRE(W->vprocs[i]->argv.size() == 3 && W->vprocs[i]->argv[2] == "power-cycle c1", "wrong reset command run"); } REQUIRE(np == (resets ? 1 : 0), "%d reset commands run for %d requests", np, resets);
    S r = a.fresh(); if (!rs) REQUIRE(r == exp, "the client received %s", firstdiff(r, exp).c_str());
    REQUIRE(!a.closed(), "the session was closed"); expect_alive();
}
SCENARIO(esc_tokens, "C06", 0,0,0, 0,0,0, "all sequences of in-session commands and data bytes, in every segmentation, on each transport") { escapes(g_thorough ? 4 : 3, g_thorough ? 2 : 1); }
/* Data next to commands keeps its order (separate segments so no batching ambiguity). */
SCENARIO(esc_order, "C06", 0,0,0, 0,0,0, "commands and data sent one segment each: exact order at the console") {
    static const int ty[] = {UNIX, PROCESS, SERIAL, TELNET, IPMI}; int type = ty[pick(5, "transport")]; std::vector<Dev> d{Dev(type, "c1")}; boot(devs_conf(d)); d[0].up(); Client a; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); d[0].take(); S want; bool wr = true, pend = false;
    for (int i = 0; i < (g_thorough ? 7 : 5); i++) { switch (pick(5, "token")) {
        case 0: { S p = fmt("%d", i); a.c->send(p); if (pend) { pend = false; if (p == "B") break; } else if (wr) want += p; break; }
        case 1: if (pend) { pend = false; if (wr) want += "\xff"; a.c->send("\xff"); } else { pend = true; a.c->send("\xff"); } break;
        case 2: { a.c->send("D"); if (pend) { pend = false; if (wr) want += "\x7f"; } else if (wr) want += "D"; break; }
        case 3: { a.c->send("B"); if (pend) { pend = false; if (wr && type == PROCESS) want += "&B"; } else if (wr) want += "B"; break; }
        case 4: { S e = wr ? "M" : "J"; a.c->send(e); if (pend) { pend = false; wr = !wr; } else if (wr) want += e; break; } }
        settle(); }
    S g = d[0].take(); REQUIRE(g == want, "%s console received %s", devname[type], firstdiff(g, want).c_str()); expect_alive();
}
