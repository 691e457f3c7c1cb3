#include "dev.h"
static const S hello("\xff\xfd\0\xff\xfd\1\xff\xfd\3\xff\xfb\0\xff\xfb\3", 15);
static S reply(unsigned char cmd, unsigned char opt) { if (cmd == 253 && opt != 0 && opt != 3) return S("\xff\xfc") + (char)opt; if (cmd == 251 && opt != 0 && opt != 1 && opt != 3) return S("\xff\xfe") + (char)opt; return ""; }
/* All sequences of well-formed telnet items in every segmentation. */
static void items(int n, int cuts) {
    struct I { S w, d, r; }; std::vector<I> it = {{"a","a",""}, {"\xff\xff","\xff",""}, {S("\0",1),S("\0",1),""}, {"\r\n","\r\n",""}, {"\xff\xf1","",""}, {"\xff\xf9","",""}, {S("\xff\xfa\x18\x01\x00\xff\xf0",7),"",""}, {S("\xff\xfa\x1f\xff\xff\xf0\xff\xf0",8),"",""}, {"\xff\xf0","",""}, {"\xff\xfa\xff\xf0","",""}};
    for (int c : {251, 252, 253, 254}) for (int o : {0, 1, 3, 31, 255, 240}) { S w = S("\xff") + (char)c + (char)o; it.push_back({w, "", reply(c, o)}); }
    std::vector<Dev> d{Dev(TELNET, "c1")}; boot(devs_conf(d)); Client a; S h = d[0].io()->take(); REQUIRE(h == hello, "initial negotiation \"%s\"", esc(h).c_str()); REQUIRE(a.open("MONITOR", {"c1"}), "m");
    S w, data, rep; for (int i = 0; i < n; i++) { auto &x = it[pick(it.size(), "item")]; w += x.w; data += x.d; rep += x.r; }
    seg_enum(d[0].io(), w, cuts); S g = a.fresh(); REQUIRE(g == data, "\"%s\" was shown as \"%s\" instead of \"%s\"", esc(w).c_str(), esc(g).c_str(), esc(data).c_str());
    S r = d[0].io()->take(); REQUIRE(r == rep, "\"%s\" was answered \"%s\" instead of \"%s\"", esc(w).c_str(), esc(r).c_str(), esc(rep).c_str()); expect_alive();
}
SCENARIO(tel_items, "C09", 0,0,0, 0,0,0, "all sequences of telnet commands, negotiations, subnegotiations and data, cut anywhere") { items(g_thorough ? 3 : 2, g_thorough ? 2 : 2); }
/* Every option number. */
SCENARIO(tel_options, "C09", 0,0,0, 0,0,0, "every negotiation command with every option number, followed by data") {
    int c = 251 + pick(4, "cmd"), o = pick(256, "opt"); std::vector<Dev> d{Dev(TELNET, "c1")}; boot(devs_conf(d)); Client a; d[0].io()->take(); REQUIRE(a.open("MONITOR", {"c1"}), "m"); S w = S("x\xff") + (char)c + (char)o + "y"; d[0].io()->send(w); settle(); d[0].io()->send(w); settle();
    S g = a.fresh(), r = d[0].io()->take(), e = reply(c, o) + reply(c, o); REQUIRE(g == "xyxy", "shown \"%s\"", esc(g).c_str()); REQUIRE(r == e, "command %d option %d answered \"%s\" instead of \"%s\"", c, o, esc(r).c_str(), esc(e).c_str()); expect_alive();
}
/* Reference parser; defined = the stream is well formed so far. */
static S ref_data(const S &w, bool &defined) {
    S o; int st = 0; defined = true;
    for (unsigned char c : w) switch (st) {
    case 0: if (c == 255) st = 1; else o += c; break;
    case 1: if (c == 255) { o += c; st = 0; } else if (c >= 251) st = 2; else if (c == 250) st = 3; else { if (c < 240) { defined = false; return o; } st = 0; } break;
    case 2: st = 0; break;
    case 3: if (c == 255) st = 4; break;
    case 4: if (c == 255) st = 3; else if (c == 240) st = 0; else { defined = false; return o; } break; }
    return o;
}
SCENARIO(tel_subneg, "C09", 0,0,0, 0,0,0, "subnegotiations with every parameter byte, all pairs of special bytes, and lengths across the read size, cut anywhere around their ends") {
    std::vector<Dev> d{Dev(TELNET, "c1")}; boot(devs_conf(d)); Client a; d[0].io()->take(); REQUIRE(a.open("MONITOR", {"c1"}), "m"); static const unsigned char sp[] = {255, 240, 250, 251, 253, 254, 0, 13, 'a'};
    S par; int k = pick(4, "parameters"); auto add = [&](int c) { par += (char)c; if (c == 255) par += (char)c; }; if (k == 0) add(pick(256, "byte")); else if (k == 1) { add(sp[pick(9, "b1")]); add(sp[pick(9, "b2")]); } else if (k == 2) { add(sp[pick(9, "b1")]); add(sp[pick(9, "b2")]); add(sp[pick(9, "b3")]); } else par = S(8180 + pick(24, "length"), 'p');
    S w = "A\xff\xfa" + par + "\xff\xf0" + "B\xff\xff" "C"; if (k == 3) { d[0].io()->send(w); settle(); } else seg_enum(d[0].io(), w, k == 2 ? 1 : 2); S g = a.fresh(); REQUIRE(g == "AB\xff" "C", "\"%s\" was shown as \"%s\"", esc(w).c_str(), esc(g).c_str()); S r = d[0].io()->take(); REQUIRE(r.empty(), "a subnegotiation was answered \"%s\"", esc(r).c_str()); expect_alive();
}
/* Any garbage: two consoles receive the same bytes cut differently. */
SCENARIO(tel_garbage, "C09", 0,0,0, 0,0,0, "all byte strings over the special bytes: the outcome does not depend on segmentation, the daemon survives and no bytes are invented") {
    static const unsigned char al[] = {255, 250, 240, 253, 251, 254, 1, 'a', 241}; int n = g_thorough ? 6 : 5; std::vector<Dev> d{Dev(TELNET, "c1"), Dev(TELNET, "c2", 1)}; boot(devs_conf(d)); Client a, b; for (auto &x : d) x.io()->take(); REQUIRE(a.open("MONITOR", {"c1"}), "m"); REQUIRE(b.open("MONITOR", {"c2"}), "m");
    S w; for (int i = 0; i < n; i++) w += (char)al[pick(9, "byte")]; d[0].io()->send(w); settle(); for (char c : w) { d[1].io()->send(S(1, c)); settle(); }
    S g = a.fresh(), h = b.fresh(); REQUIRE(g == h, "\"%s\" is shown as \"%s\" in one piece and as \"%s\" byte by byte", esc(w).c_str(), esc(g).c_str(), esc(h).c_str()); S r = d[0].io()->take(), q = d[1].io()->take(); REQUIRE(r == q, "\"%s\" is answered differently byte by byte", esc(w).c_str());
    bool def; S ref = ref_data(w, def); REQUIRE(def ? g == ref : g.compare(0, ref.size(), ref) == 0, "\"%s\" is shown as \"%s\" instead of \"%s\"", esc(w).c_str(), esc(g).c_str(), esc(ref).c_str());
    size_t j = 0; for (char c : g) { while (j < w.size() && w[j] != c) j++; REQUIRE(j < w.size(), "\"%s\" is shown as \"%s\"", esc(w).c_str(), esc(g).c_str()); j++; } expect_alive();
}
/* A connection lost in the middle of a command does not affect the next one. */
SCENARIO(tel_reconnect, "C09", 0,0,0, 0,0,0, "a connection lost at every byte of a command sequence: the next connection starts clean and negotiates anew") {
    S w("ab\xff\xfd\x1f\xff\xfa\x18\x01\xff\xff\x02\xff\xf0\xff\xffzz\xff\xfb\x22", 21); int k = pick(w.size() + 1, "bytes before the loss"), how = pick(2, "reset"); std::vector<Dev> d{Dev(TELNET, "c1")}; boot(devs_conf(d)); Client a; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); advance(20); d[0].io()->send(w.substr(0, k)); settle(); a.fresh(); if (how) d[0].io()->reset(); else d[0].io()->close(); settle(); advance(16); REQUIRE(d[0].svc->conns.size() == 2, "no reconnect");
    S h = d[0].io()->take(); REQUIRE(h == hello, "negotiation after a reconnect: \"%s\"", esc(h).c_str()); d[0].io()->send("fresh\xff\xff\xff\xfd\x1f!"); settle(); S g = a.fresh(); REQUIRE(g == "fresh\xff!", "after a reconnect \"%s\" was shown", esc(g).c_str()); S r = d[0].io()->take(); REQUIRE(r == "\xff\xfc\x1f", "after a reconnect the answer was \"%s\"", esc(r).c_str()); a.type("in\xff"); settle(); r = d[0].io()->take(); REQUIRE(r == "in\xff\xff", "input after a reconnect: \"%s\"", esc(r).c_str()); expect_alive();
}
/* Negotiation interleaved with input, breaks and a stalled device. */
SCENARIO(tel_mix, "C09", 0,2,0, 0,3,0, "typed data, breaks and negotiation replies share the connection without splitting each other, with short writes anywhere") {
    std::vector<Dev> d{Dev(TELNET, "c1")}; boot(devs_conf(d)); Client a; REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); d[0].io()->take(); d[0].fault(FX_SHORTW | FX_SHORTR | FX_EAGAINW | FX_EINTR); S want;
    for (int i = 0; i < 3; i++) switch (pick(3, "event")) { case 0: a.type("d\xff"); settle(); want += "d\xff\xff"; break; case 1: a.escape("B"); settle(); want += "\xff\xf3"; break; case 2: d[0].io()->send("o\xff\xfd\x2ap"); settle(); want += "\xff\xfc\x2a"; break; }
    S g = d[0].io()->take(); REQUIRE(g == want, "the device received \"%s\" instead of \"%s\"", esc(g).c_str(), esc(want).c_str()); expect_alive();
}
