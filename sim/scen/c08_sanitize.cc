#include "dev.h"
/* Reference: what a processed log must contain for a given output stream. */
static S clean(unsigned char c) { S o; unsigned char b = c & 0x7f; if (b < 0x20) o = S(c & 0x80 ? "~" : "^") + (char)(b + '@'); else if (b == 0x7f) o = S(c & 0x80 ? "~?" : "^?"); else { if (c & 0x80) o = "`"; o += (char)b; } return o; }
static S ref(const S &s, bool san, const S &ts, bool init = true) {
    S o; size_t i = 0, n = s.size(); bool start = true;
    while (i < n) { unsigned char c = s[i];
        if (c == '\n') { if (start) o += ts; o += "\r\n"; start = true; i++; while (i < n && (s[i] == '\r' || s[i] == 0)) i++; }
        else if (c == '\r') { if (start && init) o += ts; size_t j = i + 1; while (j < n && (s[j] == '\r' || s[j] == 0)) j++; if (j == n) break; o += "\r\n"; start = true; i = j; if (s[j] == '\n') { i++; while (i < n && (s[i] == '\r' || s[i] == 0)) i++; } }
        else { if (start) o += ts; start = false; o += san ? clean(c) : S(1, c); i++; }
        init = false; }
    return o; }
static const char *optn[] = {"sanitize", "timestamp", "sanitize,timestamp", "nosanitize,notimestamp"};
static S want_for(int opt, const S &s) { return opt == 3 ? s : ref(s, opt != 1, opt == 0 ? S() : S("2023-11-14 22:13:20 ")); }
static void strings(int len, int cuts) {
    static const char al[] = {'a', '\r', '\n', 0, 1, 0x7f, (char)0x8d, (char)0xe1, (char)0xff}; int opt = pick(3, "log option"); std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; d[0].opts = fmt("logopts=\"%s\"", optn[opt]); boot(devs_conf(d)); Client a; REQUIRE(a.open("MONITOR", {"c1"}), "m");
    S b = file_data("/var/log/c1.log"), s; for (int i = 0; i < len; i++) s += al[pick(i ? 9 : 9, "byte")];
    if (cuts < 0) for (char c : s) { d[0].send(S(1, c)); settle(); } else seg_enum(d[0].io(), s, cuts);
    S l = file_data("/var/log/c1.log").substr(b.size()), w = want_for(opt, s); REQUIRE(l == w, "output \"%s\" logged (%s) as \"%s\" instead of \"%s\"", esc(s).c_str(), optn[opt], esc(l).c_str(), esc(w).c_str()); REQUIRE(a.fresh() == s, "the session received processed output");
}
SCENARIO(san_strings, "C08", 0,0,0, 0,0,0, "all strings over an alphabet of byte classes, in every segmentation") { strings(g_thorough ? 5 : 4, g_thorough ? 2 : 1); }
SCENARIO(san_bytewise, "C08", 0,0,0, 0,0,0, "all strings over an alphabet of byte classes, one byte at a time") { strings(g_thorough ? 6 : 4, -1); }
SCENARIO(san_bytes, "C08", 0,0,0, 0,0,0, "every byte value in every line position, all option combinations including the global ones") {
    int opt = pick(4, "option"), glob = pick(2, "given globally"), v = pick(256, "byte"); std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; if (!glob) d[0].opts = fmt("logopts=\"%s\"", optn[opt]); boot(devs_conf(d, glob ? fmt("global logopts=\"%s\"\n", optn[opt]) : S(opt == 3 ? "global logopts=\"sanitize,timestamp\"\n" : ""))); S b = file_data("/var/log/c1.log");
    S c(1, (char)v), s = "x" + c + "y\n" + c + "z" + c + c + "\r" + c + "\r\n" + c + "end\n"; d[0].send(s); settle(); S l = file_data("/var/log/c1.log").substr(b.size()), w = want_for(opt, s); REQUIRE(l == w, "byte 0x%02x logged (%s): %s", v, optn[opt], firstdiff(l, w).c_str()); expect_alive();
}
/* Information records interrupt lines; timestamps follow the clock. */
SCENARIO(san_info, "C08", 0,0,0, 0,0,0, "processed logs with information records and clock changes between any pieces of output") {
    static const char *pc[] = {"ab", "\r", "\n", "c\r\n", "\r\r\nd"}; int opt = pick(3, "option"); std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; d[0].opts = fmt("logopts=\"%s\"", optn[opt]); boot(devs_conf(d)); S w = file_data("/var/log/c1.log"); Client a; S seg; int k = 0;
    /* output between two records is one stream; each byte's timestamp is that of its line's start */
    bool init = true; int sec = 20; struct St { bool pend = false; } st; std::vector<std::pair<S,S>> parts; S acc; S tsv = "2023-11-14 22:13:20 ";
    for (int i = 0; i < (g_thorough ? 5 : 4); i++) { int o = pick(6, "event"); if (o < 5) { d[0].send(pc[o]); settle(); acc += pc[o]; }
        else { w += opt == 3 ? acc : ref(acc, opt != 1, opt == 0 ? S() : tsv); acc = ""; if (k++ % 2 == 0) { REQUIRE(a.open("CONNECT", {"c1"}, "QUIET"), "c"); w += "\r\n<ConMan> Console [c1] joined by <" + a.user + "@cli> on pts/0 at 11-14 22:13.\r\n"; } else { a.c->close(); settle(); w += "\r\n<ConMan> Console [c1] departed by <" + a.user + "@cli> on pts/0 at 11-14 22:13.\r\n"; a = Client(); }
            advance(5); sec += 5; tsv = fmt("2023-11-14 22:13:%02d ", sec); } }
    w += ref(acc, opt != 1, opt == 0 ? S() : tsv); S l = file_data("/var/log/c1.log"); REQUIRE(l == w, "%s log: %s", optn[opt], firstdiff(l, w).c_str()); expect_alive(); (void)init; (void)st; (void)seg;
}
/* Processing makes data grow: nothing may be lost however large the growth. */
SCENARIO(san_growth, "C08", 0,0,0, 0,0,0, "bursts that grow by any factor when processed, alone or after an information record, are logged completely") {
    static const char *unit[] = {"\x01", "\n", "ab\n", "\r\n", "\xff", "0123456789\r\n", "a\r"}; static const int n[] = {1, 700, 4096, 8178, 8179, 8180, 8191, 16383, 30000}; int opt = pick(3, "option"), u = pick(7, "unit"), s = pick(9, "size"), pre = pick(2, "record pending");
    std::vector<Dev> d{Dev(UNIX, "c1")}; d[0].log = "c1.log"; d[0].opts = fmt("logopts=\"%s\"", optn[opt]); boot(devs_conf(d)); S b = file_data("/var/log/c1.log"), p; while ((int)p.size() < n[s]) p += unit[u]; p.resize(n[s]); S w; Client a;
    if (pre) { a.begin("CONNECT", {"c1"}, "QUIET"); w = "\r\n<ConMan> Console [c1] joined by <" + a.user + "@cli> on pts/0 at 11-14 22:13.\r\n"; settle(); }
    d[0].send(p); settle(); w += want_for(opt, p); S l = file_data("/var/log/c1.log").substr(b.size()); REQUIRE(l == w, "%d bytes of output logged (%s): %s", n[s], optn[opt], firstdiff(l, w).c_str()); expect_alive();
}
