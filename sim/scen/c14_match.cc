/* C14: which consoles a request selects and how it is answered. */
#include "dev.h"
/* An independent matcher for shell patterns. */
static bool glob(const char *p, const char *s) {
    if (!*p) return !*s;
    if (*p == '*') { for (;; s++) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    if (!*s) return false;
    if (*p == '?') return glob(p + 1, s + 1);
    if (*p == '\\') return p[1] && p[1] == *s && glob(p + 2, s + 1);
    if (*p == '[') { const char *q = p + 1; bool neg = *q == '!'; if (neg) q++; bool hit = false; const char *first = q;
        while (*q && (*q != ']' || q == first)) { if (q[1] == '-' && q[2] && q[2] != ']') { if (*q <= *s && *s <= q[2]) hit = true; q += 3; } else { if (*q == *s) hit = true; q++; } }
        if (*q == ']') return hit != neg && glob(q + 1, s + 1); }
    return *p == *s && glob(p + 1, s + 1);
}
/* An independent matcher for the extended regular expressions used here: the set of positions reachable in the name. */
struct Re { const S &p; size_t i = 0; const S &s; bool bad = false;
    typedef std::set<size_t> Set;
    static bool eq(char a, char b) { return tolower((unsigned char)a) == tolower((unsigned char)b); }
    size_t end_atom(size_t k) { if (p[k] == '\\') return k + 2; if (p[k] == '[') { k++; if (p[k] == '^') k++; if (p[k] == ']') k++; while (k < p.size() && p[k] != ']') k++; return k + 1; } if (p[k] == '(') { int d = 0; for (; k < p.size(); k++) { if (p[k] == '(') d++; else if (p[k] == ')' && !--d) return k + 1; } return k; } return k + 1; }
    Set atom(size_t a, size_t b, const Set &from) {
        if (p[a] == '(') return alt(a + 1, b - 1, from);
        Set o; for (size_t x : from) {
            if (p[a] == '^') { if (x == 0) o.insert(x); continue; } if (p[a] == '$') { if (x == s.size()) o.insert(x); continue; }
            if (x >= s.size()) continue; bool m = false;
            if (p[a] == '.') m = true; else if (p[a] == '\\') m = eq(p[a + 1], s[x]);
            else if (p[a] == '[') { size_t k = a + 1; bool neg = p[k] == '^'; if (neg) k++; bool h = false; for (size_t f = k; k < b - 1 || k == f; ) { if (k + 2 < b - 1 && p[k + 1] == '-') { for (int c = p[k]; c <= p[k + 2]; c++) if (eq(c, s[x])) h = true; k += 3; } else { if (eq(p[k], s[x])) h = true; k++; } } m = h != neg; }
            else m = eq(p[a], s[x]);
            if (m) o.insert(x + 1); }
        return o; }
    Set seq(size_t a, size_t b, Set cur) {
        while (a < b) { size_t e = end_atom(a); char q = e < b ? p[e] : 0;
            if (q == '*' || q == '+' || q == '?') { Set n = atom(a, e, cur); if (q == '?') n.insert(cur.begin(), cur.end()); else { Set acc = n; for (;;) { Set m = atom(a, e, acc); size_t c = acc.size(); acc.insert(m.begin(), m.end()); if (acc.size() == c) break; } if (q == '*') acc.insert(cur.begin(), cur.end()); n = acc; } cur = n; a = e + 1; }
            else { cur = atom(a, e, cur); a = e; } }
        return cur; }
    Set alt(size_t a, size_t b, const Set &from) { Set o; int d = 0; size_t st = a; for (size_t k = a; k <= b; ) { if (k == b || (p[k] == '|' && !d)) { Set n = seq(st, k, from); o.insert(n.begin(), n.end()); st = k + 1; if (k == b) break; k++; continue; } k = p[k] == '(' ? end_atom(k) : p[k] == '[' || p[k] == '\\' ? end_atom(k) : k + 1; } return o; }
    bool full() { Set r = alt(0, p.size(), {0}); return r.count(s.size()); }
};
static bool bad_re(const S &p) { return p == "[a" || p == "(a" || p == "*(" || p == "a{2"; }
static bool rex(const S &p, const S &s) { Re r{p, 0, s}; return r.full(); }
/* names by value of their trailing number, otherwise by character */
static bool name_less(const S &a, const S &b) {
    size_t i = a.size(), j = b.size(); while (i && isdigit((unsigned char)a[i-1])) i--; while (j && isdigit((unsigned char)b[j-1])) j--;
    if (i == j && a.substr(0, i) == b.substr(0, j) && i < a.size() && j < b.size()) return atoi(a.c_str() + i) < atoi(b.c_str() + j);
    return a < b; }
struct Setup { std::vector<S> names; std::vector<Service*> svc; S resetcmd;
    void start(std::vector<S> n, const S &tail = "") { names = n; S conf = "server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\n" + tail;
        for (size_t i = 0; i < n.size(); i++) { S path = fmt("/run/s%zu", i); svc.push_back(unix_service(n[i], path)); bool sq = n[i].find('"') != S::npos; conf += fmt("console name=%c%s%c dev=\"unix:%s\"\n", sq ? '\'' : '"', n[i].c_str(), sq ? '\'' : '"', path.c_str()); }
        boot(conf); expect_alive(); }
    Conn *io(const S &n) { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return svc[i]->cur(); return nullptr; }
};
static S enc(const S &s) { S o; for (char c : s) o += c == '\'' || c == '"' ? (char)(c | 0x80) : c; return o; }
/* Sends one request exactly as the documented protocol prescribes and checks the whole answer and the resulting session. */
static const char *CM[] = {"QUERY", "MONITOR", "CONNECT"};
static void ask(Setup &u, int cmd, const std::vector<S> &pats, bool regex, bool bc, const S &opt, const std::map<S, S> &busy) {
    std::vector<S> sel; bool bad = false;
    if (regex) for (auto &p : pats) if (bad_re(p)) bad = true;
    for (auto &n : u.names) { bool m = cmd == 0 && pats.empty(); if (!bad) for (auto &p : pats) if (regex ? rex(p, n) : glob(p.c_str(), n.c_str())) m = true; if (m) sel.push_back(n); }
    std::sort(sel.begin(), sel.end(), name_less);
    Client c; c.user = "asker"; c.c = dial(PORT); REQUIRE(c.c, "connection refused");
    S l = "HELLO USER='asker' TTY='pts/5'\n" + S(CM[cmd]); if (regex) l += " OPTION=REGEX"; if (bc) l += " OPTION=BROADCAST"; if (!opt.empty()) l += " OPTION=" + opt; for (auto &p : pats) l += " CONSOLE='" + enc(p) + "'"; l += "\n";
    c.c->send(l); settle(); expect_alive(); S got = c.c->take(), want = "OK\n"; int code = 0; S msg; std::vector<S> lines; std::multiset<S> extra;
    bool force = opt == "FORCE" || opt == "JOIN";
    std::vector<S> bz; if (cmd == 2 && !force) for (auto &n : sel) if (busy.count(n)) bz.push_back(n);
    if (bad && !(cmd != 0 && pats.empty())) code = 3;
    else if (sel.empty()) { code = 5; msg = "Found no matching consoles"; }
    else if (sel.size() > 1 && (cmd == 1 || (cmd == 2 && !bc))) { code = 6; msg = fmt("Found %zu matching consoles", sel.size()); for (auto &n : sel) lines.push_back(n + "\n"); }
    else if (!bz.empty()) { code = 7; msg = bz.size() == 1 ? "Found console already in use" : fmt("Found %zu consoles already in use", bz.size()); for (auto &n : bz) { S x = busy.at(n); size_t i = 0; while (i < x.size()) { size_t j = x.find('\n', i); lines.push_back(x.substr(i, j - i + 1)); i = j + 1; } } }
    if (!code) { want += "OK" + u.resetcmd; for (auto &n : sel) want += " CONSOLE='" + enc(n) + "'"; want += "\n"; }
    else if (code == 3) { size_t k = got.find("MESSAGE='"); want += "ERROR CODE=3 MESSAGE='"; REQUIRE(k != S::npos && got.size() > k + 11, "no explanation: \"%s\"", esc(got).c_str()); want = got.compare(0, want.size(), want) ? want : got.substr(0, got.find('\n', 4) + 1); }
    else { want += fmt("ERROR CODE=%d MESSAGE='%s'\n", code, msg.c_str()); for (auto &x : lines) want += x; }
    S d = strip_info(got); if (!code && cmd == 2 && opt == "FORCE") d = strip_info(got.substr(0, got.size()));
    REQUIRE(d == want, "%s %s[%s]%s%s answered \"%s\" instead of \"%s\"", CM[cmd], regex ? "regex " : "", [&]{ S x; for (auto &p : pats) x += p + " "; return x; }().c_str(), bc ? " broadcast" : "", opt.empty() ? "" : (" " + opt).c_str(), esc(d).c_str(), esc(want).c_str());
    if (code || cmd == 0) REQUIRE(c.c->app_closed(), "the connection stays open after %s", code ? "a refusal" : "a query");
    else { REQUIRE(!c.c->app_closed(), "session closed");
        for (auto &n : u.names) u.io(n)->take(); c.type("K"); settle();
        for (auto &n : u.names) { S g = u.io(n)->take(), w = cmd == 2 && std::count(sel.begin(), sel.end(), n) ? "K" : ""; REQUIRE(g == w, "console [%s] received \"%s\" from a session with [%s]", n.c_str(), esc(g).c_str(), sel[0].c_str()); }
        for (auto &n : u.names) u.io(n)->send("<" + n + ">"); settle(); S o = strip_info(c.c->take()), w = bc && sel.size() > 1 ? "" : "<" + sel[0] + ">"; REQUIRE(o == w, "the session with [%s] shows \"%s\"", sel[0].c_str(), esc(o).c_str()); }
    c.c->close(); settle(); outcome(fmt("%d/%zu", code, sel.size()));
}
static std::vector<S> order(std::vector<S> n, int k) { if (k == 1) std::reverse(n.begin(), n.end()); if (k == 2) std::rotate(n.begin(), n.begin() + n.size() / 2, n.end()); if (k == 3) { std::vector<S> o; for (size_t i = 0; i < n.size(); i += 2) o.push_back(n[i]); for (size_t i = 1; i < n.size(); i += 2) o.push_back(n[i]); n = o; } return n; }
static const std::vector<S> NAMES = {"a", "a1", "a2", "a10", "ab", "b", "b.c", "A3"};
static const char *GP[] = {"a", "a1", "a*", "a?", "*", "?", "[ab]", "[!a]*", "a[0-9]", "a1*", "b.c", "b?c", "\\a", "A*", "", "zz", "*1*", "[a", ".*", "a]"};
static const char *RP[] = {"a", "a1", "a.*", "a.", ".*", ".", "[ab]", "[^a].*", "a[0-9]+", "a1?", "b.c", "b\\.c", "a|ab", "ab|a", "(a|b)", "^a$", "b", "zz", "[a", "(a", "a|b", "(a1|a)0?", "A.*", "1", "x*"};
SCENARIO(match_globs, "C14", 0,0,0, 0,0,0, "one or two shell patterns out of 20 against 8 names, every command, several orders of definition") {
    Setup u; u.start(order(NAMES, pick(g_thorough ? 4 : 2, "order"))); int cmd = pick(3, "command"); bool bc = cmd == 2 && pick(2, "broadcast"); int i = pick(20, "pattern"), j = pick(21, "pattern"); std::vector<S> p{GP[i]}; if (j < 20) p.push_back(GP[j]);
    std::vector<S> eff; for (auto &x : p) if (!x.empty()) eff.push_back(x);   /* an empty name is no name */
    if (eff.size() != p.size()) { Setup &v = u; (void)v; } ask(u, cmd, eff.empty() ? std::vector<S>{} : eff, false, bc, "", {});
}
SCENARIO(match_regex, "C14", 0,0,0, 0,0,0, "one or two regular expressions out of 25 against 8 names, every command") {
    Setup u; u.start(order(NAMES, pick(g_thorough ? 4 : 2, "order"))); int cmd = pick(3, "command"); bool bc = cmd == 2 && pick(2, "broadcast"); int i = pick(26, "pattern"), j = pick(26, "pattern"); std::vector<S> p; if (i < 25) p.push_back(RP[i]); if (j < 25) p.push_back(RP[j]);
    ask(u, cmd, p, true, bc, "", {});
}
SCENARIO(match_busy, "C14", 0,0,0, 0,0,0, "requests while consoles are in use by writers, joined writers and broadcasters, for every command and option") {
    Setup u; u.resetcmd = pick(2, "reset command") ? " OPTION=RESET" : ""; u.start({"a10", "a2", "a1"}, u.resetcmd.empty() ? "" : "server resetcmd=\"/bin/reset %N\"\n");
    std::map<S, S> busy; std::deque<Client> ws; double t[4] = {}; std::vector<S> order{"a1", "a2", "a10"};
    auto hold = [&](const std::vector<S> &cons, const S &opt, const S &tty) { ws.emplace_back(); Client &w = ws.back(); w.user = fmt("w%zu", ws.size()); w.tty = tty; REQUIRE(w.open("CONNECT", cons, opt), "holder refused: %s", esc(w.raw).c_str()); for (auto &c : cons) busy[c] += fmt("Console [%s] open %s by <%s@cli>%s%s (idle ", c.c_str(), cons.size() > 1 ? "B/C" : "R/W", w.user.c_str(), tty.empty() ? "" : " on ", tty.c_str()) + "@" + fmt("%zu", ws.size()) + ").\n"; };
    for (int k = 0; k < 3; k++) switch (pick(3, "holder")) { case 1: hold({order[k]}, "JOIN", k ? "pts/2" : "ttyS0"); break; case 2: if (k < 2) hold({order[k], order[k + 1]}, "BROADCAST,JOIN", "pts/3"); break; default: continue; }
    int idle = pick(3, "idle"); advance(idle == 0 ? 0 : idle == 1 ? 125 : 90061); if (!ws.empty() && pick(2, "typed")) { ws[0].type("x"); settle(); t[1] = tnow(); }
    S full = idle == 0 ? "0s" : idle == 1 ? "2m5s" : "1d1h1m1s"; (void)t;
    for (auto &b : busy) for (size_t i = 1; i <= ws.size(); i++) for (size_t k; (k = b.second.find(fmt("@%zu)", i))) != S::npos; ) b.second.replace(k, 2, i == 1 && t[1] > 0 ? "0s" : full);
    int cmd = pick(3, "command"), o = pick(3, "option"); bool bc = pick(2, "broadcast"); static const std::vector<S> PP[] = {{"a1"}, {"a2"}, {"a10"}, {"a*"}, {"a1", "a10"}, {}};
    ask(u, cmd, PP[pick(6, "names")], false, bc, o == 1 ? "FORCE" : o == 2 ? "JOIN" : "", busy);
}
SCENARIO(match_names, "C14", 0,0,0, 0,0,0, "names with quotes, blanks, punctuation and keywords are selected by exactly themselves") {
    std::vector<S> N = {"it's", "say\"hi", "two words", "CONSOLE", "a,b", "-x", "x=y", "#1", "tab\tname", "b\\s", "p%c", "a.b+c", S(300, 'n')};
    Setup u; u.start(N); int i = pick(N.size(), "name"), cmd = pick(3, "command"); bool rx = pick(2, "regex"); S p; for (char c : N[i]) { if (strchr(".+*?[](){}|^$", c) && rx) p += '\\'; if (c == '\\') p += '\\'; p += c; }
    ask(u, cmd, {p}, rx, false, "", {});
}
