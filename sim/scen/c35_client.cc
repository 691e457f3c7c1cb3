#include "cli.h"
/* The client turns options, environment and files into exactly the intended request. */
struct Req { S verb; std::vector<S> opts, names; S user, tty; bool ok = true; };
static S undo(S s) { for (auto &c : s) c &= 0x7f; return s; }
/* independent reading of a protocol line: VERB (KEY=VALUE)*, a value being 'text' (high bit marks quotes) or a word */
static Req parse(const S &l) { Req r; size_t i = 0; auto word = [&]{ S w; while (i < l.size() && (isalnum((unsigned char)l[i]) || l[i] == '_') && (unsigned char)l[i] < 128) w += l[i++]; return w; };
    r.ok = !l.empty() && l.back() == '\n' && l.find('\n') == l.size() - 1; r.verb = word(); while (r.ok && i < l.size() && l[i] != '\n') { if (l[i] == ' ') { i++; continue; } S k = word(), v; if (k.empty() || l[i] != '=') { r.ok = false; break; } i++; if (l[i] == '\'' || l[i] == '"') { char q = l[i++]; while (i < l.size() && l[i] != q) { if (l[i] == '\n' || l[i] == '\r') r.ok = false; v += l[i++]; } if (i >= l.size()) { r.ok = false; break; } i++; v = undo(v); } else v = word();
        if (k == "OPTION") r.opts.push_back(v); else if (k == "CONSOLE") r.names.push_back(v); else if (k == "USER") r.user = v; else if (k == "TTY") r.tty = v; else r.ok = false; } std::sort(r.opts.begin(), r.opts.end()); return r; }
static S said(Cli &c) { c.show(); return c.p->out + c.seen; }
static S show(const std::vector<S> &v) { S o; for (auto &x : v) o += "[" + esc(x) + "]"; return o; }
struct Want { bool b = 0, f = 0, j = 0, Q = 0, r = 0, help = 0; S verb = "CONNECT", log; std::vector<S> names; };
static std::vector<S> commas(const S &a) { std::vector<S> o; S c; for (char x : a + ",") if (x == ',') { if (!c.empty()) o.push_back(c); c.clear(); } else c += x; return o; }
/* what the request must be, by the manual */
static Want meaning(const std::vector<S> &args, const std::map<S, std::vector<S>> &files) { Want w; std::vector<S> pos; for (size_t i = 0; i < args.size(); i++) { const S &a = args[i]; if (a.size() < 2 || a[0] != '-') { pos.push_back(a); continue; } 
        for (size_t k = 1; k < a.size(); k++) { char c = a[k]; if (c == 'b') w.b = 1; if (c == 'f') w.f = 1, w.j = 0; if (c == 'j') w.j = 1, w.f = 0; if (c == 'm') w.verb = "MONITOR"; if (c == 'q') w.verb = "QUERY"; if (c == 'Q') w.Q = 1; if (c == 'r') w.r = 1; if (c == 'h') w.help = 1;
            if (c == 'F' || c == 'l') { S v = k + 1 < a.size() ? a.substr(k + 1) : args[++i]; if (c == 'l') w.log = v; else for (auto &n : files.at(v)) w.names.push_back(n); break; } } }
    for (auto &p : pos) for (auto &n : commas(p)) w.names.push_back(n); if (w.verb != "CONNECT") w.b = w.f = w.j = 0; if (w.verb != "QUERY" && w.names.empty()) w.help = 1; return w; }
static void judge(Cli &c, const Want &w, const S &what) { REQUIRE(w.names.empty() == false || w.verb == "QUERY" || w.help, "scenario"); settle();
    if (w.help) { REQUIRE(!c.s() && c.p->exited && c.p->code == 0 && said(c).find("Usage: conman") == 0 && c.p->err.empty(), "%s: no help: exited %d, status %d, \"%s\", \"%s\"%s", what.c_str(), c.p->exited, c.p->code, esc(said(c).substr(0, 30)).c_str(), esc(c.p->err).c_str(), c.s() ? ", connected" : ""); return; }
    c.handshake("OK CONSOLE='c1'"); Req h = parse(c.hello), r = parse(c.req); REQUIRE(h.ok && h.verb == "HELLO" && h.user == "tester" && h.tty == "pts/9", "%s: the greeting is \"%s\"", what.c_str(), esc(c.hello).c_str());
    std::vector<S> o; if (w.b) o.push_back("BROADCAST"); if (w.f) o.push_back("FORCE"); if (w.j) o.push_back("JOIN"); if (w.Q) o.push_back("QUIET"); if (w.r) o.push_back("REGEX");
    REQUIRE(r.ok && r.verb == w.verb && r.opts == o && r.names == w.names, "%s: the request is \"%s\", not %s with options %s and names %s", what.c_str(), esc(c.req).c_str(), w.verb.c_str(), show(o).c_str(), show(w.names).c_str());
    if (w.verb == "QUERY") { REQUIRE(c.s()->app_closed() || c.s()->from->wclosed, "%s: a query does not end its half of the connection", what.c_str()); } }
static S joined(const std::vector<S> &a) { S o = "conman"; for (auto &x : a) o += " " + x; return esc(o); }
SCENARIO(cli_options, "C35", 0,0,0, 0,0,0, "all sequences of up to 3 (thorough 4) of 17 option units (flags, clusters, files, logs, names between options) x 4 name lists: verb, options, names in order, help, session log") {
    static const std::vector<std::vector<S>> U = {{"-b"}, {"-f"}, {"-j"}, {"-m"}, {"-q"}, {"-Q"}, {"-r"}, {"-v"}, {"-fj"}, {"-Qrjf"}, {"-F", "/tmp/n"}, {"-qF/tmp/n"}, {"-l", "/tmp/log"}, {"-mbl/tmp/log2"}, {"c1"}, {"x,y,,"}, {","}};
    static const std::vector<std::vector<S>> N = {{}, {"c1"}, {"c[12]*", ",b"}, {"z,a,z", "b"}}; std::vector<S> a; int n = pick(g_thorough ? 5 : 4, "units"); for (int i = 0; i < n; i++) for (auto &s : U[pick(U.size(), "unit")]) a.push_back(s); for (auto &s : N[pick(N.size(), "names")]) a.push_back(s);
    Cli c; c.term(); c.server(); mk_dir("/tmp"); put_file("/tmp/n", "n1\n# c\n n2 \n"); Want w = meaning(a, {{"/tmp/n", {"n1", "n2"}}}); c.run(a); judge(c, w, joined(a)); if (!w.help && w.verb == "QUERY") { c.s()->close(); settle(); REQUIRE(c.p->exited && c.p->code == 0 && c.p->out + c.show() == "c1\n", "%s: the query shows \"%s\" (status %d, %s)", joined(a).c_str(), esc(c.p->out + c.seen).c_str(), c.p->code, c.p->err.c_str()); } else if (!w.help) { c.s()->send("hello"); settle(); REQUIRE(has(c.show(), "opened.\r\nhello"), "no session: \"%s\" %s", esc(c.seen).c_str(), c.p->err.c_str()); }
    for (S l : {"/tmp/log", "/tmp/log2"}) { S d = get_ino(l) ? file_data(l) : ""; if (w.log == l && !w.help) REQUIRE(has(d, w.verb == "QUERY" ? "c1\n" : "hello"), "%s: the session log has \"%s\"", joined(a).c_str(), esc(d).c_str()); else REQUIRE(!get_ino(l), "%s: %s is created", joined(a).c_str(), l.c_str()); } outcome(fmt("%s %d%d%d%d%d %zu %d", w.verb.c_str(), w.b, w.f, w.j, w.Q, w.r, w.names.size(), w.help)); }
/* host[:port] specifications; a valid port is 1..65535 */
static bool num(const S &s, int &v) { if (s.empty()) return false; for (char c : s) if (!isdigit((unsigned char)c)) return false; v = atoi(s.c_str()); return s.size() < 6 && v >= 1 && v <= 65535; }
SCENARIO(cli_server, "C35", 0,0,0, 0,0,0, "all combinations of 10 values of CONMAN_HOST, 7 of CONMAN_PORT and 15 of -d (given once, twice or not): the server and port connected to, the command line first, invalid values never taken for another port") {
    static const char *H[] = {0, "", "h1", "h1:1001", ":1001", "h1:", "h1:abc", "h1:0", "h1:70000", "h1:65535"}, *P[] = {0, "", "1002", "0", "abc", "70000", "65536"}, *D[] = {0, "h2", "h2:1003", ":1003", "h2:", "h2:65535", "h2:1", ":", "10.0.0.2:1003", "h2:0", "h2:65536", "h2:70000", ":abc", "h2:4294974300", "h2:-1"};
    const char *h = H[pick(10, "host")], *p = P[pick(7, "port")]; int nd = pick(3, "times") ; std::vector<const char*> ds; for (int i = 0; i < (nd == 2 ? 2 : 1); i++) { int k = pick(nd == 2 ? 5 : 15, "destination"); ds.push_back(D[k]); if (nd == 1) break; if (nd == 0) { ds = {D[k]}; break; } } if (nd == 0 && ds[0]) return;
    if (h) setenv("CONMAN_HOST", h, 1); if (p) setenv("CONMAN_PORT", p, 1); Cli c; c.term(); W->hosts["h1"] = "10.0.0.1"; W->hosts["h2"] = "10.0.0.2"; std::map<S, Service*> sv; S got; for (S ip : {"127.0.0.1", "10.0.0.1", "10.0.0.2"}) for (int port : {7890, 1001, 1002, 1003, 1, 65535, 4464, 0, 7004}) { auto s = tcp_service(fmt("%s:%d", ip.c_str(), port), ip, port); sv[s->name] = s; }
    c.server(); S wip = "127.0.0.1"; int wport = 7890, v; bool bad = false; auto take = [&](const S &s, bool cmd) { size_t k = s.find(':'); S n = s.substr(0, k); if (!n.empty()) wip = n == "h1" ? "10.0.0.1" : "10.0.0.2"; if (k != S::npos) { S q = s.substr(k + 1); if (num(q, v)) wport = v; else if (cmd && !q.empty()) bad = true; } };
    if (h) take(h, false); if (p && num(p, v)) wport = v; std::vector<S> a; for (auto d : ds) if (d) { take(d, true); a.push_back("-d"); a.push_back(d); } a.push_back("c1"); c.run(a); settle(); for (auto &x : W->services) if (!x->conns.empty()) got += fmt("%s ", x->name == "srv" ? "127.0.0.1:7890" : x->name.c_str());
    S what = fmt("CONMAN_HOST=%s CONMAN_PORT=%s %s", h ? h : "(unset)", p ? p : "(unset)", joined(a).c_str());
    if (bad) REQUIRE(got.empty() && c.p->exited && c.p->code > 0 && !c.p->err.empty(), "%s: the invalid port is not refused: connects to \"%s\", status %d, \"%s\"", what.c_str(), got.c_str(), c.p->code, esc(c.p->err).c_str()); else REQUIRE(got == fmt("%s:%d ", wip.c_str(), wport), "%s: connects to \"%s\" instead of %s:%d (%s)", what.c_str(), got.c_str(), wip.c_str(), wport, c.p->err.c_str()); outcome(got); }
static const char NC[] = "ab '\"\\#=,\t%[*;{-\x7f\x01";
static S text(int n, const char *al, const char *tag) { S t; int k = strlen(al); for (int i = 0; i < n; i++) t += al[pick(k, tag)]; return t; }
SCENARIO(cli_names, "C35", 0,0,0, 0,0,0, "all names up to 3 characters (thorough 4) over 18 special characters, alone and between others, on the command line: every name arrives intact and in order") {
    S t = text(1 + pick(g_thorough ? 4 : 3, "length"), NC, "char"); int k = pick(2, "place"); Cli c; c.term(); c.server(); std::vector<S> a = {"--"}; if (k) a.push_back("first"); a.push_back(t); if (k) a.push_back("la'st"); Want w; for (size_t i = 1; i < a.size(); i++) for (auto &n : commas(a[i])) w.names.push_back(n); w.help = w.names.empty(); c.run(a); judge(c, w, joined(a)); outcome(fmt("%zu", w.names.size())); }
static std::vector<S> file_names(const S &d) { std::vector<S> o; S l; auto end = [&]{ size_t i = 0, j = l.size(); while (i < j && isspace((unsigned char)l[i])) i++; while (j > i && isspace((unsigned char)l[j-1])) j--; if (j > i && l[i] != '#') o.push_back(l.substr(i, j - i)); l.clear(); }; for (char c : d) if (c == '\n') end(); else l += c; end(); return o; }
SCENARIO(cli_file, "C35", 0,0,0, 0,0,0, "all name files of up to 4 (thorough 5) units (letters, quotes, commas, blanks, comments, empty lines, CR, lines of 1022 to 5000 characters, missing final newline), read once or twice, with and without names on the command line: names in order, blanks and comments ignored") {
    static const std::vector<S> U = {"a", "b'", ",", " ", "\t", "#", "\n", "\r\n", S(1022, ' '), "#" + S(1022, 'x'), "#" + S(5000, 'y'), "\nname "}; int n = 1 + pick(g_thorough ? 5 : 4, "units"); S d; for (int i = 0; i < n; i++) d += U[pick(U.size(), "unit")]; int k = pick(3, "use"); Cli c; c.term(); c.server(); mk_dir("/tmp"); put_file("/tmp/n", d); std::vector<S> a = {"-F", "/tmp/n"}; Want w; w.names = file_names(d); if (k == 1) a.push_back("c1"), w.names.push_back("c1"); if (k == 2) { a = {"-F", "/tmp/n", "x", "-F/tmp/n"}; auto t = w.names; for (auto &x : t) w.names.push_back(x); w.names.push_back("x"); }
    w.help = w.names.empty(); c.run(a); judge(c, w, "file \"" + esc(d.substr(0, 300)) + "\"" + joined(a)); outcome(fmt("%zu", w.names.size())); }
SCENARIO(cli_invalid, "C35", 0,0,0, 0,0,0, "every option character (all 255, with and without others around it), missing arguments, help, license and version at every position: refused with a message, or shown, without contacting any server") {
    int ch = 1 + pick(255, "option"), pos = pick(4, "place"); S o(1, (char)ch); if (ch == ':' || ch == '-') return; static const S flags = "bfjmqQrv", info = "hLV", arg = "deFl"; std::vector<S> a; if (pos == 0) a = {"-" + o, "c1"}; if (pos == 1) a = {"c1", "-Qr" + o}; if (pos == 2) a = {"-b", "c1", "-" + o + "m"}; if (pos == 3) a = {"-" + o}; Cli c; c.term(); c.server(); c.run(a); settle(); bool isarg = arg.find(o) != S::npos, argok = (pos == 0 || pos == 2);
    if (flags.find(o) != S::npos) { if (pos == 3 && ch != 'q') REQUIRE(c.p->exited && c.p->code == 0 && has(said(c), "Usage"), "no help"); else REQUIRE(c.s() && !c.p->exited, "option %s: no request is made", esc(o).c_str()); }
    else if (info.find(o) != S::npos) { REQUIRE(!c.s() && c.p->exited && c.p->code == 0 && has(said(c), ch == 'h' ? "Usage" : ch == 'V' ? "conman-" : "GNU General Public License"), "option %c: status %d, \"%s\"", ch, c.p->code, esc(said(c).substr(0, 50)).c_str()); if (ch == 'h') for (char x : "bdefFhjlLmqQrvV") if (x) REQUIRE(has(said(c), fmt("\n  -%c ", x)), "the help does not mention -%c", x); }
    else if (isarg && argok) ; else REQUIRE(!c.s() && c.p->exited && c.p->code > 0 && !c.p->err.empty() && !c.p->killed_by, "option \"%s\" is not refused: status %d, \"%s\"%s", esc(o).c_str(), c.p->code, esc(c.p->err).c_str(), c.s() ? ", connected" : ""); outcome(fmt("%d %d", c.p->exited, c.p->code)); }
SCENARIO(cli_nolog, "C35", 0,0,0, 0,0,0, "a session log (-l) that cannot be opened for 4 reasons or is fine (new, old content kept) x request kinds x forms of the option: refused with a message and status, the terminal untouched and no console attached, or logged after what the file held") {
    int why = pick(6, "reason"), kind = pick(4, "kind"), form = pick(2, "form"); Cli c; c.term(); c.server(); mk_dir("/tmp"); S f = "/tmp/l"; switch (why) { case 0: f = "/no/dir/l"; break; case 1: mk_dir("/tmp/l"); break; case 2: put_file(f, "x"); W->open_hook = [](const S &p, int) { return p == "/tmp/l" ? EACCES : 0; }; break; case 3: W->open_hook = [](const S &p, int) { return p == "/tmp/l" ? EMFILE : 0; }; break; case 5: put_file(f, "old\n"); break; }
    std::vector<S> a; if (form) a = {"-l" + f}; else a = {"-l", f}; if (kind) a.push_back(kind == 1 ? "-m" : kind == 2 ? "-q" : "-b"); a.push_back("c1"); c.run(a); settle();
    if (why < 4) { REQUIRE(c.p->exited && c.p->code > 0 && !c.p->killed_by && has(c.p->err, f), "log %s cannot be opened (%d): %s, status %d, \"%s\"", f.c_str(), why, c.p->exited ? "ended" : "runs on", c.p->code, esc(c.p->err).c_str()); REQUIRE(c.restored() && c.p->out.empty() && c.show().empty(), "log cannot be opened: the terminal is changed or written to"); if (c.s()) { S l = c.s()->take(); REQUIRE(!has(l, "CONSOLE="), "a session is requested although its log cannot be opened"); } if (why == 2) REQUIRE(file_data(f) == "x", "the file is changed"); outcome(fmt("%d", why)); return; }
    REQUIRE(!c.p->exited && c.s(), "does not run: %s", c.p->err.c_str()); c.handshake("OK CONSOLE='c1'"); settle(); S d = file_data(f); REQUIRE((why == 5 ? d.compare(0, 4, "old\n") == 0 : 1) && has(d.substr(why == 5 ? 4 : 0), "Log started"), "the log holds \"%s\"", esc(d).c_str()); REQUIRE(!(get_ino(f)->mode & 077) || why == 5, "the log can be read by others"); if (kind < 2) { c.s()->send("console text"); settle(); REQUIRE(has(file_data(f), "console text"), "console output is not logged"); } outcome(fmt("%d %d", why, kind)); }
SCENARIO(cli_escape, "C35", 0,0,0, 0,0,0, "all combinations of 9 values of CONMAN_ESCAPE and of -e: the escape character in effect, and only it, is acted upon") {
    static const char *E[] = {0, "", "&", "%", "^x", "\x1d", "\xfe", "a", "\x7f"}; int i = pick(9, "environment"), j = pick(9, "option"); if (j == 1) j = 0; if (E[i]) setenv("CONMAN_ESCAPE", E[i], 1); char e = j ? E[j][0] : i > 1 ? E[i][0] : '&'; Cli c; c.term(); c.server(); std::vector<S> a; if (j) a = {S("-e") + E[j]}; a.push_back("c1"); c.run(a); c.handshake("OK CONSOLE='c1'"); S all; for (auto x : E) if (x && *x && *x != e) all += S(1, *x) + "."; c.tty->send(all); settle(); S net = c.s()->take(); REQUIRE(net == all, "escape %s: typing \"%s\" sends \"%s\"", esc(S(1, e)).c_str(), esc(all).c_str(), esc(net).c_str()); c.tty->send(S(1, e) + "."); settle(); REQUIRE(c.s()->from->wclosed, "escape %s is not acted upon", esc(S(1, e)).c_str()); c.s()->close(); settle(); REQUIRE(c.p->exited && c.p->code == 0, "status %d", c.p->code); outcome(esc(S(1, e))); }
/* the protocol's encoding of a text */
static S qt(const S &s) { return "'" + quote(s) + "'"; }
SCENARIO(cli_query, "C35", 0,0,0, 0,0,0, "query answers of 0 to 3 (thorough 4) of 9 names, unknown words between, cut in two at every position: the names on standard output and in the log, one per line, in order") {
    static const std::vector<S> U = {"c1", "a b", "it's", "\"", "#x", "c=1,2", "CONSOLE", "\\", "x\ty"}; int n = pick(g_thorough ? 5 : 4, "names"); S l = "OK", want; int noise = pick(2, "noise"); for (int i = 0; i < n; i++) { const S &u = U[pick(U.size(), "name")]; l += " CONSOLE=" + qt(u); if (noise) l += " FUTURE='x' -7"; want += u + "\n"; } l += "\n"; int cut = n > 2 ? 3 : pick(l.size() + 1, "cut"); Cli c; c.term(); c.server(); mk_dir("/tmp"); c.run({"-q", "-l", "/tmp/l"}); settle(); c.s()->send("OK\n"); settle(); c.s()->take(); c.s()->send(l.substr(0, cut)); settle(); c.s()->send(l.substr(cut)); settle(); c.s()->close(); settle(); S o = c.p->out + c.show();
    REQUIRE(c.p->exited && c.p->code == 0 && o == want && c.p->err.empty(), "answer \"%s\" is shown as \"%s\" (status %d, %s)", esc(l).c_str(), esc(o).c_str(), c.p->code, c.p->err.c_str()); S d = file_data("/tmp/l"); REQUIRE(has(d, "Log started at") && has(d, ".\r\n" + want + "\r\n<ConMan> Log finished"), "the log has \"%s\"", esc(d).c_str()); outcome(fmt("%d", n)); }
SCENARIO(cli_error, "C35", 0,0,0, 0,0,0, "all error codes 0..8 and absurd ones x 5 messages x details or none x request kinds x stage, with a log: message, details and hint shown on standard error and logged, status failing, terminal untouched") {
    int code = pick(11, "code"), m = pick(5, "message"), det = pick(3, "details"), kind = pick(6, "kind"), st = pick(2, "stage"); if (code == 9) code = 99; if (code == 10) code = 2147483647; static const std::vector<S> M = {"Found 2 consoles", "can't \"x\"", "", "#", S(900, 'm')}; static const std::vector<std::vector<S>> K = {{"c1"}, {"-b", "c1"}, {"-f", "c1"}, {"-j", "c1"}, {"-m", "c1"}, {"-q", "c1"}}; std::vector<S> a = {"-l", "/tmp/l"}; for (auto &x : K[kind]) a.push_back(x); Cli c; c.term(); c.server(); mk_dir("/tmp"); c.run(a); settle(); if (st) { c.s()->take(); c.s()->send("OK\n"); settle(); } S d = det == 0 ? S() : det == 1 ? S("console [c1] open R/W\n") : pattern(9000, 3); c.s()->send(fmt("ERROR CODE=%d MESSAGE=", code) + qt(M[m]) + "\n" + d); settle(); c.s()->close(); settle();
    if (code > 0 && code < 9) { S h = code == 6 && kind != 1 ? "\nDo you want to broadcast (-b) to multiple consoles?\n\n" : code == 7 && kind != 2 && kind != 3 ? "\nDo you want to force (-f) or join (-j) the connection?\n\n" : ""; S e = "ERROR: " + (M[m].empty() ? S("Unspecified") : M[m]) + ".\n\n" + (code == 1 || (code == 4 && !st) ? S() : d) + h; REQUIRE(c.p->err == e, "error %d: shown as \"%s\" instead of \"%s\"", code, esc(c.p->err).c_str(), esc(e).c_str()); REQUIRE(has(file_data("/tmp/l"), e), "error %d: the log has \"%s\"", code, esc(file_data("/tmp/l")).c_str()); }
    REQUIRE(c.p->exited && c.p->code > 0 && !c.p->killed_by && has(c.p->err, "ERROR: "), "error %d: status %d, \"%s\"", code, c.p->code, esc(c.p->err).c_str()); REQUIRE(c.restored() && c.show().empty() && c.p->out.empty(), "error %d: the terminal is touched", code); outcome(fmt("%d %d", code, c.p->code)); }
SCENARIO(cli_identity, "C35", 0,0,0, 0,0,0, "all combinations of login name, USER and LOGNAME (unset, own, another user's, unknown, an alias of the own id) and of standard input being a terminal or not: the greeting names the user whose id runs the client") {
    static const char *V[] = {0, "tester", "root", "ghost", "alias"}; W->users = {{"alias", 1000}, {"root", 0}, {"tester", 1000}}; const char *v[3]; for (int i = 0; i < 3; i++) v[i] = V[pick(5, "name")]; W->login = v[0] ? v[0] : ""; if (v[1]) setenv("USER", v[1], 1); else unsetenv("USER"); if (v[2]) setenv("LOGNAME", v[2], 1); else unsetenv("LOGNAME"); int known = pick(2, "known"); if (!known) W->users.erase("tester"), W->users.erase("alias"); bool isatty = pick(2, "terminal"); Cli c; c.server(); if (isatty) c.term(); else g_tty_fds = 0; c.p = start_proc("conman", isatty ? cli_main : conman_main, {"conman", "-q", "c1"}); settle();
    const char *first = v[0] ? v[0] : v[1] ? v[1] : v[2]; S want = first && S(first) == "tester" ? "tester" : "alias"; if (!known) { REQUIRE(!c.s() && c.p->exited && c.p->code > 0 && has(c.p->err, "1000"), "unknown user: status %d, \"%s\"", c.p->code, esc(c.p->err).c_str()); return; }
    REQUIRE(c.s(), "no connection: %s", c.p->err.c_str()); S l = c.s()->take(); Req h = parse(l); REQUIRE(h.ok && h.verb == "HELLO" && h.user == want && h.tty == (isatty ? "pts/9" : ""), "login %s USER=%s LOGNAME=%s: the greeting is \"%s\"", v[0] ? v[0] : "-", v[1] ? v[1] : "-", v[2] ? v[2] : "-", esc(l).c_str()); outcome(want); }
