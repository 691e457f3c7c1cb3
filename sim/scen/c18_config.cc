#include "dev.h"
#include <fcntl.h>
#include <functional>
#include <ipmiconsole.h>
#include <sys/resource.h>
/* An independent reading of the configuration: every catalogue line carries its meaning next to its text. */
struct ISer { int bps = 9600, db = 8, par = 0, sb = 1; };
struct IIpmi { S user, pass, kg; int priv = -1, cipher = -1; unsigned flags = IPMICONSOLE_WORKAROUND_DEFAULT; };
struct ICon { S name; int type = UNIX; S where; std::vector<S> argv; bool ka = true; ISer ser; IIpmi ipmi; S log; bool san = false, ts = false, lock = true, maybe = false; int port = 0; };
struct ICfg {
    S cwd = "/home/op", logdir = "/home/op", glog, execpath, pid; bool ka = true, loop = true, san = false, ts = false, lock = true; ISer ser; IIpmi ipmi; int port = 7890, nofile = 0; bool core = false; std::vector<ICon> cons; std::vector<int> errs; bool portset = false, pidset = false;
    void err(int l) { errs.push_back(l); }
    S abs(const S &p, const S &dir) const { return p[0] == '/' ? p : dir + "/" + p; }
};
static S clean(S s) { for (auto &c : s) if (c <= ' ' || c > '~' || c == '/') c = '_'; return s; }
static S expand(const S &f, const ICon &c) { S o; for (size_t i = 0; i < f.size(); i++) if (f[i] == '%' && i + 1 < f.size()) { char k = f[++i]; if (k == 'N') o += clean(c.name); else if (k == 'D') { if (c.type == TELNET) o += clean(c.where + fmt(":%d", c.port)); else if (c.type == UNIX || c.type == SERIAL) o += clean(c.where.substr(c.where.rfind('/') + 1)); } else if (k == '%') o += '%'; else if (k == 'Y') o += "2023"; else { o += '%'; o += k; } } else o += f[i]; return o; }
struct IOpt { S log = "\1", lopts; ISer ser; bool hasser = false; std::function<void(IIpmi&)> ipmi; };
static void lopts(const S &s, bool &san, bool &ts, bool &lock) { size_t i = 0; while (i <= s.size()) { size_t j = s.find(',', i); if (j == S::npos) j = s.size(); S t = s.substr(i, j - i); if (t == "sanitize") san = true; if (t == "nosanitize") san = false; if (t == "timestamp") ts = true; if (t == "notimestamp") ts = false; if (t == "lock") lock = true; if (t == "nolock") lock = false; i = j + 1; } }
static void add(ICfg &g, int line, ICon c, const IOpt &o = IOpt()) {
    for (auto &x : g.cons) { if (x.name == c.name) { g.err(line); return; } if (x.type == c.type && x.where == c.where && (c.type == UNIX || c.type == SERIAL || c.type == IPMI)) { g.err(line); return; } }
    c.ka = g.ka; c.ser = o.hasser ? o.ser : g.ser; c.ipmi = g.ipmi; if (o.ipmi) o.ipmi(c.ipmi); c.san = g.san; c.ts = g.ts; c.lock = g.lock; lopts(o.lopts, c.san, c.ts, c.lock);
    S l = o.log == "\1" ? g.glog : o.log; if (!l.empty()) { c.log = expand(g.abs(l, g.logdir), c); for (auto &x : g.cons) if (x.log == c.log) { g.err(line); c.log = ""; c.maybe = true; break; } }
    g.cons.push_back(c);
}
static ICon unix_(const S &n, const S &p) { ICon c; c.name = n; c.type = UNIX; c.where = p; return c; }
static ICon tel_(const S &n, const S &h, int p) { ICon c; c.name = n; c.type = TELNET; c.where = h; c.port = p; return c; }
static ICon ser_(const S &n, const S &p) { ICon c; c.name = n; c.type = SERIAL; c.where = p; return c; }
static ICon ipmi_(const S &n, const S &h) { ICon c; c.name = n; c.type = IPMI; c.where = h; return c; }
static ICon proc_(const S &n, std::vector<S> a) { ICon c; c.name = n; c.type = PROCESS; c.argv = a; return c; }
static S find_prog(const ICfg &g, const S &p) { size_t i = 0; while (i < g.execpath.size()) { size_t j = g.execpath.find(':', i); if (j == S::npos) j = g.execpath.size(); S f = g.execpath.substr(i, j - i) + "/" + p; InoP n = get_ino(f); if (n && (n->mode & 0111)) return f; i = j + 1; } return g.cwd + "/" + p; }
typedef std::function<void(ICfg&, int)> Eff;
struct Line { const char *t; Eff e; bool core; };
#define E(...) [](ICfg &g, int l) { (void)g; (void)l; __VA_ARGS__; }
#define ERR [](ICfg &g, int l) { g.err(l); }
static const std::vector<Line> &catalogue() {
    static const std::vector<Line> v = {
    {"", E(), true},
    {"# comment \" ' server port=1", E(), false},
    {"server", E(), false},
    {"server keepalive=off", E(g.ka = false), true},
    {"server keepalive=on", E(g.ka = true), false},
    {"server keepalive=off bogus=1 loopback=off", E(g.ka = false; g.err(l)), true},
    {"server keepalive=perhaps", ERR, false},
    {"server loopback=off", E(g.loop = false), true},
    {"server loopback=on keepalive=off", E(g.loop = true; g.ka = false), false},
    {"server loopback=off port=-1 keepalive=off", E(g.loop = false; g.err(l)), false},
    {"server port=7891", E(if (!g.portset) g.port = 7891; g.portset = true), true},
    {"server port=70000", ERR, false},
    {"server port=\"7891\"", ERR, false},
    {"server port 7891", ERR, true},
    {"server logdir=\"/var/l2\"", E(g.logdir = "/var/l2"), true},
    {"server logdir='logs'", E(g.logdir = "/home/op/logs"), true},
    {"server logdir=\"\"", E(g.logdir = g.cwd), false},
    {"server logdir=5", ERR, false},
    {"server execpath=\"/opt/none:/opt/x:/opt/y\"", E(g.execpath = "/opt/none:/opt/x:/opt/y"), true},
    {"server execpath=\"/opt/y::/opt/x\"", E(g.execpath = "/opt/y::/opt/x"), false},
    {"server execpath=\"\"", E(g.execpath = ""), false},
    {"server execpath=5", ERR, false},
    {"server pidfile=\"/run/a.pid\"", E(if (!g.pidset) g.pid = "/run/a.pid"; g.pidset = true), false},
    {"server nofile=99", E(g.nofile = 99), false},
    {"server nofile=-1", E(g.nofile = -1), false},
    {"server coredump=on coredumpdir=\"/nowhere\"", E(g.core = true; g.err(l)), false},
    {"server coredump=on coredumpdir=\"/tmp\"", E(g.core = true), false},
    {"server name=\"x\"", ERR, false},
    {"server syslog=\"nonsense\"", ERR, false},
    {"server tcpwrappers=5", ERR, false},
    {"server resetcmd=\"\"", ERR, false},
    {"global", E(), false},
    {"global log=\"%N.log\"", E(g.glog = "%N.log"), true},
    {"global log=\"/var/g/%D/%%x.%Y%q\"", E(g.glog = "/var/g/%D/%%x.%Y%q"), true},
    {"global log=\"\"", E(g.glog = ""), true},
    {"global log=\"plain\"", ERR, true},
    {"global logopts=\"sanitize\"", E(g.san = true), true},
    {"global logopts=\"timestamp,nolock\"", E(g.ts = true; g.lock = false), true},
    {"global logopts=\"SANITIZE, notimestamp ,whatever;lock\"", E(g.san = true; g.ts = false; g.lock = true), false},
    {"global logopts=\"\" log=\"%N\"", ERR, false},
    {"global log=\"%N.x\" logopts=\"nosanitize\" seropts=\"2400,6o2\"", E(g.glog = "%N.x"; g.san = false; g.ser = {2400, 6, 1, 2}), false},
    {"global seropts=\"19200,7e2\"", E(g.ser = {19200, 7, 2, 2}), true},
    {"global seropts=\"19200,9n1\" log=\"%N.z\"", ERR, false},
    {"global ipmiopts=\"U:joe,p:pw,L:op,C:3\"", E(g.ipmi.user = "joe"; g.ipmi.pass = "pw"; g.ipmi.priv = IPMICONSOLE_PRIVILEGE_OPERATOR; g.ipmi.cipher = 3), true},
    {"global ipmiopts=\"ann,secret,key\"", E(g.ipmi.user = "ann"; g.ipmi.pass = "secret"; g.ipmi.kg = "key"), false},
    {"global ipmiopts=\"U:joe,U:0123456789abcdefg\"", ERR, false},
    {"global ipmiopts=\"U:joe,Z:1\"", ERR, true},
    {"global log=5", ERR, false},
    {"global logopts=5", ERR, false},
    {"global seropts=9600", ERR, false},
    {"global ipmiopts=12", ERR, false},
    {"global testopts=5", ERR, false},
    {"global seropts=\"\"", ERR, false},
    {"console name=5 dev=\"unix:/run/ag\"", ERR, false},
    {"console name=\"ag\" dev=5", ERR, false},
    {"console name=\"ag\" dev=\"unix:/run/ag\" log=5", ERR, false},
    {"console name=\"ag\" dev=\"unix:/run/ag\" logopts=5", ERR, false},
    {"console name=\"ag\" dev=\"/dev/ttyag\" seropts=9600", ERR, false},
    {"console name=\"ag\" dev=\"ipmi:ag\" ipmiopts=12", ERR, false},
    {"global bogus", ERR, false},
    {"frobnicate console name=\"zz\" dev=\"unix:/run/zz\"", ERR, true},
    {"= 5 \"", ERR, false},
    {"\"unterminated", ERR, false},
    {"console name=\"a0\" dev=\"unix:/run/a0\"", E(add(g, l, unix_("a0", "/run/a0"))), true},
    {"console dev='unix:rel/a1' log=\"a1.own\" name=a1 logopts=\"sanitize,notimestamp\"", E(IOpt o; o.log = "a1.own"; o.lopts = "sanitize,notimestamp"; add(g, l, unix_("a1", "/home/op/rel/a1"), o)), true},
    {"console name=\"a 2/x\" dev=\"unix:/run/a2\" log=\"\"", E(IOpt o; o.log = ""; add(g, l, unix_("a 2/x", "/run/a2"), o)), true},
    {"console name=\"a3\" dev=\"unix:/run/a0\"", E(add(g, l, unix_("a3", "/run/a0"))), true},
    {"console name=\"a4\" dev=\"unix:/run/%N\" log=\"%Nb\"", E(IOpt o; o.log = "%Nb"; add(g, l, unix_("a4", "/run/a4"), o)), true},
    {"console name=\"a5\" dev=\"unix:/run/a5\" log=\"a4b\"", E(IOpt o; o.log = "a4b"; add(g, l, unix_("a5", "/run/a5"), o)), true},
    {"console name=\"a6\" dev=\"tsa6:2001\" log=\"/var/x/a6\" logopts=\"timestamp\"", E(IOpt o; o.log = "/var/x/a6"; o.lopts = "timestamp"; add(g, l, tel_("a6", "tsa6", 2001), o)), true},
    {"console name=\"a7\" dev=\"tsa6:2001\"", E(add(g, l, tel_("a7", "tsa6", 2001))), false},
    {"console name=\"a8\" dev=\"tsa6:0\"", ERR, false},
    {"console name=\"a8\" dev=\"tsa6:70000\"", ERR, true},
    {"console name=\"a9\" dev=\"/dev/ttya9\" seropts=\"300\"", E(IOpt o; o.ser = g.ser; o.ser.bps = 300; o.hasser = true; add(g, l, ser_("a9", "/dev/ttya9"), o)), true},
    {"console name=\"aa\" dev=\"/dev/ttya9\" log=\"aa\"", E(IOpt o; o.log = "aa"; add(g, l, ser_("aa", "/dev/ttya9"), o)), false},
    {"console name=\"aa\" dev=\"/dev/ttyaa\" seropts=\"fast\"", ERR, false},
    {"console name=\"ab\" dev=\"ipmi:bmcab\" ipmiopts=\"U:sue,L:admin,W:sun20,W:solport\"", E(IOpt o; o.ipmi = [](IIpmi &i) { i.user = "sue"; i.priv = IPMICONSOLE_PRIVILEGE_ADMIN; i.flags = IPMICONSOLE_WORKAROUND_SUN_2_0_SESSION | IPMICONSOLE_WORKAROUND_IGNORE_SOL_PORT; }; add(g, l, ipmi_("ab", "bmcab"), o)), true},
    {"console name=\"ac\" dev=\"ipmi:bmcab\" ipmiopts=\"K:0x4a4B\"", E(IOpt o; o.ipmi = [](IIpmi &i) { i.kg = "JK"; }; add(g, l, ipmi_("ac", "bmcab"), o)), false},
    {"console name=\"ad\" dev=\"ipmi:bmcad\" ipmiopts=\"C:x\"", ERR, false},
    {"console name=\"ae\" dev=\"only.x one %N/%N\"", E(S p = find_prog(g, "only.x"); if (!get_ino(p)) g.err(l); else add(g, l, proc_("ae", {p, "one", "ae/ae"}))), true},
    {"console name=\"af\" dev=\"./p.prog\"", E(add(g, l, proc_("af", {"/home/op/./p.prog"}))), false},
    {"console name=\"ag\" dev=\"/opt/x/noexec\"", ERR, false},
    {"console name=\"ag\" dev=\"/no/such\"", ERR, true},
    {"console name=\"ag\" dev=\"\"", ERR, false},
    {"console name=\"ag\" dev=\"unix:/run/ag extra\"", ERR, false},
    {"console name=\"ag\"", ERR, true},
    {"console dev=\"unix:/run/ag\"", ERR, false},
    {"console name=\"ag\" dev=\"unix:/run/ag\" port=5", ERR, false},
    {"console name=\"ag\" dev=\"unix:/run/ag\" log=\"x", ERR, false},
    {"console name=\"ag\" dev=\"unix:/run/ag", ERR, true},
    {"console name=on dev=\"unix:/run/ag\"", ERR, false},
    {"console name=\"u0\" dev=\"unix:/run/other\"", E(add(g, l, unix_("u0", "/run/other"))), true},
    {"console name=\"b1\" dev=\"unix:/run/u0\" name=\"b2\"", E(add(g, l, unix_("b2", "/run/u0"))), true},
    };
    return v;
}
static void setup_world() {
    mk_dir("/home"); mk_dir("/home/op"); mk_dir("/tmp"); mk_dir("/opt"); mk_dir("/opt/x"); mk_dir("/opt/y"); put_file("/opt/x/p.prog", "", 0755); put_file("/opt/y/p.prog", "", 0755); put_file("/home/op/p.prog", "", 0755); put_file("/opt/x/only.x", "", 0755); put_file("/opt/x/noexec", "", 0644);
    for (auto p : {"/run/a0", "/home/op/rel/a1", "/run/a2", "/run/a4", "/run/a5", "/run/other", "/run/u0"}) unix_service(p, p);
    W->hosts["tsa6"] = "10.0.1.6"; tcp_service("tsa6", "10.0.1.6", 2001); W->hosts["tst0"] = "10.0.1.7"; tcp_service("tst0", "10.0.1.7", 2001); for (auto p : {"/dev/ttya9", "/dev/ttyaa", "/dev/ttys0"}) W->serial[p] = put_tty(p);
}
static void launch(const S &conf, const std::vector<S> &av, int forks = 0) { ref_port = 7890; put_file("/etc/conman.conf", conf); W->hosts["cli.host"] = "10.9.9.9"; W->fork_mode = forks; D = start_proc("conmand", conmand_main, av); D->cwd = "/home/op"; settle(); }
static std::vector<int> reported(const S &e, const S &file) { std::vector<int> v; S k = "CONFIG[" + file + ":"; for (size_t i = e.find(k); i != S::npos; i = e.find(k, i + 1)) v.push_back(atoi(e.c_str() + i + k.size())); return v; }
static S ints(const std::vector<int> &v) { S s; for (int i : v) s += fmt("%d ", i); return s; }
static const int supp[] = {50,75,110,134,150,200,300,600,1200,1800,2400,4800,9600,19200,38400,57600,115200,230400,460800};
static const speed_t supb[] = {B50,B75,B110,B134,B150,B200,B300,B600,B1200,B1800,B2400,B4800,B9600,B19200,B38400,B57600,B115200,B230400,B460800};
static Service *svc_of(const ICon &c) { for (auto s : W->services) if ((c.type == UNIX && s->upath == c.where) || (c.type == TELNET && s->name == c.where)) return s; return nullptr; }
static S norm(S p) { for (size_t i; (i = p.find("//")) != S::npos; ) p.erase(i, 1); for (size_t i; (i = p.find("/./")) != S::npos; ) p.erase(i, 2); return p; }
/* what the running daemon does is what the configuration says */
static void verify(const ICfg &g, const std::map<S, InoP> &before, const S &text) {
    auto rep = reported(D->err + D->out, "/etc/conman.conf"); REQUIRE(rep == g.errs, "errors are reported for lines %s instead of %s in:\n%s\n%s", ints(rep).c_str(), ints(g.errs).c_str(), text.c_str(), esc(D->err).c_str());
    bool sure = false; for (auto &c : g.cons) sure |= !c.maybe; if (g.cons.empty()) { REQUIRE(D->exited && D->code == 1 && has(D->err, "no consoles defined"), "a configuration without consoles does not fail"); return; } if (!sure) return;
    expect_alive(); REQUIRE(is_listening(g.port, "127.0.0.1"), "not listening on port %d:\n%s", g.port, text.c_str()); REQUIRE(is_listening(g.port, "10.2.2.2") == !g.loop, "loopback is %s, yet port %d is %sreachable from outside:\n%s", g.loop ? "on" : "off", g.port, g.loop ? "" : "not ", text.c_str()); for (int p : {7890, 7891, 4464}) if (p != g.port) REQUIRE(!is_listening(p, "127.0.0.1"), "listening on port %d:\n%s", p, text.c_str());
    ref_port = g.port; Client q; REQUIRE(q.open("QUERY", {}), "query: %s", esc(q.raw).c_str()); std::set<S> listed; for (size_t i = q.raw.find("CONSOLE='"); i != S::npos; i = q.raw.find("CONSOLE='", i)) { i += 9; size_t j = q.raw.find('\'', i); S n = q.raw.substr(i, j - i); for (auto &ch : n) ch &= 0x7f; REQUIRE(listed.insert(n).second, "[%s] is listed twice", n.c_str()); }
    std::set<S> known; for (auto &c : g.cons) { known.insert(c.name); if (!c.maybe) REQUIRE(listed.count(c.name), "console [%s] is not offered:\n%s", c.name.c_str(), text.c_str()); } for (auto &n : listed) REQUIRE(known.count(n), "an unknown console [%s] is offered:\n%s", n.c_str(), text.c_str());
    Conn *k = dial(g.port); REQUIRE(k, "no"); settle(); for (auto &x : D->fds) if (x && x->type == F_SOCK && x->conn == k) { auto it = x->opts.find({SOL_SOCKET, SO_KEEPALIVE}); REQUIRE((it != x->opts.end() && it->second) == g.ka, "keep-alives of a client are %s:\n%s", g.ka ? "off" : "on", text.c_str()); } k->close(); settle();
    if (g.nofile > 0) REQUIRE(W->rlim.count(RLIMIT_NOFILE) && W->rlim[RLIMIT_NOFILE].first == g.nofile, "nofile=%d is not in effect", g.nofile); else if (g.nofile < 0) REQUIRE(W->rlim.count(RLIMIT_NOFILE) && W->rlim[RLIMIT_NOFILE].first == 4096, "nofile=-1 is not in effect"); else REQUIRE(W->nofile == 1024, "the descriptor limit changed");
    REQUIRE(W->rlim.count(RLIMIT_CORE) && (W->rlim[RLIMIT_CORE].first == 0) == !g.core, "core dumps are %s:\n%s", g.core ? "off" : "on", text.c_str());
    /* devices */
    std::map<Service*, int> nsvc; int nproc = 0, nipmi = 0; std::map<S, int> ntty;
    std::map<S, Conn*> io; std::map<Service*, size_t> used; size_t pu = 0;
    for (auto &c : g.cons) { switch (c.type) {
        case UNIX: case TELNET: { Service *s = svc_of(c); REQUIRE(s, "harness: no service for %s", c.where.c_str()); size_t n = used[s]++; if (c.maybe && s->conns.size() <= n) break; REQUIRE(s->conns.size() > n, "console [%s] is not connected to %s:\n%s", c.name.c_str(), c.where.c_str(), text.c_str()); io[c.name] = s->conns[n]; nsvc[s]++;
            if (c.type == TELNET) { auto &o = s->conns[n]->app->opts; auto it = o.find({SOL_SOCKET, SO_KEEPALIVE}); REQUIRE((it != o.end() && it->second) == c.ka, "console [%s]: keep-alives are %s:\n%s", c.name.c_str(), c.ka ? "off" : "on", text.c_str()); s->conns[n]->take(); } break; }
        case PROCESS: { VProc *v = nullptr; for (size_t i = 0; i < W->vprocs.size(); i++) if (W->vprocs[i]->argv == c.argv) { v = W->vprocs[i]; pu++; } REQUIRE(v && v->path == norm(c.argv[0]), "console [%s]: its program %s is not running:\n%s", c.name.c_str(), c.argv[0].c_str(), text.c_str()); io[c.name] = v->io; nproc++; break; }
        case SERIAL: { InoP n = get_ino(c.where); REQUIRE(n->tty_opens == 1, "console [%s]: %s was opened %d times:\n%s", c.name.c_str(), c.where.c_str(), n->tty_opens, text.c_str()); speed_t b = 0; for (int i = 0; i < 19; i++) if (supp[i] <= c.ser.bps) b = supb[i]; static const tcflag_t cs[] = {CS5, CS6, CS7, CS8}; auto &t = n->tio; ntty[c.where] = 1;
            REQUIRE(cfgetospeed(&t) == b && (t.c_cflag & CSIZE) == cs[c.ser.db - 5] && !(t.c_cflag & PARENB) == !c.ser.par && (!c.ser.par || !(t.c_cflag & PARODD) == (c.ser.par == 2)) && !(t.c_cflag & CSTOPB) == (c.ser.sb == 1), "console [%s]: the line is not set to %d,%d%c%d:\n%s", c.name.c_str(), c.ser.bps, c.ser.db, "noe"[c.ser.par], c.ser.sb, text.c_str()); io[c.name] = W->serial[c.where]; break; }
        case IPMI: { IpmiCtx *x = nullptr; int m = 0; for (auto y : ipmi_ctxs) if (y->host == c.where && y->submitted) { x = y; m++; } REQUIRE(m == 1, "console [%s]: %d sessions with %s:\n%s", c.name.c_str(), m, c.where.c_str(), text.c_str()); nipmi++;
            REQUIRE(x->user == c.ipmi.user && x->pass == c.ipmi.pass && x->kg == c.ipmi.kg && x->priv == c.ipmi.priv && x->cipher == c.ipmi.cipher && x->flags == c.ipmi.flags, "console [%s]: session options user=%s pass=%s kg=%s priv=%d cipher=%d flags=%x:\n%s", c.name.c_str(), x->user.c_str(), x->pass.c_str(), x->kg.c_str(), x->priv, x->cipher, x->flags, text.c_str()); ipmi_complete(x, true, 0); settle(); io[c.name] = x->io; break; }
    } }
    for (auto s : W->services) { int maybe = 0; for (auto &c : g.cons) if (c.maybe && svc_of(c) == s) maybe++; REQUIRE((int)s->conns.size() == nsvc[s] || ((int)s->conns.size() < nsvc[s] + maybe), "%s is connected %zu times instead of %d:\n%s", s->name.c_str(), s->conns.size(), nsvc[s], text.c_str()); }
    REQUIRE((int)W->vprocs.size() == nproc, "%zu programs run instead of %d:\n%s", W->vprocs.size(), nproc, text.c_str()); int ni = 0; for (auto y : ipmi_ctxs) ni += y->submitted; REQUIRE(ni == nipmi, "ipmi sessions:\n%s", text.c_str()); for (auto p : {"/dev/ttya9", "/dev/ttyaa", "/dev/ttys0"}) if (!ntty.count(p)) REQUIRE(get_ino(p)->tty_opens == 0, "%s was opened:\n%s", p, text.c_str());
    /* logs */
    for (auto &c : g.cons) if (io.count(c.name) && io[c.name]) io[c.name]->send(c.name + "\x01!\r\n"); settle();
    std::map<S, const ICon*> logs; for (auto &c : g.cons) if (!c.log.empty()) logs[c.log] = &c;
    std::set<S> want; for (auto &l : logs) { S p = norm(l.first); want.insert(p); InoP n = get_ino(p); REQUIRE(n && n->type == 'r', "console [%s] is not logged to %s:\n%s", l.second->name.c_str(), p.c_str(), text.c_str()); const ICon &c = *l.second; S d = n->data; REQUIRE(d.compare(0, opened_msg(c.name).size(), opened_msg(c.name)) == 0, "%s does not start with the console's message: %s", p.c_str(), esc(d).c_str());
        S ln = c.name + (c.san ? "^A" : "\x01") + "!\r\n", st = "2023-11-14 22:13:20 "; REQUIRE(has(d, (c.ts ? st : S()) + ln) && (c.ts || !has(d, st + ln)), "%s (sanitize=%d timestamp=%d) contains %s:\n%s", p.c_str(), c.san, c.ts, esc(d).c_str(), text.c_str());
        REQUIRE(count_sub(d, "!\r\n") == 1, "%s holds output of other consoles: %s\n%s", p.c_str(), esc(d).c_str(), text.c_str()); REQUIRE(n->locks.count(D->pid) == (size_t)c.lock, "%s is %slocked:\n%s", p.c_str(), c.lock ? "not " : "", text.c_str()); }
    if (!g.pid.empty()) { want.insert(norm(g.pid)); REQUIRE(file_data(norm(g.pid)) == fmt("%d\n", D->pid), "pid file %s: %s", g.pid.c_str(), esc(file_data(norm(g.pid))).c_str()); }
    for (auto &f : W->vfs) if (f.second->type == 'r' && !before.count(f.first)) REQUIRE(want.count(f.first), "an unexpected file %s was created:\n%s", f.first.c_str(), text.c_str());
}
static const char *tail_text[] = {"console name=\"u0\" dev=\"unix:/run/u0\"", "console name=\"t0\" dev=\"tst0:2001\"", "console name=\"p0\" dev=\"p.prog -a %N\"", "console name=\"s0\" dev=\"/dev/ttys0\"", "console name=\"i0\" dev=\"ipmi:bmci0\""};
static void tail_eff(ICfg &g, int i, int l) { switch (i) { case 0: add(g, l, unix_("u0", "/run/u0")); break; case 1: add(g, l, tel_("t0", "tst0", 2001)); break; case 2: add(g, l, proc_("p0", {find_prog(g, "p.prog"), "-a", "p0"})); break; case 3: add(g, l, ser_("s0", "/dev/ttys0")); break; default: add(g, l, ipmi_("i0", "bmci0")); } }
static void run_lines(const std::vector<const Line*> &ls, bool tail) {
    setup_world(); ICfg g; S text; int n = 1; for (auto l : ls) { text += S(l->t) + "\n"; l->e(g, n++); } if (tail) for (int i = 0; i < 5; i++) { text += S(tail_text[i]) + "\n"; tail_eff(g, i, n++); }
    auto before = W->vfs; before["/etc/conman.conf"] = nullptr; launch(text, {"conmand", "-F", "-c", "/etc/conman.conf"}); verify(g, before, text); S o = ints(g.errs) + fmt("%d %d %zu", g.port, g.ka, g.cons.size()); for (auto &c : g.cons) o += c.log + fmt("%d%d%d", c.san, c.ts, c.lock); outcome(o);
}
SCENARIO(conf_pairs, "C18", 0,0,0, 0,0,0, "every sequence of two lines out of a catalogue of 85 valid and invalid directives (thorough: three), followed by one console of each kind (or by nothing): consoles, devices, options, logs, addresses, limits and reported errors are those of an independent reading of the file") {
    auto &c = catalogue(); std::vector<const Line*> v; for (int i = 0; i < (g_thorough ? 3 : 2); i++) v.push_back(&c[pick(c.size(), "line")]); run_lines(v, g_thorough || pick(2, "tail") == 0);
}
SCENARIO(conf_triples, "C18", 0,0,0, 0,0,0, "every sequence of three lines out of 40 of these directives (thorough: sequences of four out of them), followed by one console of each kind") {
    std::vector<const Line*> core; for (auto &l : catalogue()) if (l.core) core.push_back(&l); std::vector<const Line*> v; for (int i = 0; i < (g_thorough ? 4 : 3); i++) { int k = pick(core.size(), "line"); v.push_back(core[k]); } run_lines(v, true);
}
/* ---- the written form ---- */
struct Style { int kase, sp, q, eol, cm, blank, fin; };
static S word(const S &w, int k) { S o = w; for (size_t i = 0; i < o.size(); i++) o[i] = k == 0 ? tolower(o[i]) : k == 1 ? toupper(o[i]) : (i & 1 ? toupper(o[i]) : tolower(o[i])); return o; }
static const char *SP[] = {" ", "\t\v\f ", " \\\n", "\\\r\n\t", ""};
static const char *EOLS[] = {"\n", "\r", "\r\n"};
static const char *CMT[] = {"", "# it's \"odd", " #\\", "\t#server port=1 \\ "};
/* tokens: keywords, =, strings ('s), integers; "\n" ends a line */
static const std::vector<S> tokens = {"server", "keepalive", "=", "off", "port", "=", "7891", "\n", "global", "log", "=", "'%N.log", "logopts", "=", "'sanitize,timestamp", "\n", "console", "name", "=", "'a0", "dev", "=", "'unix:/run/a0", "logopts", "=", "'nosanitize", "\n", "server", "bogus", "\n", "console", "dev", "=", "'unix:/run/a2", "name", "=", "'a 2/x", "log", "=", "'", "\n", "global", "nolog", "=", "on", "\n"};
static void check_form(const Style &st, int pos, int psp) {
    setup_world(); S text; int line = 1; bool bol = true; int errl[2], ne = 0; auto eol = [&] { text += CMT[st.cm]; text += EOLS[st.eol]; line++; };
    if (st.blank) { eol(); text += SP[st.sp == 2 || st.sp == 3 ? 0 : st.sp]; eol(); }
    for (size_t i = 0; i < tokens.size(); i++) { const S &t = tokens[i];
        if (t == "\n") { if (i + 1 == tokens.size() && !st.fin) break; eol(); if (st.blank) eol(); bol = true; continue; }
        int sp = (int)i == pos ? psp : st.sp; bool need = !bol && isalnum((unsigned char)text[text.size() - 1]) && t[0] != '='; if (need && t[0] == '\'' && st.q != 2) need = false; S s = SP[sp]; if (need && s.empty()) s = " "; if (need && (sp == 3)) s = " " + s;
        if (!bol || (sp != 0)) { text += s; if (sp == 2 || sp == 3) line++; } bol = false;
        if (t == "bogus" || t == "nolog") errl[ne++] = line;
        if (t[0] == '\'') { S v = t.substr(1); bool bare = !v.empty() && isalpha((unsigned char)v[0]); for (char c : v) if (!isalnum((unsigned char)c) && c != '_') bare = false; char q = st.q == 0 ? '"' : '\''; text += st.q == 2 && bare ? v : S(1, q) + v + q; } else if (isdigit((unsigned char)t[0]) || t == "=") text += t; else text += word(t, st.kase); }
    ICfg g; g.ka = false; g.port = 7891; g.glog = "%N.log"; g.san = g.ts = true; for (int i = 0; i < ne; i++) g.errs.push_back(errl[i]); IOpt o; o.lopts = "nosanitize"; add(g, 0, unix_("a0", "/run/a0"), o); IOpt o2; o2.log = ""; add(g, 0, unix_("a 2/x", "/run/a2"), o2);
    auto before = W->vfs; before["/etc/conman.conf"] = nullptr; launch(text, {"conmand", "-F", "-c", "/etc/conman.conf"}); verify(g, before, esc(text, 2000)); outcome(text);
}
SCENARIO(conf_form, "C18", 0,0,0, 0,0,0, "one configuration in every written form: keyword case, white space, continuation lines, kinds of quotes or none, line ends, comments, blank lines, last line end; and a different separator at each single place") {
    Style s; s.kase = pick(3, "case"); s.sp = pick(5, "space"); s.q = pick(3, "quotes"); s.eol = pick(3, "eol"); s.cm = pick(4, "comment"); s.blank = pick(2, "blank"); s.fin = pick(2, "last eol"); int pos = -1, psp = 0; if (s.cm == 0 && s.kase == 0 && s.blank == 0) { pos = pick(tokens.size(), "place"); psp = pick(5, "there"); } check_form(s, pos, psp);
}
/* every way of cutting a configuration short or damaging one byte leaves the rest as it is */
SCENARIO(conf_damage, "C18", 0,0,0, 0,0,0, "a line of a configuration cut at every byte or with one byte replaced by each of a set of characters: the lines before and after mean what they meant, and a damaged line never yields anything but its own console") {
    setup_world(); static const char *L[] = {"console name=\"a4\" dev=\"unix:/run/a4\" log=\"a4.log\" logopts=\"nolock\"", "server keepalive=on port=7890 logdir='/var/l3'", "global log='%N.x' logopts=\"sanitize\""}; int w = pick(3, "line"); S l = L[w]; size_t n = l.size(); int k = pick(2, "how"); static const char rep[] = "\"'\\#=\x7f\xff x5%\t"; size_t at = pick(n, "at"); if (k == 0) l.resize(at); else { char c = rep[pick(sizeof rep - 1, "with")]; if (l[at] == c) { outcome("same"); return; } l[at] = c; }
    S text = "console name=\"a0\" dev=\"unix:/run/a0\" log=\"/var/a0.own\"\n" + l + "\nconsole name=\"u0\" dev=\"unix:/run/u0\" log=\"/var/u0.own\" logopts='nosanitize,notimestamp'\n"; bool cont = !l.empty() && l.back() == '\\'; if (cont) { outcome("continued"); return; }
    launch(text, {"conmand", "-F", "-c", "/etc/conman.conf"}); expect_alive(); auto rep_ = reported(D->err, "/etc/conman.conf"); REQUIRE(rep_.size() <= 1 && (rep_.empty() || rep_[0] == 2), "errors for lines %s:\n%s", ints(rep_).c_str(), text.c_str()); for (int p : {7890, 789, 78, 7}) if (is_listening(p, "127.0.0.1")) ref_port = p;
    if (!is_listening(ref_port, "127.0.0.1")) { for (int p = 1; p < 65536; p++) if (is_listening(p, "127.0.0.1")) { ref_port = p; break; } } Client q; REQUIRE(q.open("QUERY", {}), "query"); int m = count_sub(q.raw, "CONSOLE='"); REQUIRE(has(q.raw, "CONSOLE='a0'") && has(q.raw, "CONSOLE='u0'") && m <= (w == 0 ? 3 : 2), "the consoles are %s:\n%s", esc(q.raw).c_str(), esc(text).c_str());
    for (auto c : {"a0", "u0"}) { S p = S("/run/") + c; for (auto s : W->services) if (s->upath == p) { REQUIRE(s->conns.size() == 1, "[%s] has %zu connections", c, s->conns.size()); s->conns[0]->send(S(c) + "\x01\r\n"); settle(); S d = file_data(S("/var/") + c + ".own"); REQUIRE(has(d, opened_msg(c)) && has(d, S("\r\n") + c + "\x01\r\n"), "the log of [%s] holds %s:\n%s", c, esc(d).c_str(), esc(text).c_str()); } }
    outcome(fmt("%d %zu %d", m, rep_.size(), ref_port));
}
/* ---- conversion specifiers ---- */
struct Cal { int Y, m, d, H, M, S_, yday, wday; };
static long days_of(int Y, int m, int d) { long n = 0; for (int y = 1970; y < Y; y++) n += 365 + ((y % 4 == 0 && y % 100) || y % 400 == 0); static const int ml[] = {31,28,31,30,31,30,31,31,30,31,30,31}; for (int i = 1; i < m; i++) n += ml[i - 1] + (i == 2 && ((Y % 4 == 0 && Y % 100) || Y % 400 == 0)); return n + d - 1; }
static Cal cal(long t) { Cal c; long dd = t / 86400, s = t % 86400; c.H = s / 3600; c.M = s / 60 % 60; c.S_ = s % 60; c.wday = (dd + 4) % 7; int Y = 1970; while (days_of(Y + 1, 1, 1) <= dd) Y++; c.Y = Y; c.yday = dd - days_of(Y, 1, 1); int m = 1; while (m < 12 && days_of(Y, m + 1, 1) <= dd) m++; c.m = m; c.d = dd - days_of(Y, m, 1) + 1; return c; }
static void isoweek(const Cal &c, int &y, int &w) { long dd = days_of(c.Y, c.m, c.d); long thu = dd - (c.wday + 6) % 7 + 3; y = 1970; while (days_of(y + 1, 1, 1) <= thu) y++; w = (thu - days_of(y, 1, 1)) / 7 + 1; }
static S conv(char k, long t, int off, const ICon &con, int pid) { Cal c = cal(t + off); int iy, iw; isoweek(c, iy, iw); switch (k) { case 'd': return fmt("%02d", c.d); case 'g': return fmt("%02d", iy % 100); case 'G': return fmt("%d", iy); case 'H': return fmt("%02d", c.H); case 'j': return fmt("%03d", c.yday + 1); case 'm': return fmt("%02d", c.m); case 'M': return fmt("%02d", c.M); case 's': return fmt("%ld", t); case 'S': return fmt("%02d", c.S_); case 'u': return fmt("%d", c.wday ? c.wday : 7); case 'U': return fmt("%02d", (c.yday + 7 - c.wday) / 7); case 'V': return fmt("%02d", iw); case 'w': return fmt("%d", c.wday); case 'W': return fmt("%02d", (c.yday + 7 - (c.wday + 6) % 7) / 7); case 'y': return fmt("%02d", c.Y % 100); case 'Y': return fmt("%d", c.Y); case 'P': return fmt("%d", pid); case '%': return "%"; case 'N': case 'D': return expand(S("%") + k, con); default: return S("%") + k; } }
static S convall(const S &f, long t, int off, const ICon &c, int pid) { S o; for (size_t i = 0; i < f.size(); i++) if (f[i] == '%' && i + 1 < f.size()) o += conv(f[++i], t, off, c, pid); else o += f[i]; return o; }
SCENARIO(conf_conv, "C18", 0,0,0, 0,0,0, "every conversion specifier (and unknown ones, a trailing %, runs of %) in a console's log name, for the days around seven new years and other boundary moments in three time zones, and again at a reconfiguration days later: the files are those of an independent calendar") {
    static const char specs[] = "dgGHjmMsSuUVwWyYPND%qzE-"; static const char *zones[] = {"UTC0", "XST-13:45", "YST9:30"}; static const int offs[] = {0, 49500, -34200}; int sp = pick(sizeof specs + 1, "specifier"); int z = pick(3, "zone"); static const int years[] = {2016, 2019, 2021, 2024, 2025, 2027, 2028};
    long t; int k = pick(7 * 8 + 3, "moment"); if (k < 56) t = (days_of(years[k / 8], 1, 1) - 4 + k % 8) * 86400 + 43200; else t = k == 56 ? days_of(2024, 2, 29) * 86400 + 86399 : k == 57 ? days_of(2023, 3, 5) * 86400 + 1 : days_of(2026, 10, 10) * 86400 + 36000; t -= offs[z];
    setup_world(); setenv("TZ", zones[z], 1); tzset(); W->now = (int64_t)t * 1000000; bool tel = sp & 1; S f; if (sp < (int)sizeof specs - 1) f = S("/var/c/a%") + specs[sp] + "b"; else if (sp == sizeof specs - 1) f = "/var/c/x%"; else if (sp == sizeof specs) f = "/var/c/%%%%N%%%N%Y%m%d"; else f = "/var/c/%Y/%m/%d/%N-%D"; S nm = "n o\x01/\xe9" "de";
    S text = "console name=\"" + nm + "\" dev=\"" + (tel ? "tst0:2001" : "unix:/run/a0") + "\" log=\"" + f + "\"\n"; ICon c = tel ? tel_(nm, "tst0", 2001) : unix_(nm, "/run/a0"); auto before = W->vfs; before["/etc/conman.conf"] = nullptr; launch(text, {"conmand", "-F", "-c", "/etc/conman.conf"}); expect_alive(); std::set<S> want{convall(f, t, offs[z], c, D->pid)};
    auto files = [&](const char *w) { for (auto &x : want) { InoP n = get_ino(x); REQUIRE(n && n->type == 'r' && has(n->data, "log opened at"), "%s: \"%s\" does not yield %s", w, f.c_str(), x.c_str()); } for (auto &x : W->vfs) if (x.second->type == 'r' && !before.count(x.first)) REQUIRE(want.count(x.first), "%s: \"%s\" yields %s instead of %s", w, f.c_str(), esc(x.first).c_str(), esc(*want.rbegin()).c_str()); };
    files("at startup"); long later = pick(2, "later") ? 86400L * 3 + 3661 : 59; W->now += (int64_t)later * 1000000; settle(); raise_sig(D, SIGHUP); settle(); want.insert(convall(f, W->now / 1000000, offs[z], c, D->pid)); files("after a reconfiguration"); expect_alive(); setenv("TZ", "UTC0", 1); tzset(); outcome(*want.begin());
}
/* ---- where the daemon's own messages go ---- */
SCENARIO(conf_dlog, "C18", 0,0,0, 0,0,0, "the daemon's own log file (absolute, relative to the log directory or the start directory, with specifiers, with each priority, invalid ones) and syslog facility, in the background and the foreground: exactly the messages of at least that priority go exactly there") {
    setup_world(); static const char *pr[] = {"", "alert", "crit", "critical", "emerg", "emergency", "panic", "err", "error", "warn", "warning", "notice", "info", "debug", " Info", "INFO", "nonsense", ""}; static const int lv[] = {6, 1, 2, 2, 0, 0, 0, 3, 3, 4, 4, 5, 6, 7, 6, 6, -1, -2}; int p = pick(18, "priority"), pl = pick(4, "place"), fg = pick(2, "foreground"), sy = pick(3, "syslog"); static const char *nm[] = {"/var/d/own", "own", "sub/own", "own.%Y%P%N"}; int ld = pick(2, "logdir");
    S text = S(ld ? "server logdir=\"/var/l\"\n" : "\n") + (lv[p] == -2 ? S("\n") : "server logfile=\"" + S(nm[pl]) + (p ? S(",") + pr[p] : S()) + "\"\n") + (sy ? S("server syslog=\"") + (sy == 1 ? "daemon" : "LOCAL3") + "\"\n" : S("\n")) + "console name=\"u0\" dev=\"unix:/run/u0\"\nconsole name=\"n0\" dev=\"unix:/run/nothing\"\n"; auto before = W->vfs; before["/etc/conman.conf"] = nullptr;
    std::vector<S> av = {"conmand", "-c", "/etc/conman.conf"}; if (fg) av.insert(av.begin() + 1, "-F"); launch(text, av, fg ? 0 : 2); expect_alive(); auto rep = reported(D->err + D->out, "/etc/conman.conf"); if (lv[p] == -1) REQUIRE(rep == std::vector<int>{2}, "an invalid priority is not reported"); else REQUIRE(rep.empty(), "unexpected errors: %s", esc(D->err).c_str());
    S dir = ld ? "/var/l" : "/home/op"; S path = pl == 0 ? nm[0] : dir + "/" + nm[pl]; if (pl == 3) path = dir + "/own.2023" + fmt("%d", D->pid) + "%N"; S sl = W->syslog;
    static const struct { const char *t; int l; } ev[] = {{"Starting ConMan daemon", 5}, {"Listening on TCP port 7890", 6}, {"Console [u0] connected", 6}};
    if (lv[p] >= 0 && !fg) { S d = file_data(path); for (auto &e : ev) REQUIRE(has(d, e.t) == (e.l <= lv[p]), "with priority \"%s\" the log %s %s \"%s\"", pr[p], path.c_str(), has(d, e.t) ? "holds" : "lacks", e.t); }
    for (auto &e : ev) { REQUIRE(has(sl, e.t) == (sy && !fg), "the system log %s \"%s\"", has(sl, e.t) ? "holds" : "lacks", e.t); REQUIRE(has(D->err, e.t) == (bool)fg, "the standard error stream %s \"%s\"", has(D->err, e.t) ? "holds" : "lacks", e.t); }
    if (lv[p] != -1) for (auto &x : W->vfs) if (x.second->type == 'r' && !before.count(x.first)) REQUIRE(lv[p] >= 0 && !fg && x.first == path, "unexpected file %s", x.first.c_str()); outcome(text);
}
/* ---- the command line ---- */
SCENARIO(conf_cmdline, "C18", 0,0,0, 0,0,0, "every combination of command line and configured port and pid file, the configuration given by absolute and relative name, in foreground and background: the command line wins; invalid options and values are refused with a message") {
    setup_world(); int cp = pick(6, "-p"), fp = pick(3, "port"), cP = pick(3, "-P"), fP = pick(3, "pidfile"), fg = pick(2, "foreground"), rel = pick(2, "relative"), extra = pick(3, "extra"); static const char *cpv[] = {"", "7891", "70000", "-3", "65535", "0"}; S text = S(fp ? fmt("server port=%d\n", fp == 1 ? 7892 : 7893) : S()) + (fP ? (fP == 1 ? "server pidfile=\"/run/c.pid\"\n" : "server pidfile=\"c/c.pid\"\n") : "") + "console name=\"u0\" dev=\"unix:/run/u0\"\n";
    std::vector<S> av = {"conmand"}; if (fg) av.push_back("-F"); if (cp) { av.push_back("-p"); av.push_back(cpv[cp]); } if (cP) { av.push_back("-P"); av.push_back(cP == 1 ? "/run/o.pid" : "o/o.pid"); } if (extra == 1) av.push_back("-v"); if (extra == 2) av.push_back("-Q"); av.push_back("-c"); av.push_back(rel ? "my.conf" : "/etc/conman.conf"); auto before = W->vfs; if (rel) put_file("/home/op/my.conf", text); before["/etc/conman.conf"] = before["/home/op/my.conf"] = nullptr; launch(rel ? "junk\n" : text, av, fg ? 0 : 2);
    if (extra == 2 || cp == 2 || cp == 3) { REQUIRE(D->exited && D->code == 1 && has(D->err, "CMDLINE"), "an invalid option or value is not refused: %s", esc(D->err).c_str()); outcome("refused"); return; } expect_alive(); int port = cp == 5 ? -1 : cp == 1 ? 7891 : cp == 4 ? 65535 : fp == 1 ? 7892 : fp == 2 ? 7893 : 7890; if (port < 0 && fg) { S s = D->err + D->out; auto k = s.find("Listening on TCP port "); REQUIRE(k != S::npos && is_listening(atoi(s.c_str() + k + 22), "127.0.0.1"), "the port listened on is not told: %s", esc(s).c_str()); } for (int p : {7890, 7891, 7892, 7893, 65535}) REQUIRE(is_listening(p, "127.0.0.1") == (p == port), "port %d is %slistened on", p, p == port ? "not " : "");
    S pf = cP == 1 ? "/run/o.pid" : cP == 2 ? "/home/op/o/o.pid" : fP == 1 ? "/run/c.pid" : fP == 2 ? "/home/op/c/c.pid" : ""; for (auto &x : W->vfs) if (x.second->type == 'r' && !before.count(x.first)) REQUIRE(x.first == pf, "unexpected file %s", x.first.c_str()); if (!pf.empty()) REQUIRE(file_data(pf) == fmt("%d\n", D->pid), "the pid file %s holds %s", pf.c_str(), esc(file_data(pf)).c_str()); REQUIRE(has(D->err + D->out, "Listening on TCP") == (bool)fg, "messages"); raise_sig(D, SIGTERM); settle(); REQUIRE(D->exited && D->code == 0, "no end"); if (!pf.empty()) REQUIRE(!W->vfs.count(pf), "the pid file was left behind"); outcome(fmt("%d %s", port, pf.c_str()));
}
/* The built-in test device: options and the output that follows from them. */
SCENARIO(conf_test, "C18", 0,0,0, 0,0,0, "test consoles under every pair of global option strings (13 valid and invalid ones) and every own option string: each invalid directive is reported and alters nothing else, and the output (amount, pattern, intervals, probability) is what the options say") {
    struct O { int b = 1024, m = -1, n = -1, p = 100; }; struct V { const char *t; bool ok; std::function<void(O&)> f; };
    static const std::vector<V> v = { {nullptr, true, [](O&){}}, {"b:5", true, [](O &o){ o.b = 5; }}, {"B:9000", true, [](O &o){ o.b = 9000; }}, {"m:500", true, [](O &o){ o.m = 500; }}, {"n:200,M:300", true, [](O &o){ o.n = 200; o.m = 300; }}, {"b:7,n:600", true, [](O &o){ o.b = 7; o.n = 600; }}, {"p:0", true, [](O &o){ o.p = 0; }}, {"P:1000,b:0x10", true, [](O &o){ o.p = 100; o.b = 16; }},
        {"b:99999999999999999999", false, [](O&){}}, {"b:3,x:1", false, [](O&){}}, {"m:-1", false, [](O&){}}, {"b:3000000000", false, [](O&){}}, {"m:77,b:5z", false, [](O&){}} };
    O g; std::vector<int> errs; int line = 0; S t; auto add = [&](const S &l) { t += l + "\n"; line++; }; add("server loopback=on"); add("server logdir=\"/var/log\"");
    int a[2]; for (int i = 0; i < 2; i++) { a[i] = pick(v.size(), "global"); if (!v[a[i]].t) continue; add(fmt("global testopts=\"%s\"", v[a[i]].t)); if (v[a[i]].ok) v[a[i]].f(g); else errs.push_back(line); }
    int c = pick(v.size(), "own"); add("console name=\"u\" dev=\"unix:/run/u\""); add(v[c].t ? fmt("console name=\"t\" dev=\"test:\" testopts=\"%s\" log=\"t.log\"", v[c].t) : S("console name=\"t\" dev=\"test:\" log=\"t.log\"")); O o = g; if (v[c].ok) v[c].f(o); else errs.push_back(line); add("console name=\"z\" dev=\"TEST:\" log=\"z.log\"");
    unix_service("u", "/run/u"); boot(t); expect_alive(); auto rep = reported(D->err + D->out, "/etc/conman.conf"); REQUIRE(rep == errs, "errors are reported for lines %s instead of %s in:\n%s\n%s", ints(rep).c_str(), ints(errs).c_str(), t.c_str(), esc(D->err).c_str());
    Client q; REQUIRE(q.open("QUERY", {}), "query"); REQUIRE(has(q.rsp.empty() ? q.raw : q.raw, "'t'") == v[c].ok && has(q.raw, "'z'") && has(q.raw, "'u'"), "the consoles are %s", esc(q.raw).c_str());
    Client m; m.user = "m"; REQUIRE(m.open("CONNECT", {"z"}), "connect"); m.fresh(); S z0 = strip_info(file_data("/var/log/z.log")); std::vector<std::pair<double, size_t>> ev[2]; double t0 = tnow();
    for (int k = 0; k < 300; k++) { for (int i = 0; i < 2; i++) { size_t n = strip_info(file_data(i ? "/var/log/z.log" : "/var/log/t.log")).size(); if (ev[i].empty() || n != ev[i].back().second) ev[i].push_back({tnow(), n}); } m.type("ignored"); advance(0.01); }
    for (int i = 0; i < 2; i++) { const O &w = i ? g : o; if (!i && !v[c].ok) { REQUIRE(file_data("/var/log/t.log").empty(), "output of a console that was rejected"); continue; }
        S d = strip_info(file_data(i ? "/var/log/z.log" : "/var/log/t.log")), p; for (size_t k = 0; k < d.size(); k++) p += (char)(0x21 + k % 94); REQUIRE(d == p, "the test console wrote %s", firstdiff(d, p).c_str());
        double lo = w.m < 0 ? 100 : w.n < 0 || w.n >= w.m ? w.m : w.n, hi = w.m < 0 ? 100 : w.m; if (w.p == 0) { REQUIRE(d.empty(), "output with probability 0"); continue; } REQUIRE(d.size() % w.b == 0, "%zu bytes in bursts of %d", d.size(), w.b); size_t nb = d.size() / w.b; REQUIRE(nb <= 3000 / lo + 1 && nb >= (size_t)((3000 - 10) / hi), "%zu bursts within 3 s at intervals of %g to %g ms", nb, lo, hi);
        for (size_t k = 1; k < ev[i].size(); k++) { double dt = (ev[i][k].first - ev[i][k-1].first) * 1000; REQUIRE(ev[i][k].second - ev[i][k-1].second == (size_t)w.b, "a burst of %zu bytes instead of %d", ev[i][k].second - ev[i][k-1].second, w.b); REQUIRE(k == 1 || (dt >= lo - 11 && dt <= hi + 11), "%g ms between bursts instead of %g to %g", dt, lo, hi); } }
    (void)t0; S zl = strip_info(file_data("/var/log/z.log")); REQUIRE(zl.size() >= z0.size() && strip_info(m.fresh()) == zl.substr(z0.size()), "the attached client did not receive what the log did"); outcome(fmt("%d %d %d", a[0], a[1], c)); mem_check_all();
}
/* Every server keyword with every form of value, twice: the last valid one counts, invalid ones are reported and change nothing. */
struct KX { bool ka = true, loop = true, tcpw = false, core = false; S coredir, exec, logdir, pid, reset, sys; int nofile = 0, port = 7890; long ts = 0; };
struct KV { const char *t; bool ok; void (*f)(KX&); };
#define K(...) [](KX &x) { (void)x; __VA_ARGS__; }
#define BAD false, [](KX&) {}
static const std::vector<std::pair<S, std::vector<KV>>> &keywords() {
    static const std::vector<std::pair<S, std::vector<KV>>> v = {
        {"keepalive", {{"=on", true, K(x.ka = true)}, {"=OFF", true, K(x.ka = false)}, {"=off keepalive=on", true, K(x.ka = true)}}},
        {"loopback", {{"=on", true, K(x.loop = true)}, {" = off", true, K(x.loop = false)}, {"=Off", true, K(x.loop = false)}}},
        {"tcpwrappers", {{"=on", true, K(x.tcpw = true)}, {"=off", true, K(x.tcpw = false)}, {"=ON", true, K(x.tcpw = true)}}},
        {"coredump", {{"=on", true, K(x.core = true)}, {"=off", true, K(x.core = false)}, {"=on coredumpdir='/tmp'", true, K(x.core = true; x.coredir = "/tmp")}}},
        {"coredump=on coredumpdir", {{"='/tmp'", true, K(x.core = true; x.coredir = "/tmp")}, {"='/opt/x//'", true, K(x.core = true; x.coredir = "/opt/x")}, {"=\"\"", true, K(x.core = true; x.coredir = "")}, {"='rel'", true, K(x.core = true; x.coredir = "/home/op/rel")}, {"='/'", true, K(x.core = true; x.coredir = "/")}, {"='/nowhere'", false, K(x.core = true)}, {"='/home/op/p.prog'", false, K(x.core = true)}}},
        {"execpath", {{"='/opt/x'", true, K(x.exec = "/opt/x")}, {"='/opt/y:/opt/x'", true, K(x.exec = "/opt/y:/opt/x")}, {"=''", true, K(x.exec = "")}}},
        {"logdir", {{"='/var/k'", true, K(x.logdir = "/var/k")}, {"='k/l'", true, K(x.logdir = "/home/op/k/l")}, {"=''", true, K(x.logdir = "/home/op")}}},
        {"nofile", {{"=99", true, K(x.nofile = 99)}, {"=0", true, K(x.nofile = 0)}, {"=-1", true, K(x.nofile = -1)}, {"=3000", true, K(x.nofile = 3000)}, {"=\"9\"", BAD}, {"='x'", BAD}}},
        {"pidfile", {{"='/run/k.pid'", true, K(x.pid = "/run/k.pid")}, {"='k.pid'", true, K(x.pid = "/home/op/k.pid")}, {"=''", BAD}, {"=\"/run/o/p/k.pid\"", true, K(x.pid = "/run/o/p/k.pid")}}},
        {"port", {{"=7891", true, K(x.port = 7891)}, {"=65535", true, K(x.port = 65535)}, {"=1", true, K(x.port = 1)}, {"=0", true, K(x.port = 0)}, {"=65536", BAD}, {"=-1", BAD}, {"='7891'", BAD}}},
        {"resetcmd", {{"='r %N'", true, K(x.reset = "r u")}, {"=\"a 'b'; c %% %N%N\"", true, K(x.reset = "a 'b'; c % uu")}, {"=''", BAD}, {"=plain", true, K(x.reset = "plain")}}},
        {"syslog", {{"='daemon'", true, K(x.sys = "3")}, {"='local0'", true, K(x.sys = "16")}, {"='LOCAL7'", true, K(x.sys = "23")}, {"=user", true, K(x.sys = "1")}, {"='auth'", true, K(x.sys = "4")}, {"='authpriv'", true, K(x.sys = "10")}, {"='cron'", true, K(x.sys = "9")}, {"='lpr'", true, K(x.sys = "6")}, {"='mail'", true, K(x.sys = "2")}, {"='news'", true, K(x.sys = "7")}, {"='uucp'", true, K(x.sys = "8")}, {"='local'", BAD}, {"=''", BAD}, {"='local8'", BAD}}},
        {"timestamp", {{"=1", true, K(x.ts = 1)}, {"=7m", true, K(x.ts = 7)}, {"=1h", true, K(x.ts = 60)}, {"=1D", true, K(x.ts = 1440)}, {"=0", true, K(x.ts = 0)}, {"=1x", BAD}, {"=2hh", BAD}, {"=-1", BAD}, {"='1h'", BAD}, {"=3 4", BAD}, {"=2 m", true, K(x.ts = 2)}}},
    };
    return v;
}
SCENARIO(conf_values, "C18", 0,0,0, 0,0,0, "each of the 13 server keywords with every form of value (valid, out of range, of another type, missing, without =), given twice in one line each or in all pairs of lines: what the daemon does is what the last valid one (for the port and the pid file the first) says; every invalid one is reported with its line and changes nothing") {
    static const std::vector<KV> generic = {{"", BAD}, {"=", BAD}, {" on", BAD}, {"==on", BAD}, {"=bogus=", BAD}, {"=5=6", BAD}, {"=#on", BAD}, {" bogus", BAD}};
    auto &kw = keywords()[pick(keywords().size(), "keyword")]; std::vector<KV> v = kw.second; size_t own = v.size(); for (auto &g : generic) { S n = kw.first, t = g.t; bool str = n == "execpath" || n == "logdir" || n == "pidfile" || n == "resetcmd" || n == "syslog" || has(n, "coredumpdir"); if (t == "=5=6" && (str || n == "nofile" || n == "timestamp" || n == "port")) continue; if (t == "=bogus=" && str) continue; v.push_back(g); }
    setup_world(); mk_dir("/home/op/rel"); KX x; S text; std::vector<int> errs; int line = 1; bool set = false; size_t a[2]; for (int i = 0; i < 2; i++) { a[i] = pick(v.size() + 1, "value"); if (a[i] == v.size()) continue; const KV &k = v[a[i]]; text += "server " + kw.first + k.t + "\n"; if (has(kw.first, "coredump=on")) x.core = true; KX was = x; k.f(x); if (was.port >= 0 && i) x.port = was.port == 7890 && !set ? x.port : was.port; if (!was.pid.empty()) x.pid = was.pid; set |= k.ok; if (!k.ok) errs.push_back(line); line++; } (void)own;
    text += "console name=\"u\" dev=\"unix:/run/u0\" log=\"u.log\"\nconsole name=\"p\" dev=\"p.prog\"\n"; bool sys = kw.first == "syslog"; std::set<S> before; for (auto &f : W->vfs) before.insert(f.first); before.insert("/etc/conman.conf"); W->hosts_ctl_fn = [](S, S, S, S) { return 1; };
    std::vector<S> av = {"conmand", "-c", "/etc/conman.conf"}; if (!sys) av.push_back("-F"); launch(text, av, sys ? 2 : 0); expect_alive(); auto rep = reported(D->err + D->out + W->syslog, "/etc/conman.conf"); REQUIRE(rep == errs, "errors are reported for lines %s instead of %s in:\n%s\n%s", ints(rep).c_str(), ints(errs).c_str(), text.c_str(), esc(D->err).c_str());
    int port = x.port; if (!port) { S s = D->err + D->out; auto k = s.find("Listening on TCP port "); REQUIRE(k != S::npos, "the port is not told"); port = atoi(s.c_str() + k + 22); REQUIRE(port >= 40000, "port %d", port); } ref_port = port; REQUIRE(is_listening(port, "127.0.0.1"), "not listening on port %d:\n%s", port, text.c_str()); REQUIRE(is_listening(port, "10.2.2.2") == !x.loop, "loopback:\n%s", text.c_str()); for (int p : {7890, 7891, 65535, 1}) if (p != port) REQUIRE(!is_listening(p, "127.0.0.1"), "listening on port %d:\n%s", p, text.c_str());
    int h0 = W->hosts_ctl_calls; Client w; w.user = "w"; REQUIRE(w.open("CONNECT", {"u"}), "connect: %s", esc(w.raw).c_str()); REQUIRE(W->hosts_ctl_calls - h0 == (int)x.tcpw, "access control is %s:\n%s", x.tcpw ? "off" : "on", text.c_str()); for (auto &f : D->fds) if (f && f->type == F_SOCK && f->conn == w.c) { auto it = f->opts.find({SOL_SOCKET, SO_KEEPALIVE}); REQUIRE((it != f->opts.end() && it->second) == x.ka, "keep-alives:\n%s", text.c_str()); }
    S log = norm((x.logdir.empty() ? S("/home/op") : x.logdir) + "/u.log"); if (!get_ino(log)) for (auto &f : W->vfs) if (f.second->type == 'r' && !before.count(f.first)) tracef("file %s", f.first.c_str()); REQUIRE(get_ino(log) && has(file_data(log), "Console [u]"), "the log is not %s:\n%s", log.c_str(), text.c_str()); for (auto &f : W->vfs) if (f.second->type == 'r' && !before.count(f.first)) REQUIRE(f.first == log || f.first == x.pid, "unexpected file %s:\n%s", f.first.c_str(), text.c_str());
    if (!x.pid.empty()) REQUIRE(file_data(x.pid) == fmt("%d\n", D->pid), "the pid file %s holds %s", x.pid.c_str(), esc(file_data(x.pid)).c_str());
    bool lim = W->rlim.count(RLIMIT_NOFILE); REQUIRE(x.nofile == 0 ? !lim || W->nofile == 1024 : lim && W->nofile == (x.nofile < 0 ? 4096 : x.nofile), "the limit of descriptors is %d:\n%s", W->nofile, text.c_str()); REQUIRE(W->syslog_fac == (x.sys.empty() ? -1 : atoi(x.sys.c_str()) << 3) && W->syslog.empty() == x.sys.empty(), "syslog facility %d:\n%s", W->syslog_fac, text.c_str());
    int np = 0; for (auto v : W->vprocs) if (v->execd && has(v->path, "p.prog")) { np++; S d = x.exec == "/opt/x" ? "/opt/x" : x.exec.empty() ? "/home/op" : "/opt/y"; REQUIRE(norm(v->path) == d + "/p.prog", "%s is run:\n%s", v->path.c_str(), text.c_str()); } REQUIRE(np == 1, "%d programs run:\n%s", np, text.c_str());
    if (kw.first == "resetcmd") { w.fresh(); w.escape("R"); settle(); int n = 0; for (auto v : W->vprocs) if (v->execd && v->path == "/bin/sh") { n++; REQUIRE(v->argv.size() == 3 && v->argv[2] == x.reset, "the reset command run is %s:\n%s", esc(v->argv[2]).c_str(), text.c_str()); } REQUIRE(n == (x.reset.empty() ? 0 : 1), "%d reset commands run:\n%s", n, text.c_str()); }
    if (kw.first == "timestamp") { S l = file_data(log); int64_t now = W->now / 1000000, mid = now / 86400 * 86400, first = x.ts ? mid + ((now - mid) / 60 / x.ts + 1) * x.ts * 60 : now + 3 * 86400; if (first - now > 1) advance(first - now - 0.5); REQUIRE(file_data(log) == l, "a timestamp too early (interval %ld min): %s\n%s", x.ts, esc(file_data(log).substr(l.size())).c_str(), text.c_str()); advance(1); REQUIRE((count_sub(file_data(log), "] log at ") == 1) == (x.ts > 0), "timestamps (interval %ld min): %s\n%s", x.ts, esc(file_data(log)).c_str(), text.c_str()); }
    REQUIRE(W->rlim.count(RLIMIT_CORE) && (W->rlim[RLIMIT_CORE].first != 0) == x.core, "core dumps are %s:\n%s", x.core ? "off" : "on", text.c_str()); outcome(fmt("%s %zu %zu", kw.first.c_str(), a[0], a[1]));
    raise_sig(D, has(kw.first, "coredump") ? SIGABRT : SIGTERM); settle(); REQUIRE(D->exited, "no end"); if (has(kw.first, "coredump")) REQUIRE(D->cwd == (x.core && !x.coredir.empty() ? x.coredir : S("/home/op")), "the core is written to %s:\n%s", D->cwd.c_str(), text.c_str()); else REQUIRE(D->code == 0, "exit status %d", D->code);
}
