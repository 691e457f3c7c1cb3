#include "ref.h"
Proc *D; int ref_port = 7890;
Proc *boot(const S &conf, const std::vector<S> &extra) {
    ref_port = 7890; put_file("/etc/conman.conf", conf);
    W->hosts["cli.host"] = "10.9.9.9";
    std::vector<S> av = {"conmand", "-F", "-c", "/etc/conman.conf"};
    for (auto &e : extra) av.push_back(e);
    D = start_proc("conmand", conmand_main, av); settle(); return D;
}
Proc *boot_daemon(const S &conf, const std::vector<S> &extra) {
    ref_port = 7890; put_file("/etc/conman.conf", conf); W->hosts["cli.host"] = "10.9.9.9"; std::vector<S> av = {"conmand", "-c", "/etc/conman.conf"}; for (auto &e : extra) av.push_back(e);
    W->fork_mode = 2; D = start_proc("conmand", conmand_main, av); settle(); return D;
}
S quote(const S &s) { S o; for (char c : s) { o += c == '\'' || c == '"' ? (char)(c | 0x80) : c; } return o; }
void Client::begin(const S &cmd, const std::vector<S> &cons, const S &opts) {
    c = dial(PORT); REQUIRE(c, "the daemon does not accept connections");
    if (user.empty()) user = fmt("user%d", c->id);
    S l = fmt("HELLO USER='%s' TTY='%s'\n", quote(user).c_str(), tty.c_str()) + cmd;
    S o = opts; size_t i = 0; while (i < o.size()) { size_t j = o.find(',', i); if (j == S::npos) j = o.size(); l += " OPTION=" + o.substr(i, j-i); i = j + 1; }
    for (auto &x : cons) l += " CONSOLE='" + quote(x) + "'";
    c->send(l + "\n");
}
void Client::pump() {
    if (!c) return;
    S n = c->take(); raw += n;
    while ((int)rsp.size() < want) {
        size_t k = raw.find('\n', hdr); if (k == S::npos) return;
        rsp.push_back(raw.substr(hdr, k - hdr)); hdr = k + 1;
    }
    if (raw.size() > hdr) { data += raw.substr(hdr); hdr = raw.size(); }
}
bool Client::open(const S &cmd, const std::vector<S> &cons, const S &opts) { begin(cmd, cons, opts); settle(); pump(); return ok(); }
S Client::fresh() { pump(); S s = data; data.clear(); return s; }
bool Client::handshaken() const { return rsp.size() >= 2; }
bool Client::ok() const { return rsp.size() >= 2 && rsp[0].compare(0, 2, "OK") == 0 && rsp[1].compare(0, 2, "OK") == 0; }
int Client::errcode() const { for (auto &r : rsp) { size_t k = r.find("CODE="); if (r.compare(0, 5, "ERROR") == 0 && k != S::npos) return atoi(r.c_str() + k + 5); } return 0; }
void Client::type(const S &s) { S o; for (char ch : s) { o += ch; if ((unsigned char)ch == 0xFF) o += ch; } c->send(o); }
void Client::escape(const S &e) { c->send("\xff" + e); }
S strip_info(const S &s, std::vector<S> *msgs) {
    const S pre = "\r\n<ConMan> "; S o; size_t i = 0;
    while (i < s.size()) {
        if (s.compare(i, pre.size(), pre) == 0) { size_t e = s.find("\r\n", i + pre.size()); if (e != S::npos) { if (msgs) msgs->push_back(s.substr(i + 2, e - i - 2)); i = e + 2; continue; } }
        o += s[i++];
    } return o;
}
int count_sub(const S &h, const S &n) { int c = 0; for (size_t i = h.find(n); i != S::npos; i = h.find(n, i + n.size())) c++; return c; }
bool has(const S &h, const S &n) { return h.find(n) != S::npos; }
S seg_enum(Conn *c, const S &d, int maxcuts) {
    S how; size_t i = 0; int cuts = 0;
    while (i < d.size()) {
        size_t rest = d.size() - i; size_t n = rest;
        if (cuts < maxcuts && rest > 1) { int k = pick(rest, "cut"); if (k) { n = k; cuts++; } }   /* 0 = the rest in one piece */
        c->send(d.substr(i, n)); settle(); i += n; how += fmt("%zu,", n);
    } return how;
}
void expect_alive() { REQUIRE(!D->exited, "the daemon terminated (exit code %d, signal %d): %s", D->code, D->killed_by, esc(D->err.size() > 300 ? D->err.substr(D->err.size()-300) : D->err).c_str()); }
