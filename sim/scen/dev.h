/* One console device of any transport, seen from the device's side. */
#pragma once
#include "../ref.h"
enum { UNIX, TELNET, PROCESS, SERIAL, IPMI, NDEV };
static const char *devname[] = {"unix", "telnet", "process", "serial", "ipmi"};
/* Splits what the daemon sent to a telnet device into data and commands. */
struct TelnetRx { int st = 0; unsigned char cmd = 0; S data; std::vector<S> cmds;
    void feed(const S &s) { for (unsigned char c : s) switch (st) {
        case 0: if (c == 255) st = 1; else data += c; break;
        case 1: if (c == 255) { data += c; st = 0; } else if (c >= 251 && c <= 254) { cmd = c; st = 2; } else { cmds.push_back(S(1, c)); st = 0; } break;
        case 2: cmds.push_back(S(1, cmd) + S(1, c)); st = 0; break; } } };
struct Dev {
    int type; S name, log, opts; Service *svc = nullptr; Conn *tty = nullptr; TelnetRx trx; int idx = 0; S rest;
    Dev(int t, const S &n, int i = 0) : type(t), name(n), idx(i) {
        switch (type) {
        case UNIX: svc = unix_service(name, "/run/" + name); break;
        case TELNET: W->hosts["ts" + name] = fmt("10.0.1.%d", i + 1); svc = tcp_service(name, fmt("10.0.1.%d", i + 1), 2001); break;
        case PROCESS: put_file("/bin/" + name + ".prog", "", 0755); break;
        case SERIAL: tty = put_tty("/dev/tty" + name); break;
        case IPMI: break; }
    }
    S target() const { switch (type) { case UNIX: return "\"/run/" + name + "\""; case TELNET: return "<ts" + name + ":2001>"; case PROCESS: return "\"" + name + ".prog\""; case SERIAL: return "\"/dev/tty" + name + "\""; default: return "<bmc" + name + ">"; } }
    S conf() const {
        S d; switch (type) { case UNIX: d = "unix:/run/" + name; break; case TELNET: d = "ts" + name + ":2001"; break; case PROCESS: d = "/bin/" + name + ".prog"; break; case SERIAL: d = "/dev/tty" + name; break; default: d = "ipmi:bmc" + name; }
        return "console name=\"" + name + "\" dev=\"" + d + "\"" + (log.empty() ? "" : " log=\"" + log + "\"") + (opts.empty() ? "" : " " + opts) + "\n";
    }
    IpmiCtx *ctx() { for (size_t i = ipmi_ctxs.size(); i-- > 0; ) if (ipmi_ctxs[i]->host == "bmc" + name) return ipmi_ctxs[i]; return nullptr; }
    VProc *proc() { for (size_t i = W->vprocs.size(); i-- > 0; ) if (W->vprocs[i]->path == "/bin/" + name + ".prog") return W->vprocs[i]; return nullptr; }
    int nconn() { switch (type) { case UNIX: case TELNET: return svc->conns.size(); case PROCESS: { int n = 0; for (auto v : W->vprocs) if (v->path == "/bin/" + name + ".prog") n++; return n; } case SERIAL: return get_ino("/dev/tty" + name)->tty_opens; default: { int n = 0; for (auto c : ipmi_ctxs) if (c->host == "bmc" + name && c->submitted) n++; return n; } } }
    void up() { if (type == IPMI) { REQUIRE(ctx(), "no ipmi session was requested for [%s]", name.c_str()); ipmi_complete(ctx(), true, 0); settle(); } REQUIRE(io(), "console [%s] was not opened", name.c_str()); if (type == TELNET) neg(); }
    Conn *io() { switch (type) { case UNIX: case TELNET: return svc->cur(); case PROCESS: return proc() ? proc()->io : nullptr; case SERIAL: return tty; default: return ctx() ? ctx()->io : nullptr; } }
    void neg() { S s = io()->take(); rest += s; trx.feed(s); }
    void send(const S &s) { S o; if (type == TELNET) { for (char c : s) { o += c; if ((unsigned char)c == 255) o += c; } } else o = s; io()->send(o); }
    S take() { Conn *c = io(); if (!c) return ""; S s = c->take(); if (type != TELNET) return s; trx.feed(s); S d; d.swap(trx.data); return d; }
    /* the device goes away */
    void drop() { trx = TelnetRx(); if (type == PROCESS) vproc_die(proc(), 0); else if (type == SERIAL) { tty->to->wclosed = true; } else io()->close(); }
    void fault(int f) { for (auto &x : D->fds) if (x && ((io() && x->tx == io()->from && x->rx == io()->to))) x->fault = f; if (svc) svc->fault = f; }
};
S devs_conf(std::vector<Dev> &d, const S &tail = "");
inline S devs_conf(std::vector<Dev> &d, const S &tail) { S c = "server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\n" + tail; for (auto &x : d) c += x.conf(); return c; }
inline FileP file_of(Conn *c) { return c->app; }
inline void log_fault(const S &path, int f) { for (auto &x : D->fds) if (x && x->path == path) x->fault = f; }
inline void conn_fault(Conn *c, int f) { if (c->app) c->app->fault = f; }
#define LOGDATE "2023-11-14 22:13:20 UTC"
inline S opened_msg(const S &n, const S &date = LOGDATE) { return "\r\n<ConMan> Console [" + n + "] log opened at " + date + ".\r\n"; }
inline S up_msg(Dev &d) { return "\r\n<ConMan> Console [" + d.name + "] connected to " + d.target() + (d.type == PROCESS ? fmt(" (pid %d)", d.proc()->pid) : "") + ".\r\n"; }
inline S firstdiff(const S &a, const S &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = i > 30 ? i - 30 : 0; return fmt("at offset %zu (%zu bytes, %zu expected): \"%s\" instead of \"%s\"", i, a.size(), b.size(), esc(a.substr(s, 120)).c_str(), esc(b.substr(s, 120)).c_str()); }
inline S pattern(size_t n, int seed = 0) { S s; s.reserve(n); unsigned x = seed * 7919 + 12345; for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; s += (char)('A' + (x >> 16) % 57); } return s; }
