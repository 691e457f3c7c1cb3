/* A reference model of console sessions (who reads and writes which console, what each
 * party must receive), run in lock step with the real daemon. */
#pragma once
#include "../ref.h"
struct MClient { Client io; bool used = false, live = false, quiet = false, bcast = false, eof = false, susp = false; size_t seen = 0; std::vector<int> rd, wr; S expect, got; S name() const { return "<" + io.user + "@cli> on " + io.tty; } };
struct MConsole { S name, dev; Service *svc; std::vector<int> readers, writers; S expect, got, log; };
struct Sess {
    std::vector<MConsole> con; std::vector<MClient> cl; bool logs = true; S now = "11-14 22:13"; S tail; int serial = 0; bool check_info = true; std::vector<S> longname; S upad, tpad; bool (*same)(const S&, const S&) = nullptr;
    S conf() { S c = "server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\n" + tail; for (auto &x : con) c += fmt("console name=\"%s\" dev=\"unix:/run/%s\"%s\n", x.name.c_str(), x.dev.c_str(), logs ? fmt(" log=\"%s.log\"", x.dev.c_str()).c_str() : ""); return c; }
    void start(int nc, int ncl) {
        for (int i = 0; i < nc; i++) { MConsole m; m.dev = m.name = fmt("c%d", i+1); m.svc = unix_service(m.dev, "/run/" + m.dev); if ((size_t)i < longname.size()) m.name = longname[i]; con.push_back(m); }
        cl.resize(ncl); boot(conf()); expect_alive();
        for (auto &m : con) { REQUIRE(m.svc->conns.size() == 1, "console [%s] was not connected at startup", m.name.c_str()); m.log = "\r\n<ConMan> Console [" + m.name + "] log opened at 2023-11-14 22:13:20 UTC.\r\n\r\n<ConMan> Console [" + m.name + "] connected to \"/run/" + m.dev + "\".\r\n"; }
        check("startup");
    }
    static bool in(const std::vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
    static void del(std::vector<int> &v, int x) { v.erase(std::remove(v.begin(), v.end(), x), v.end()); }
    void tell(int k, const S &m, bool info) { MClient &c = cl[k]; if (c.eof || (info && c.quiet)) return; c.expect += m; }
    void notify(int c, const S &m) { con[c].log += m; std::vector<int> all = con[c].readers; for (int w : con[c].writers) if (!in(all, w)) all.push_back(w); for (int k : all) tell(k, m, true); }
    S msg(const S &t) { return "\r\n<ConMan> " + t + ".\r\n"; }
    void unlink_w(int k, int c) { del(con[c].writers, k); del(cl[k].wr, c); notify(c, msg("Console [" + con[c].name + "] departed by " + cl[k].name() + " at " + now)); if (cl[k].wr.empty() && cl[k].rd.empty()) cl[k].eof = true; }
    void unlink_r(int k, int c) { del(con[c].readers, k); del(cl[k].rd, c); if (cl[k].wr.empty() && cl[k].rd.empty()) cl[k].eof = true; }
    void gone(int k) { while (!cl[k].rd.empty()) unlink_r(k, cl[k].rd[0]); while (!cl[k].wr.empty()) unlink_w(k, cl[k].wr[0]); cl[k].eof = true; }
    void link_w(int k, int c, bool force) {
        bool stolen = force && !con[c].writers.empty();
        notify(c, msg("Console [" + con[c].name + "] " + (stolen ? "stolen" : "joined") + (cl[k].bcast ? " for B/C" : "") + " by " + cl[k].name() + " at " + now));
        for (int w : con[c].writers) tell(k, msg("Console [" + con[c].name + "] " + (stolen ? "stolen from " : "joined with ") + cl[w].name() + " at " + now), true);
        if (stolen) { auto ws = con[c].writers; for (int w : ws) gone(w); }
        con[c].writers.push_back(k); cl[k].wr.push_back(c);
    }
    /* A connect request.  The daemon must grant it exactly when the model says so. */
    bool op_connect(int k, const std::vector<int> &cs, const S &opts) {
        MClient &m = cl[k]; m = MClient(); m.used = true; m.io.user = fmt("u%d%c", k, 'a' + serial++ % 26) + upad; m.io.tty = fmt("pts/%d", k) + tpad; m.quiet = has(opts, "QUIET");
        std::vector<S> nm; for (int c : cs) nm.push_back(con[c].name);
        bool force = has(opts, "FORCE"), join = has(opts, "JOIN"); std::vector<int> busy; for (int c : cs) if (!con[c].writers.empty()) busy.push_back(c);
        tracef("op: client %d connects to %zu consoles %s", k, cs.size(), opts.c_str());
        bool ok = m.io.open("CONNECT", nm, opts);
        bool want = cs.size() == 1 || has(opts, "BROADCAST"); if (!want) { REQUIRE(!ok && m.io.errcode() == 6, "a request for several consoles without broadcast got error %d", m.io.errcode()); return false; }
        if (!busy.empty() && !force && !join) {
            REQUIRE(!ok, "client %d was granted a write session on a console that already has a writer, without force or join", k);
            REQUIRE(m.io.errcode() == 7, "busy console reported with error code %d", m.io.errcode());
            m.io.pump(); if (!same) for (int c : busy) for (int w : con[c].writers) REQUIRE(has(m.io.data, "Console [" + con[c].name + "] open " + (cl[w].rd.empty() ? "B/C" : "R/W") + " by " + cl[w].name() + " (idle"), "the busy reply does not name writer %s of [%s]: %s", cl[w].name().c_str(), con[c].name.c_str(), esc(m.io.data).c_str());
            int lines = count_sub(m.io.data, "\n"), ww = 0; for (int c : busy) ww += con[c].writers.size(); REQUIRE(lines == ww, "the busy reply lists %d sessions, expected %d", lines, ww);
            REQUIRE(m.io.closed(), "the refused client's connection stays open"); m.used = false; return false; }
        REQUIRE(ok, "client %d: request for a session refused with error %d: %s", k, m.io.errcode(), esc(m.io.raw).c_str());
        m.live = true; m.bcast = cs.size() > 1 && has(opts, "BROADCAST");
        for (int c : cs) link_w(k, c, force);
        if (!m.bcast) { con[cs[0]].readers.push_back(k); m.rd.push_back(cs[0]); }
        return true;
    }
    bool op_monitor(int k, int c, const S &opts = "") {
        MClient &m = cl[k]; m = MClient(); m.used = true; m.io.user = fmt("u%d%c", k, 'a' + serial++ % 26) + upad; m.io.tty = fmt("pts/%d", k) + tpad; m.quiet = has(opts, "QUIET");
        tracef("op: client %d monitors %s", k, con[c].name.c_str());
        REQUIRE(m.io.open("MONITOR", {con[c].name}, opts), "monitor request refused: %s", esc(m.io.raw).c_str());
        m.live = true; con[c].readers.push_back(k); m.rd.push_back(c); return true;
    }
    void op_out(int c, const S &d) { con[c].svc->cur()->send(d); settle(); con[c].log += d; for (int k : con[c].readers) tell(k, d, false); }
    void feed(int k, const S &d) { for (int c : cl[k].wr) con[c].expect += d; }
    void op_type(int k, const S &d) { feed(k, d); cl[k].io.type(d); settle(); }
    void op_esc(int k, char e) {   /* F J M Q */
        MClient &m = cl[k];
        if (e == 'Q') { m.quiet = !m.quiet; tell(k, S("\r\n<ConMan> Quiet-mode ") + (m.quiet ? "enabled -- info msgs will be suppressed.\r\n" : "disabled -- info msgs will be displayed.\r\n"), false); }
        else if (!m.rd.empty()) { int c = m.rd[0]; if (m.wr.empty()) { if (e != 'M') link_w(k, c, e == 'F'); } else if (e == 'M') unlink_w(k, c); }
        m.io.escape(S(1, e)); settle();
    }
    void op_susp(int k) { MClient &m = cl[k]; m.susp = !m.susp; m.seen = m.expect.size(); m.io.escape("Z"); settle(); }
    void op_close(int k, int how) { MClient &m = cl[k]; if (how == 0) m.io.c->close(); else if (how == 1) m.io.c->reset(); else m.io.c->shut_wr(); settle(); gone(k); m.live = false; m.used = false; }
    /* Everything received so far equals what the model predicts. */
    void check(const char *after) {
        expect_alive();
        for (size_t k = 0; k < cl.size(); k++) { MClient &m = cl[k]; if (!m.live) continue; m.got += m.io.fresh();
            S due = m.susp ? m.expect.substr(0, m.seen) : m.expect, a = check_info ? m.got : strip_info(m.got), b = check_info ? due : strip_info(due);
            if (same ? !same(a, b) : a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = i > 40 ? i - 40 : 0;
                fail("after %s: client %zu received \"%s\" where \"%s\" was due (offset %zu, %zu of %zu bytes)", after, k, esc(a.substr(s, 160)).c_str(), esc(b.substr(s, 160)).c_str(), i, a.size(), b.size()); }
            if (m.eof && m.susp) continue; if (m.eof) { REQUIRE(m.io.closed(), "after %s: client %zu lost every console but its connection stays open", after, k); m.live = false; m.used = false; }
            else REQUIRE(!m.io.closed(), "after %s: client %zu was disconnected", after, k); }
        for (auto &c : con) { if (!c.svc->cur()) continue; c.got += c.svc->cur()->take();
            REQUIRE(c.got == c.expect, "after %s: console [%s] received \"%s\" instead of \"%s\"", after, c.name.c_str(), esc(c.got).c_str(), esc(c.expect).c_str());
            if (logs) { S l = file_data("/var/log/" + c.dev + ".log"), e = c.log; if (!check_info) { l = strip_info(l); e = strip_info(e); } if (same ? !same(l, e) : l != e) { size_t i = 0; while (i < l.size() && i < e.size() && l[i] == e[i]) i++; size_t s = i > 40 ? i - 40 : 0; fail("after %s: the log of [%s] has \"%s\" where \"%s\" was due (offset %zu)", after, c.name.c_str(), esc(l.substr(s, 160)).c_str(), esc(e.substr(s, 160)).c_str(), i); } } }
    }
    S summary() { S s; for (auto &c : con) { s += c.name + ":"; for (int k : c.readers) s += fmt("r%d", k); for (int k : c.writers) s += fmt("w%d", k); s += " "; } return s; }
};
