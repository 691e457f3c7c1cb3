/* The client program with a terminal and a scripted server (or the real daemon). */
#pragma once
#include "dev.h"
#include <fcntl.h>
#include <unistd.h>
#include <termios.h>
static const S CTTY = "/dev/pts/9";
static int g_tty_fds = 2;   /* how many of stdin/stdout are the terminal */
inline int cli_main(int argc, char **argv) { int fd = open(CTTY.c_str(), O_RDWR); dup2(fd, 0); if (g_tty_fds > 1) dup2(fd, 1); if (fd > 1) close(fd); return conman_main(argc, argv); }
inline bool is_raw(const struct termios &t) { return !(t.c_lflag & (ICANON | ISIG | IEXTEN)) && !(t.c_oflag & OPOST) && !(t.c_iflag & (ICRNL | INLCR | IGNCR | ISTRIP | IXON | BRKINT | INPCK)) && t.c_cc[VMIN] == 1 && t.c_cc[VTIME] == 0 && (t.c_cflag & CSIZE) == CS8; }
struct Cli {
    Proc *p = nullptr; Conn *tty = nullptr; InoP ino; struct termios orig; Service *srv = nullptr; S seen;   /* seen: everything displayed */
    void term() { tty = put_tty(CTTY); ino = get_ino(CTTY); memset(&orig, 0, sizeof orig); orig.c_iflag = ICRNL | IXON | IMAXBEL; orig.c_oflag = OPOST | ONLCR; orig.c_cflag = CS7 | PARENB | CREAD | HUPCL; orig.c_lflag = ISIG | ICANON | ECHO | ECHOE | IEXTEN | NOFLSH; orig.c_cc[VMIN] = 4; orig.c_cc[VTIME] = 7; orig.c_cc[VINTR] = 3; orig.c_cc[VEOF] = 4; ino->tio = orig; }
    Service *server(const S &ip = "127.0.0.1", int port = 7890) { srv = tcp_service("srv", ip, port); W->hosts["localhost"] = "127.0.0.1"; W->hosts["cli.host"] = "10.9.9.9"; return srv; }
    void run(std::vector<S> args) { args.insert(args.begin(), "conman"); p = start_proc("conman", cli_main, args); }
    Conn *s() { return srv->cur(); }
    S show() { S t = tty->take(); seen += t; return t; }
    bool restored() const { return !memcmp(&ino->tio, &orig, sizeof orig); }
    /* the scripted server's part of the handshake; returns the two request lines */
    S hello, req;
    void handshake(const S &rsp) { settle(); REQUIRE(s(), "the client does not connect: %s%s", p->err.c_str(), p->out.c_str()); hello = s()->take(); s()->send("OK\n"); settle(); req = s()->take(); s()->send(rsp + "\n"); settle(); }
};
inline S cstat(int n, const S &name, const S &what) { return "\r\n<ConMan> " + (n == 1 ? "Connection to console [" + name + "]" : fmt("Broadcast to %d consoles", n)) + " " + what + ".\r\n"; }
