// The real kernel's side; everything it creates lies in the directory named by its second argument.
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pty.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include "ops.h"
static std::string dir; static int lst = -1, ulst = -1;
std::string scratch() { return dir; }
void drop_dir(const std::string &d) { rmdir(d.c_str()); }
int net_port() { static int port; if (!port) { struct sockaddr_in a; memset(&a, 0, sizeof a); socklen_t l = sizeof a; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int s = socket(AF_INET, SOCK_STREAM, 0); bind(s, (struct sockaddr*)&a, sizeof a); getsockname(s, (struct sockaddr*)&a, &l); port = ntohs(a.sin_port); ::close(s); } return port; }
// A child process does it, so that the signal comes from outside as it does in practice.
static int kids[8], nk; static int aparent;
void later(int ms, void (*f)(int), int arg) { fflush(stdout); aparent = getpid(); int k = fork(); if (!k) { struct timespec ts = { 0, ms * 1000000 }; nanosleep(&ts, 0); if (ms == 10) kill(aparent, SIGUSR1); else f(arg); _exit(0); } kids[nk++] = k; }
void later_done() { while (nk) { int k = kids[--nk]; while (waitpid(k, 0, 0) < 0 && errno == EINTR) ; } }
void emit(const std::string &s) { puts(s.c_str()); }
void case_end() {}
static bool p_send(Peer *p, const char *s) { if (p->gone || p->shutw) return false; ::send(p->pfd, s, strlen(s), MSG_NOSIGNAL) < 0 && errno == ENOTSOCK && ::write(p->pfd, s, strlen(s)) && usleep(500) /* the terminal layer passes it on from a worker */; return true; }
static std::string p_take(Peer *p) { std::string s; if (p->gone) return s; char b[256]; ssize_t n; while ((n = read(p->pfd, b, sizeof b)) > 0) s.append(b, n); return s; }
static bool p_close(Peer *p) { if (p->gone) return false; p_take(p); ::close(p->pfd); p->gone = true; return true; }
static bool p_shut(Peer *p) { if (p->gone || p->shutw) return false; ::shutdown(p->pfd, SHUT_WR); p->shutw = true; return true; }
static bool p_reset(Peer *p) { if (p->gone) return false; struct linger l = { 1, 0 }; setsockopt(p->pfd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(p->pfd); p->gone = true; return true; }
Peer *peer_open(const char *k) {
    Peer *p = new Peer; std::string kind = k; p->send = p_send; p->take = p_take; p->close = p_close; p->shut = p_shut;
    if (kind == "inet" || kind == "accepted") {
        struct sockaddr_in a; memset(&a, 0, sizeof a); socklen_t l = sizeof a; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (lst < 0) { lst = socket(AF_INET, SOCK_STREAM, 0); if (bind(lst, (struct sockaddr*)&a, sizeof a) || listen(lst, 5)) { perror("listen"); exit(3); } }
        getsockname(lst, (struct sockaddr*)&a, &l); int c = socket(AF_INET, SOCK_STREAM, 0); if (connect(c, (struct sockaddr*)&a, sizeof a)) { perror("connect"); exit(3); } int s = accept(lst, 0, 0); int one = 1;
        for (int q : { c, s }) setsockopt(q, IPPROTO_TCP, 1, &one, sizeof one);
        p->fd = kind == "inet" ? c : s; p->pfd = kind == "inet" ? s : c; p->reset = p_reset;
    } else if (kind == "unix") {
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, (dir + "/sock").c_str());
        if (ulst < 0) { ulst = socket(AF_UNIX, SOCK_STREAM, 0); unlink(a.sun_path); if (bind(ulst, (struct sockaddr*)&a, sizeof a) || listen(ulst, 5)) { perror("listen"); exit(3); } }
        p->fd = socket(AF_UNIX, SOCK_STREAM, 0); connect(p->fd, (struct sockaddr*)&a, sizeof a); p->pfd = accept(ulst, 0, 0);
    } else if (kind == "spair") { int s[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, s); p->fd = s[0]; p->pfd = s[1]; }
    else if (kind == "piper") { int s[2]; if (pipe(s)) exit(3); p->fd = s[0]; p->pfd = s[1]; p->shut = 0; p->take = 0; }
    else if (kind == "pipew") { int s[2]; if (pipe(s)) exit(3); p->fd = s[1]; p->pfd = s[0]; p->shut = 0; p->send = 0; }
    else { int m, s; struct termios t; if (openpty(&m, &s, 0, 0, 0)) { perror("openpty"); exit(3); } tcgetattr(s, &t); cfmakeraw(&t); tcsetattr(s, TCSANOW, &t); p->fd = s; p->pfd = m; p->shut = 0; }
    fcntl(p->pfd, F_SETFL, fcntl(p->pfd, F_GETFL) | O_NONBLOCK); return p;
}
void peer_done(Peer *p) { if (!p->gone) { struct linger l = { 1, 0 }; setsockopt(p->pfd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(p->pfd); } ::close(p->fd); delete p; }
std::string other_lock(const std::string &path) {
    fflush(stdout); int sp[2]; if (pipe(sp)) exit(3); pid_t k = fork();
    if (!k) { std::string o; int f = open(path.c_str(), O_RDWR); if (f < 0) o = "none"; else { struct flock l; memset(&l, 0, sizeof l); l.l_type = F_WRLCK; fcntl(f, F_GETLK, &l); o = l.l_type == F_UNLCK ? "free" : l.l_type == F_WRLCK ? "wr" : "rd"; if (l.l_type != F_UNLCK && l.l_pid != getppid()) o += "!pid"; } if (write(sp[1], o.data(), o.size())) {} _exit(0); }
    ::close(sp[1]); char b[32]; ssize_t n = read(sp[0], b, sizeof b); ::close(sp[0]); waitpid(k, 0, 0); return std::string(b, n > 0 ? n : 0);
}
int main(int c, char **v) { dir = v[2]; return conform_main(c, v); }
