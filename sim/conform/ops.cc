// The programs whose behaviour is compared: the same system calls, run once by the real kernel and once by the simulated
// one. Every sequence of operations up to a length is carried out and the result of each is written down.
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include <vector>
#include "ops.h"
static std::string errn(int e) { const char *s = strerrorname_np(e); return s ? s : "?"; }
static std::string res(long r) { return r < 0 ? errn(errno) : std::to_string(r); }
static std::string rd(int fd, size_t n) { char b[64]; errno = 0; ssize_t r = read(fd, b, n); if (r < 0) return errn(errno); for (int i = 0; i < r; i++) if (!b[i]) b[i] = '~'; return "\"" + std::string(b, r) + "\""; }
static std::string pl(int fd, int timeout = 0) { struct pollfd p = { fd, POLLIN | POLLOUT, 0 }; poll(&p, 1, timeout); std::string s; auto f = [&](int b, char c) { if (p.revents & b) s += c; }; f(POLLIN, 'i'); f(POLLOUT, 'o'); f(POLLERR, 'e'); f(POLLHUP, 'h'); f(POLLNVAL, 'n'); 
    fd_set r, w; FD_ZERO(&r); FD_ZERO(&w); FD_SET(fd, &r); FD_SET(fd, &w); struct timeval tv = { 0, 0 }; if (select(fd + 1, &r, &w, 0, &tv) >= 0) s += FD_ISSET(fd, &r) ? FD_ISSET(fd, &w) ? "/rw" : "/r" : FD_ISSET(fd, &w) ? "/w" : ""; return s.empty() ? "-" : s; }
static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
// ---- streams: this process's end against a peer's
static std::string streams(const char *kind, const std::vector<int> &ops) {
    Peer *p = peer_open(kind); std::string o; int fd = p->fd; bool sock = !strchr("pt", kind[0]); if (fd < 0) { o = "open " + errn(errno); peer_done(p); return o; } nonblock(fd);
    static int k; o = pl(fd);
    for (int op : ops) {
        char x = 'A' + k++ % 26; std::string r; errno = 0;
        switch (op) {
        case 0: r = "w" + res(write(fd, &x, 1)); break;
        case 1: r = "r" + rd(fd, kind[0] == 't' ? 1 : 2); break;
        case 2: if (kind[0] == 't') { r = "f" + res(tcflush(fd, TCIFLUSH)); break; } if (!sock) return peer_done(p), ""; r = "s" + res(shutdown(fd, SHUT_WR)); break;
        case 3: if (kind[0] == 't') { struct termios t; r = "t" + res(tcgetattr(fd, &t)); r += res(tcsetattr(fd, TCSAFLUSH, &t)); r += isatty(fd) ? "y" : "n"; break; } if (!sock) return peer_done(p), ""; { int e = 0; socklen_t l = sizeof e; r = getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l) < 0 ? "E" + errn(errno) : "E" + (e ? errn(e) : std::string("0")); } break;
        case 4: if (!p->send || !p->send(p, "abc")) return peer_done(p), ""; r = "<abc"; break;
        case 5: if (!p->take) return peer_done(p), ""; r = ">" + p->take(p); break;
        case 6: if (!p->close || !p->close(p)) return peer_done(p), ""; r = "<close"; break;
        case 7: if (!p->shut || !p->shut(p)) return peer_done(p), ""; r = "<shut"; break;
        case 8: if (!p->reset || !p->reset(p)) return peer_done(p), ""; r = "<reset"; break;
        }
        o += " " + r + "," + pl(fd);
    }
    close(fd); peer_done(p); return o;
}
// ---- files
static std::string files(const std::vector<int> &ops) {
    static int n; std::string d = scratch() + "/f" + std::to_string(n++); mkdir(d.c_str(), 0755); std::string a = d + "/a", b = d + "/b"; int fd = -1; std::string o; int k = 0;
    for (int op : ops) {
        std::string r; errno = 0; char buf[3] = { (char)('A' + k), (char)('a' + k), 0 }; k++;
        auto op1 = [&](const char *w, int fl) { if (fd >= 0) close(fd); fd = open(a.c_str(), fl, 0666); r = w + (fd < 0 ? errn(errno) : std::string("0")); };
        switch (op) {
        case 0: op1("oa", O_WRONLY | O_CREAT | O_APPEND); break;
        case 1: op1("ot", O_RDWR | O_CREAT | O_TRUNC); break;
        case 2: op1("or", O_RDWR); break;
        case 3: op1("ox", O_WRONLY | O_CREAT | O_EXCL); break;
        case 4: r = "w" + res(write(fd, buf, 2)); break;
        case 5: r = "r" + rd(fd, 3); break;
        case 6: r = "u" + res(unlink(a.c_str())); break;
        case 7: r = "m" + res(rename(a.c_str(), b.c_str())); break;
        case 8: r = "M" + res(rename(b.c_str(), a.c_str())); break;
        case 9: r = "l" + res(lseek(fd, 1, SEEK_SET)); break;
        case 10: r = "t" + res(ftruncate(fd, 1)); break;
        }
        struct stat s; o += " " + r; for (auto &q : { a, b }) o += "," + (stat(q.c_str(), &s) < 0 ? "-" : std::to_string(s.st_size)); if (fd >= 0) { o += fstat(fd, &s) < 0 ? "!" : "," + std::to_string(s.st_size) + (stat(a.c_str(), &s) == 0 ? [&]{ struct stat t; fstat(fd, &t); return t.st_ino == s.st_ino; }() ? "=" : "#" : "#"); }
    }
    for (auto &q : { a, b }) { int g = open(q.c_str(), O_RDONLY); if (g >= 0) { o += " " + rd(g, 60); close(g); unlink(q.c_str()); } }
    if (fd >= 0) close(fd); drop_dir(d); return o;
}
// ---- stdio over files, as the daemon's own log and the pid file use it
static std::string stdios(const std::vector<int> &ops) {
    static int n; std::string d = scratch() + "/s" + std::to_string(n++); mkdir(d.c_str(), 0755); std::string a = d + "/a"; FILE *f = 0; std::string o; int k = 0; char b[32];
    for (int op : ops) { std::string r; errno = 0; k++;
        auto op1 = [&](const char *m) { if (f) fclose(f); f = fopen(a.c_str(), m); r = m + (f ? std::string("+") : errn(errno)); };
        if (op > 3 && !f) return unlink(a.c_str()), drop_dir(d), "";
        switch (op) {
        case 0: op1("a"); break; case 1: op1("w"); break; case 2: op1("r"); break;
        case 3: r = "u" + res(unlink(a.c_str())); break;
        case 4: r = "p" + res(fprintf(f, "%d\n", k)); break;
        case 5: setvbuf(f, 0, _IOLBF, 0); r = "L"; break;
        case 6: r = "F" + res(fflush(f)); break;
        case 7: r = "g"; if (fgets(b, sizeof b, f)) r += std::string("\"") + b + "\""; else r += feof(f) ? "eof" : ferror(f) ? "err" : "?"; clearerr(f); break;
        case 8: r = "c" + res(fclose(f)); f = 0; break;
        }
        struct stat s; o += " " + r + "," + (stat(a.c_str(), &s) < 0 ? "-" : std::to_string(s.st_size));
    }
    if (f) fclose(f); { int g = open(a.c_str(), O_RDONLY); if (g >= 0) { o += " " + rd(g, 60); close(g); unlink(a.c_str()); } } drop_dir(d); for (auto &c : o) if (c == '\n') c = '/'; return o;
}
// ---- descriptors: numbers, duplicates, flags, close-on-exec
static std::string fds(const std::vector<int> &ops) {
    std::string o; std::string a = scratch() + "/d"; int base = open(a.c_str(), O_RDWR | O_CREAT, 0666), x = -1, y = -1;
    for (int op : ops) { std::string r; errno = 0;
        switch (op) {
        case 0: if (x >= 0) close(x); x = open(a.c_str(), O_RDWR | O_NONBLOCK); r = "o" + std::to_string(x - base); break;
        case 1: if (x < 0) return close(base), ""; if (y >= 0) close(y); y = dup(x); r = "d" + std::to_string(y - base); break;
        case 2: r = "c" + res(close(x)); x = -1; break;
        case 3: r = "C" + res(close(y)); y = -1; break;
        case 4: r = "f" + res(fcntl(x, F_SETFD, FD_CLOEXEC)); break;
        case 5: r = "2" + (x < 0 ? res(dup2(x, base)) : std::to_string(dup2(x, base) - base)); break;
        case 6: r = "w" + res(write(x, "abc", 3)); break;
        case 7: r = "l" + res(lseek(y, 0, SEEK_CUR)); break;
        case 8: r = "n" + res(x >= 0 ? fcntl(x, F_SETFL, fcntl(x, F_GETFL) & ~O_NONBLOCK) : -1); break;
        }
        o += " " + r; for (int q : { x, y, base }) { if (q < 0) { o += ",-"; continue; } o += "," + res(fcntl(q, F_GETFD)) + ((fcntl(q, F_GETFL) & O_NONBLOCK) ? "n" : "b"); }
    }
    if (x >= 0) close(x); if (y >= 0) close(y); close(base); unlink(a.c_str()); return o;
}
// ---- signals: which calls they interrupt, what is pending, what is blocked
static volatile int hits[65]; static void onsig(int s) { hits[s]++; }
static std::string sigs(const std::vector<int> &ops) {
    std::string o; for (int s : { SIGUSR1, SIGUSR2 }) { hits[s] = 0; signal(s, SIG_IGN); } sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, 0);
    for (int op : ops) { std::string r; errno = 0; sigemptyset(&m); sigaddset(&m, SIGUSR1);
        auto act = [&](void (*h)(int), int fl) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = fl; return sigaction(SIGUSR1, &a, 0); };
        switch (op) {
        case 0: r = "h" + res(act(onsig, 0)); break;
        case 1: r = "H" + res(act(onsig, SA_RESTART)); break;
        case 2: r = "i" + res(act(SIG_IGN, 0)); break;
        case 3: r = "k" + res(kill(getpid(), SIGUSR1)); break;
        case 4: r = "b" + res(sigprocmask(SIG_BLOCK, &m, 0)); break;
        case 5: r = "u" + res(sigprocmask(SIG_UNBLOCK, &m, 0)); break;
        case 6: { struct sigaction a; sigaction(SIGUSR1, 0, &a); r = std::string("q") + (a.sa_handler == onsig ? "h" : a.sa_handler == SIG_IGN ? "i" : a.sa_handler == SIG_DFL ? "d" : "?"); } break;
        case 7: r = "z" + res(kill(getpid(), 0)); break;
        }
        o += " " + r + "," + std::to_string(hits[SIGUSR1]);
    }
    signal(SIGUSR1, SIG_IGN); sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, 0); return o;
}
// ---- locks: a second process tries what this one holds
static std::string lk(int fd, int cmd, int ty) { struct flock l; memset(&l, 0, sizeof l); l.l_type = ty; l.l_whence = SEEK_SET; errno = 0; int r = fcntl(fd, cmd, &l); return r < 0 ? errn(errno) : cmd == F_GETLK ? l.l_type == F_UNLCK ? "free" : l.l_type == F_WRLCK ? "wr" : "rd" : "0"; }
static std::string locks(const std::vector<int> &ops) {
    static int n; std::string d = scratch() + "/l" + std::to_string(n++); mkdir(d.c_str(), 0755); std::string a = d + "/a", o; int f[2] = {-1, -1};
    for (int op : ops) { std::string r; errno = 0;
        switch (op) {
        case 0: case 1: if (f[op] >= 0) close(f[op]); f[op] = open(a.c_str(), op ? O_WRONLY : O_RDWR | O_CREAT, 0666); r = "o" + std::to_string(op) + (f[op] < 0 ? errn(errno) : ""); break;
        case 2: r = "W" + lk(f[0], F_SETLK, F_WRLCK); break;
        case 3: r = "R" + lk(f[0], F_SETLK, F_RDLCK); break;
        case 4: r = "U" + lk(f[0], F_SETLK, F_UNLCK); break;
        case 5: r = "V" + lk(f[1], F_SETLK, F_RDLCK); break;
        case 6: r = "c" + res(close(f[1])); f[1] = -1; break;
        case 7: r = "u" + res(unlink(a.c_str())); break;
        }
        o += " " + r + "," + other_lock(a);
    }
    for (int g : f) if (g >= 0) close(g); unlink(a.c_str()); drop_dir(d); return o;
}
// ---- making connections: a listener, one that connects, one that was accepted
static std::string fam(int r, const struct sockaddr_in &a, int port) { return r < 0 ? errn(errno) : a.sin_family != AF_INET ? "?" : ntohs(a.sin_port) == port ? "P" : a.sin_port ? "p" : "0"; }
static std::string net(const std::vector<int> &ops) {
    std::string o; int x = -1, y = -1, z = -1, port = net_port(); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int one = 1;
    for (int op : ops) { std::string r; errno = 0; struct sockaddr_in b; memset(&b, 0, sizeof b); socklen_t l = sizeof b; int e;
        switch (op) {
        case 0: if (x >= 0) close(x); x = socket(AF_INET, SOCK_STREAM, 0); setsockopt(x, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); nonblock(x); r = "X"; break;
        case 1: r = "b" + res(bind(x, (struct sockaddr*)&a, sizeof a)); break;
        case 2: r = "l" + res(listen(x, 5)); break;
        case 3: if (y >= 0) { struct linger g = { 1, 0 }; setsockopt(y, SOL_SOCKET, SO_LINGER, &g, sizeof g); close(y); } y = socket(AF_INET, SOCK_STREAM, 0); r = "Y"; break;
        case 4: if (y >= 0) fcntl(y, F_SETFL, fcntl(y, F_GETFL) & ~O_NONBLOCK); r = "c" + res(connect(y, (struct sockaddr*)&a, sizeof a)); if (y >= 0) nonblock(y); break;
        case 5: if (z >= 0) close(z); z = accept(x, (struct sockaddr*)&b, &l); r = "a" + (z < 0 ? errn(errno) : fam(0, b, port) + ((fcntl(z, F_GETFL) & O_NONBLOCK) ? "n" : "b") + (fcntl(z, F_GETFD) ? "c" : "")); if (z >= 0) nonblock(z); break;
        case 6: r = "x" + res(close(x)); x = -1; break;
        case 7: if (z < 0) return close(x), close(y), ""; r = "z" + res(close(z)); z = -1; break;
        case 8: r = "w" + res(write(y, "hi", 2)); break;
        case 9: r = "r" + rd(z, 5); break;
        case 10: e = getpeername(y, (struct sockaddr*)&b, &l); r = "p" + fam(e, b, port); break;
        case 11: e = getsockname(x, (struct sockaddr*)&b, &l); r = "n" + fam(e, b, port); break;
        }
        o += " " + r; for (int q : { x, y, z }) o += "," + (q < 0 ? "" : pl(q));
    }
    for (int q : { y, z, x }) if (q >= 0) { struct linger g = { 1, 0 }; setsockopt(q, SOL_SOCKET, SO_LINGER, &g, sizeof g); close(q); } return o;
}
// ---- waiting: a signal arrives during the call, what it waits for only later
static std::string waits(const std::vector<int> &ops) {
    int q[2]; if (pipe(q)) return "pipe"; std::string o; struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onsig; a.sa_flags = ops[0] ? SA_RESTART : 0; sigaction(SIGUSR1, &a, 0); hits[SIGUSR1] = 0;
    if (ops[2]) later(10, [](int) { kill(getpid(), SIGUSR1); }, 0); if (ops[3]) later(30, [](int fd) { if (write(fd, "z", 1)) {} }, q[1]);
    struct pollfd p = { q[0], POLLIN, 0 }; fd_set r; FD_ZERO(&r); FD_SET(q[0], &r); struct timeval tv = { 0, 60000 }; struct timespec ts = { 0, 50000000 }, rem = { 0, 0 }; errno = 0; int fl = open((scratch() + "/w").c_str(), O_RDWR | O_CREAT, 0644);
    switch (ops[1]) {
    case 0: if (!ops[3]) { if (!ops[2] || ops[0]) return close(q[0]), close(q[1]), close(fl), ""; } o = "read " + rd(q[0], 3); break;
    case 1: o = "poll " + res(poll(&p, 1, 60)); break;
    case 2: o = "select " + res(select(q[0] + 1, &r, 0, 0, &tv)) + (FD_ISSET(q[0], &r) ? "+" : "-"); break;
    case 3: o = "sleep " + res(nanosleep(&ts, &rem)) + (rem.tv_nsec > 30000000 && rem.tv_nsec <= 40000000 ? "r" : rem.tv_nsec ? "?" : ""); break;
    case 4: o = "poll0 " + res(poll(&p, 1, 0)); break;
    }
    o += "," + std::to_string(hits[SIGUSR1]); later_done(); o += "," + std::to_string(hits[SIGUSR1]); close(q[0]); close(q[1]); close(fl); return o;
}
template <class F> static void every(const char *kind, int nops, int depth, F f) {
    std::vector<int> s(depth, 0); long cnt = 0;
    for (;;) { std::string o = f(s); cnt++; if (!o.empty()) { std::string l = kind; l += " "; for (int c : s) l += (char)(c < 10 ? '0' + c : 'a' + c - 10); emit(l + ":" + o); case_end(); }
        int i = depth - 1; while (i >= 0 && ++s[i] == nops) s[i--] = 0; if (i < 0) break; }
}
int conform_main(int argc, char **argv) {
    int d = argc > 1 ? atoi(argv[1]) : 3; signal(SIGPIPE, SIG_IGN);
    for (const char *k : { "inet", "accepted", "unix", "spair", "piper", "pipew", "tty" }) every(k, 9, d, [&](const std::vector<int> &s) { return streams(k, s); });
    every("file", 11, d, files); every("stdio", 9, d, stdios); every("fds", 9, d, fds); every("sig", 8, d + 1, sigs); every("lock", 8, d, locks); every("net", 12, d, net);
    for (int i = 0; i < 40; i++) { std::string o = waits({ i & 1, i >> 3, i >> 1 & 1, i >> 2 & 1 }); if (!o.empty()) emit("wait " + std::to_string(i) + ":" + o); case_end(); }
    return 0;
}
