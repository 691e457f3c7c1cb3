// The simulated kernel's side: the same program as a process of the simulated world.
#include <errno.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <fcntl.h>
#include <string.h>
#include <stdlib.h>
#include "../ref.h"
#include "../core.h"
#include <time.h>
#include "ops.h"
static std::string out; static Service *svc, *usvc; static int lst = -1;
std::string scratch() { return "/tmp"; }
void drop_dir(const std::string &d) { W->vfs.erase(d); }
int net_port() { return 3000; }
static std::vector<Task*> timers; struct Later { int ms; void (*f)(int); int arg; };
static void *timer(void *a) { Later *l = (Later*)a; task_block("timer", nullptr, W->now + l->ms * 1000, false); l->f(l->arg); return 0; }
void later(int ms, void (*f)(int), int arg) { timers.push_back(new_task(W->procs[0], "timer", timer, new Later{ms, f, arg})); }
void later_done() { struct timespec ts = { 0, 10000000 }; for (auto t : timers) while (t->st != Task::DONE) nanosleep(&ts, 0); nanosleep(&ts, 0); timers.clear(); }
void emit(const std::string &s) { out += s + "\n"; }
void mem_recycle(); void next_case(); void case_end() { next_case(); mem_recycle(); }
static bool p_send(Peer *p, const char *s) { if (p->gone || p->shutw) return false; ((Conn*)p->c)->send(s); return true; }
static std::string p_take(Peer *p) { return p->gone ? "" : ((Conn*)p->c)->take(); }
static bool p_close(Peer *p) { if (p->gone) return false; ((Conn*)p->c)->take(); ((Conn*)p->c)->close(); p->gone = true; return true; }
static bool p_shut(Peer *p) { if (p->gone || p->shutw) return false; ((Conn*)p->c)->shut_wr(); p->shutw = true; return true; }
static bool p_reset(Peer *p) { if (p->gone) return false; ((Conn*)p->c)->reset(); p->gone = true; return true; }
static bool f_send(Peer *p, const char *s) { if (p->gone || p->shutw) return false; write(p->pfd, s, strlen(s)); return true; }
static std::string f_take(Peer *p) { std::string s; char b[64]; ssize_t n; if (p->gone) return s; while ((n = read(p->pfd, b, sizeof b)) > 0) s.append(b, n); return s; }
static bool f_close(Peer *p) { if (p->gone) return false; f_take(p); ::close(p->pfd); p->gone = true; return true; }
static bool f_shut(Peer *p) { if (p->gone || p->shutw) return false; ::shutdown(p->pfd, SHUT_WR); p->shutw = true; return true; }
Peer *peer_open(const char *k) {
    static int n; Peer *p = new Peer; std::string kind = k; p->send = p_send; p->take = p_take; p->close = p_close; p->shut = p_shut;
    if (kind == "inet") { if (!svc) svc = tcp_service("s", "10.0.0.1", 23); svc->conns.clear(); p->fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = svc->addr; if (connect(p->fd, (struct sockaddr*)&a, sizeof a)) p->fd = -1; p->c = svc->cur(); p->reset = p_reset; }
    else if (kind == "accepted") { if (lst < 0) { lst = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(99); bind(lst, (struct sockaddr*)&a, sizeof a); listen(lst, 5); } p->c = dial(99); p->fd = accept(lst, 0, 0); p->reset = p_reset; }
    else if (kind == "unix") { if (!usvc) usvc = unix_service("u", "/tmp/sock"); usvc->conns.clear(); p->fd = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, "/tmp/sock"); if (connect(p->fd, (struct sockaddr*)&a, sizeof a)) p->fd = -1; p->c = usvc->cur(); }
    else if (kind == "tty") { p->c = put_tty("/dev/ttyS0"); p->fd = open("/dev/ttyS0", O_RDWR); p->shut = 0; }
    else { int s[2]; p->take = f_take; p->send = f_send; p->close = f_close; p->shut = f_shut;
        if (kind == "spair") { socketpair(AF_UNIX, SOCK_STREAM, 0, s); p->fd = s[0]; p->pfd = s[1]; }
        else { if (pipe(s)) p->fd = -1; if (kind == "piper") { p->fd = s[0]; p->pfd = s[1]; p->take = 0; } else { p->fd = s[1]; p->pfd = s[0]; p->send = 0; } p->shut = 0; }
        fcntl(p->pfd, F_SETFL, fcntl(p->pfd, F_GETFL) | O_NONBLOCK); }
    return p;
}
void peer_done(Peer *p) { if (p->pfd >= 0 && !p->gone) ::close(p->pfd); ::close(p->fd); if (!p->gone && p->c) ((Conn*)p->c)->close(); delete p; }
std::string other_lock(const std::string &path) { InoP n = get_ino(path); if (!n) return "none"; std::string o = "free"; for (auto &k : n->locks) o = std::string(k.second == F_WRLCK ? "wr" : "rd") + (k.first == W->procs[0]->pid ? "" : "!pid"); return o; }
SCENARIO(conform, "CONFORM", 0, 0, 0, 0, 0, 0, "the simulated system against the real one") {
    const char *d = getenv("CONFORM_DEPTH"), *f = getenv("CONFORM_OUT"); start_proc("conform", conform_main, {"conform", d}); settle(); advance(600);
    int o = syscall(SYS_open, f, O_WRONLY | O_CREAT | O_TRUNC, 0644); for (size_t k = 0; k < out.size(); ) { long n = syscall(SYS_write, o, out.data() + k, out.size() - k); if (n <= 0) break; k += n; } syscall(SYS_close, o);
    outcome("done");
}
