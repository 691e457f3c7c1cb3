#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <netdb.h>
#include <pthread.h>
#include <pwd.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <syslog.h>
#include <arpa/inet.h>
#include <time.h>
#include <ipmiconsole.h>
#include <getopt.h>

World *W; std::vector<IpmiCtx*> ipmi_ctxs; int ipmi_engine_threads = -1; bool ipmi_engine_down, ipmi_submit_fails;
static int g_serial, g_pid, g_srcport, g_connid, g_ino;
static int64_t g_port_next = 40000;

/* ---------------------------------------------------------------- helpers */
static Proc *P() { return cur ? cur->proc : (W && !W->procs.empty() ? W->procs[0] : nullptr); }
static int err_ret(int e) { errno = e; post_error_point(); return -1; }
#define ERR(e) return err_ret(e)
static void tty_init(struct termios *t) { memset(t, 0, sizeof *t); t->c_iflag = BRKINT|ICRNL|IXON; t->c_oflag = OPOST|ONLCR; t->c_cflag = CREAD|CS8|B9600; t->c_lflag = ISIG|ICANON|ECHO|IEXTEN; t->c_cc[VMIN] = 1; }
File::~File() {}
static FileP mkfile(int type) { auto f = std::make_shared<File>(); f->type = type; f->serial = ++g_serial; return f; }
/* Descriptors 0, 1 and 2 are open from the start (no File stands behind them) until closed. */
static bool std_open(Proc *p, int fd) { return fd >= 0 && fd < 3 && !p->fds[fd] && !p->stdclosed[fd]; }
static int fd_install(Proc *p, FileP f, int minfd = 0) {
    int lim = W->nofile;
    for (int i = minfd; i < lim; i++) {
        if ((int)p->fds.size() <= i) { p->fds.resize(i+1); p->cloexec.resize(i+1); }
        if (!p->fds[i] && !std_open(p, i)) { p->fds[i] = f; p->cloexec[i] = 0; f->refs++; return i; }
    }
    return -1;
}
static FileP getf(int fd) { Proc *p = P(); if (!p || fd < 0 || fd >= (int)p->fds.size()) return nullptr; return p->fds[fd]; }
static S norm(const S &cwd, const S &p0) {
    S p = (!p0.empty() && p0[0] == '/') ? p0 : cwd + "/" + p0; std::vector<S> c; size_t i = 0;
    while (i < p.size()) { while (i < p.size() && p[i]=='/') i++; size_t j = i; while (j < p.size() && p[j] != '/') j++; S e = p.substr(i, j-i); i = j;
        if (e.empty() || e == ".") continue; if (e == "..") { if (!c.empty()) c.pop_back(); continue; } c.push_back(e); }
    S o; for (auto &e : c) o += "/" + e; return o.empty() ? "/" : o;
}
static S npath(const char *p) { return norm(P() ? P()->cwd : "/", p ? p : ""); }
static S dirof(const S &p) { size_t k = p.rfind('/'); return k == 0 || k == S::npos ? "/" : p.substr(0, k); }
static S baseof(const S &p) { size_t k = p.rfind('/'); return k == S::npos ? p : p.substr(k+1); }
InoP get_ino(const S &path) { auto it = W->vfs.find(path); return it == W->vfs.end() ? nullptr : it->second; }
static InoP mk_ino(const S &path, int type, int mode) { auto n = std::make_shared<Ino>(); n->type = type; n->mode = mode; n->id = ++g_ino; n->mtime = W->now/1000000; tty_init(&n->tio); W->vfs[path] = n; return n; }
void mk_dir(const S &p) { if (get_ino(p)) return; if (p != "/") mk_dir(dirof(p)); mk_ino(p, 'd', 0755); }
InoP put_file(const S &path, const S &data, int mode) { mk_dir(dirof(path)); auto n = mk_ino(path, 'r', mode); n->data = data; return n; }
S file_data(const S &p) { auto n = get_ino(p); return n ? n->data : S(); }
void inotify_fire(const S &dir, const S &name, uint32_t mask) {
    for (auto p : W->procs) for (auto &f : p->fds) if (f && f->type == F_INOT) for (auto &w : f->watches)
        if (w.second.first == dir && (w.second.second & mask & IN_ALL_EVENTS)) {
            struct inotify_event e{}; e.wd = w.first; e.mask = mask; S nm = name; 
            if (!nm.empty()) { nm.push_back(0); while (nm.size() % sizeof e) nm.push_back(0); } e.len = nm.size();
            f->inq += S((char*)&e, sizeof e) + nm; }
}
void inotify_fire_self(const S &dir, uint32_t mask) {
    for (auto p : W->procs) for (auto &f : p->fds) if (f && f->type == F_INOT) for (auto it = f->watches.begin(); it != f->watches.end(); ) {
        if (it->second.first == dir) {
            if (it->second.second & mask & IN_ALL_EVENTS) { struct inotify_event e{}; e.wd = it->first; e.mask = mask; f->inq += S((char*)&e, sizeof e); }
            if (mask & IN_DELETE_SELF) { struct inotify_event e{}; e.wd = it->first; e.mask = IN_IGNORED; f->inq += S((char*)&e, sizeof e); it = f->watches.erase(it); continue; }
        } ++it; }
}
void inotify_overflow() { for (auto p : W->procs) for (auto &f : p->fds) if (f && f->type == F_INOT) { struct inotify_event e{}; e.wd = -1; e.mask = IN_Q_OVERFLOW; f->inq += S((char*)&e, sizeof e); } }
void vfs_unlink(const S &p) { W->vfs.erase(p); }
void vfs_rename(const S &a, const S &b) { auto n = get_ino(a); W->vfs.erase(a); W->vfs[b] = n; }
Conn *put_tty(const S &path) {
    mk_dir(dirof(path)); auto n = mk_ino(path, 'c', 0600); n->tty_in = std::make_shared<Pipe>(); n->tty_out = std::make_shared<Pipe>();
    Conn *c = new Conn; c->id = ++g_connid; c->label = path; c->to = n->tty_in; c->from = n->tty_out; c->state = 1; return c;
}
/* ------------------------------------------------------------------- conn */
void Conn::send(const S &s) { obs("send " + label); if (to->rclosed || to->reset) return; to->q += s; to->total += s.size(); if (s.size()) tracef("%s -> app: \"%s\"", label.c_str(), esc(s, 120).c_str()); }
S Conn::take() { S s; s.swap(from->q); if (!s.empty()) { obs(label + ">" + s); tracef("app -> %s: \"%s\"", label.c_str(), esc(s, 160).c_str()); } got += s; return s; }
bool Conn::app_closed() const { return from->wclosed; }
void Conn::close() { tracef("%s closes its end", label.c_str()); ours_closed = true; to->wclosed = true; from->rclosed = true; from->q.clear(); obs("close " + label); }
void Conn::shut_wr() { tracef("%s half-closes", label.c_str()); to->wclosed = true; obs("shutwr " + label); }
void Conn::reset() { tracef("%s resets the connection", label.c_str()); ours_closed = true; bool eof = to->wclosed, over = eof && from->wclosed; from->rclosed = to->wclosed = true; if (!over) { to->reset = from->reset = true; if (app) { app->rst_err = eof ? EPIPE : ECONNRESET; app->rst_eof = eof; } } obs("rst " + label); }
void Conn::accept() { if (state) return; state = 1; app->state = 4; tracef("connection to %s established", label.c_str()); obs("acc " + label); }
void Conn::refuse(int e) { if (state) return; state = 2; app->state = 5; app->so_error = e; to->wclosed = from->rclosed = true; ours_closed = true; tracef("connection to %s fails", label.c_str()); obs("ref " + label); }
Service *tcp_service(const S &name, const S &ip, int port) { auto s = new Service; s->name = name; s->addr.sin_family = AF_INET; inet_aton(ip.c_str(), &s->addr.sin_addr); s->addr.sin_port = htons(port); W->services.push_back(s); return s; }
Service *unix_service(const S &name, const S &path) { auto s = new Service; s->name = name; s->upath = path; W->services.push_back(s); mk_dir(dirof(path)); auto n = mk_ino(path, 's', 0777); n->svc = s; return s; }
static void wire(FileP f, Conn *c) { c->app = f; c->to = std::make_shared<Pipe>(); c->from = std::make_shared<Pipe>(); f->rx = c->to; f->tx = c->from; f->conn = c; f->label = c->label; }
static FileP find_listener(int port, uint32_t ip) { for (auto p : W->procs) for (auto &f : p->fds) if (f && f->type == F_SOCK && f->state == 2 && ntohs(f->local.sin_port) == port && (f->local.sin_addr.s_addr == 0 || f->local.sin_addr.s_addr == ip)) return f; return nullptr; }
bool is_listening(int port, const S &ip) { struct in_addr a; inet_aton(ip.c_str(), &a); return !!find_listener(port, a.s_addr); }
Conn *dial(int port, const S &ip, int srcport, const S &dst) {
    struct in_addr lo; inet_aton(dst.c_str(), &lo); FileP l = find_listener(port, lo.s_addr); if (!l) return nullptr;
    Conn *c = new Conn; c->id = ++g_connid; c->label = fmt("client%d", c->id); FileP f = mkfile(F_SOCK); f->domain = AF_INET; f->state = 4; wire(f, c); c->state = 1;
    f->local = l->local; f->local.sin_addr = lo; f->peer.sin_family = AF_INET; inet_aton(ip.c_str(), &f->peer.sin_addr); f->peer.sin_port = htons(srcport ? srcport : 50000 + ++g_srcport);
    l->backlog.push_back(f); tracef("%s connects", c->label.c_str()); obs("dial"); return c;
}
/* ---------------------------------------------------------- file lifecycle */
static void do_close(FileP f) {
    if (--f->refs > 0) return;
    if (f->tx) f->tx->wclosed = true;
    if (f->rx) f->rx->rclosed = true;
    if (f->conn) { f->conn->t_appclose = W->now; obs("appclose " + f->label); tracef("app closes connection to %s", f->label.c_str()); }
    if (f->type == F_SOCK && f->state == 2) for (auto &b : f->backlog) { b->tx->wclosed = true; b->rx->rclosed = true; if (b->conn) b->conn->t_appclose = W->now; }
    if (f->ino) { f->ino->nopen--; if (f->type == F_TTY) f->ino->tty_opens--; }
}
static int vclose(Proc *p, int fd) {
    if (p && std_open(p, fd)) { p->stdclosed[fd] = true; return 0; }
    if (fd < 0 || fd >= (int)p->fds.size() || !p->fds[fd]) ERR(EBADF);
    FileP f = p->fds[fd]; p->fds[fd] = nullptr; if (fd < 3) p->stdclosed[fd] = true;
    if (f->ino) f->ino->locks.erase(p->pid);   /* POSIX: closing any fd drops the process's locks */
    if (!in_aside_child) do_close(f); else f->refs--;
    return 0;
}
/* ------------------------------------------------------------------ stdio */
static std::map<FILE*, int> g_stdio;
struct Cookie { int fd; Proc *p; };
extern "C" {
FILE *__real_fopen(const char*, const char*); int __real_fclose(FILE*); int __real_fileno(FILE*);
pid_t __real_fork(void); pid_t __real_waitpid(pid_t,int*,int);
void __real__exit(int) __attribute__((noreturn)); void __real_exit(int) __attribute__((noreturn));
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_open(const char*, int, ...); int __wrap_close(int); ssize_t __wrap_read(int, void*, size_t); ssize_t __wrap_write(int, const void*, size_t);
}
static ssize_t ck_r(void *c, char *b, size_t n) { return __wrap_read(((Cookie*)c)->fd, b, n); }
static ssize_t ck_w(void *c, const char *b, size_t n) { ssize_t r = __wrap_write(((Cookie*)c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_c(void *c) { return vclose(((Cookie*)c)->p, ((Cookie*)c)->fd); }
static ssize_t std_w(void *c, const char *b, size_t n) {
    Proc *p = P(); int fd = (int)(intptr_t)c;
    if (p) { FileP f = fd < (int)p->fds.size() ? p->fds[fd] : nullptr;
        if (f && f->type != F_NULL) { if (f->type == F_TTY) { f->tx->q.append(b, n); return n; } __wrap_write(fd, b, n); return n; }
        if (f) return n;
        (fd == 1 ? p->out : p->err).append(b, n); if (g_verbose) { S s(b, n); while (!s.empty() && (s.back()=='\n'||s.back()=='\r')) s.pop_back(); if (!s.empty()) tracef("%s %s: %s", p->name.c_str(), fd == 1 ? "stdout":"stderr", s.c_str()); }
        if (W->on_log) W->on_log(S(b, n)); }
    return n;
}
/* ------------------------------------------------ a parent waiting for its daemonizing child
   The parent's branch of fork() runs in real copies of this process (snapshots taken at the fork), each given the pipe's contents. */
bool in_shell; static int shell_out = -1;
struct ShRes { int waiting, code, sig; int ne, no; char err[4096], out[4096]; };
static void shell_report(int waiting, int code, int sig) { Proc *p = P(); static ShRes r; r.waiting = waiting; r.code = code; r.sig = sig; r.ne = std::min(p->err.size(), sizeof r.err); r.no = std::min(p->out.size(), sizeof r.out); memcpy(r.err, p->err.data(), r.ne); memcpy(r.out, p->out.data(), r.no); syscall(SYS_write, shell_out, &r, sizeof r); syscall(SYS_exit_group, 0); }
void shell_waiting() { shell_report(1, 0, 0); }
struct ShAsk { int eof, n; char data[4096]; };
static bool shell_fork(Proc *p, int vpid) {   /* true: this is the parent's branch */
    int sp[2]; if (syscall(SYS_socketpair, AF_UNIX, SOCK_SEQPACKET, 0, sp)) fail("internal: socketpair"); fflush(stdout); pid_t k = __real_fork();
    if (k) { syscall(SYS_close, sp[1]); p->shell_fd = sp[0]; for (auto &f : p->fds) if (f && f->type == F_PIPER) { p->shell_pipe = f->rx; f->refs++; } return false; }
    syscall(SYS_close, sp[0]); ShAsk a;
    for (;;) { if (syscall(SYS_read, sp[1], &a, sizeof a) <= 0) syscall(SYS_exit_group, 0);
        pid_t w = __real_fork(); if (w) { int st; __real_waitpid(w, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { ShRes r; memset(&r, 0, sizeof r); r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 99; syscall(SYS_write, sp[1], &r, sizeof r); } continue; }
        in_shell = true; shell_out = sp[1]; for (auto &f : p->fds) if (f && f->type == F_PIPER) f->rx->q.append(a.data, a.n); else if (f && f->type == F_PIPEW && !a.eof) f->refs++; p->err.clear(); p->out.clear(); return true; }
}
ShellView shell_view(Proc *p) {
    ShellView v; if (p->shell_fd < 0) { v.waiting = !p->exited; v.code = p->code; v.sig = p->killed_by; v.err = p->err; v.out = p->out; return v; }
    ShAsk a; memset(&a, 0, sizeof a); a.eof = p->shell_pipe->wclosed; a.n = std::min(p->shell_pipe->q.size(), sizeof a.data); for (int i = 0; i < a.n; i++) a.data[i] = p->shell_pipe->q[i];
    static ShRes r; if (syscall(SYS_write, p->shell_fd, &a, sizeof a) < 0 || syscall(SYS_read, p->shell_fd, &r, sizeof r) != sizeof r) fail("internal: no answer from the waiting parent");
    v.waiting = r.waiting; v.code = r.code; v.sig = r.sig; v.err = S(r.err, r.ne); v.out = S(r.out, r.no); tracef("the starting command %s (status %d, signal %d) %s", v.waiting ? "waits" : "has ended", v.code, v.sig, esc(v.err).c_str()); return v;
}
/* a failing system call of the process under examination */
static bool sysf(const char *n) { if (W && !W->sys_force.empty() && W->sys_force == n) return true; if (!W || !W->sys_faults || in_shell || in_aside_child || !cur || cur->proc != W->sys_faults || W->sys_skip.count(n)) return false; if (!choose(2, FAULT, n)) return false; W->sys_failed += S(n) + " "; tracef("%s fails", n); return true; }
static bool sysf_io(const char *n, const FileP &f) { if (!W || !W->sys_io || !W->sys_faults) return false; if (f->type != F_SOCK && f->type != F_SOCKPAIR && f->type != F_TTY && f->type != F_REG) return false; return sysf((S(n) + " " + (f->type == F_REG ? f->path : f->label)).c_str()); }
static bool sysf_rt(const char *n) { return W && W->sys_io && sysf(n); }   /* only while running */
static int g_in_resolver, g_in_hosts_ctl;
void world_init() { g_in_resolver = g_in_hosts_ctl = 0;
    W = new World; W->now = 1700000000ll * 1000000; g_pid = 1000;
    for (auto d : {"/", "/tmp", "/etc", "/var", "/var/log", "/dev", "/bin", "/run"}) mk_dir(d);
    mk_ino("/dev/null", 'n', 0666); put_file("/bin/sh", "", 0755);
    cookie_io_functions_t io{}; io.write = std_w;
    stdout = fopencookie((void*)1, "w", io); setvbuf(stdout, 0, _IONBF, 0);
    stderr = fopencookie((void*)2, "w", io); setvbuf(stderr, 0, _IONBF, 0);
}
/* -------------------------------------------------------------- processes */
static void run_atexits(Proc *p) { while (!p->atexits.empty()) { auto f = p->atexits.back(); p->atexits.pop_back(); f(); } }
static void *proc_tramp(void *a) { Proc *p = (Proc*)a; int rc = p->mainfn(p->argv.size(), p->cargv.data()); fflush(stdout); run_atexits(p); proc_exit(p, rc, 0); return 0; }
Proc *start_proc(const S &name, int (*m)(int,char**), const std::vector<S> &argv) {
    Proc *p = new Proc; p->name = name; p->mainfn = m; p->argv = argv; p->pid = p->pgid = ++g_pid; p->fds.resize(3); p->cloexec.resize(3);
    for (auto &s : p->argv) p->cargv.push_back(strdup(s.c_str())); p->cargv.push_back(nullptr);
    inet_aton("127.0.0.1", &p->ip.sin_addr); W->procs.push_back(p); optind = 1; optarg = 0; opterr = 1; { static bool first = true; if (!first) optind = 0; first = false; }
    p->maintask = new_task(p, name, proc_tramp, p); return p;
}
void proc_exit(Proc *p, int code, int sig) {
    if (in_shell) shell_report(0, code, sig);
    if (p->exited) return;
    p->exited = true; p->t_exit = W->now; p->code = code; p->killed_by = sig; tracef("%s exits code=%d sig=%d", p->name.c_str(), code, sig); obs(fmt("exit %d %d", code, sig));
    for (auto &n : W->vfs) n.second->locks.erase(p->pid);
    for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i]) vclose(p, i);
    for (auto t : tasks) if (t->proc == p) t->st = Task::DONE;
    if (cur && cur->proc == p) task_exit();
}
void deliver_signals() {
    Proc *p = cur->proc;
    while (p->sig_due()) {
        auto it = p->pending.begin(); while (p->blocked >> *it & 1) ++it; int s = *it; p->pending.erase(it); auto &h = p->sigs[s];
        if (h.h == SIG_IGN) continue;
        if (h.h == nullptr || h.h == SIG_DFL) {
            if (s == SIGCHLD || s == SIGWINCH || s == SIGCONT || s == SIGURG) continue;
            if (s == SIGTSTP || s == SIGSTOP || s == SIGTTIN || s == SIGTTOU) { p->stopped = 1; p->nstops++; while (p->stopped) { cur->st = Task::BLOCK; cur->ready = nullptr; cur->deadline = -1; cur->why = "stopped"; cur->intr_ok = false; cur->ready = [p]{ return !p->stopped; }; task_yield(nullptr); cur->st = Task::RUN; } continue; }
            proc_exit(p, -1, s);
        }
        if (!(h.flags & SA_RESTART)) p->intr_call = true; int e = errno; p->sigcount++; tracef("%s handles signal %d", p->name.c_str(), s); errno = e; h.h(s);   /* errno stays as the handler leaves it */
    }
}
void raise_sig(Proc *p, int s) {
    if (p->exited) return;
    tracef("signal %d -> %s", s, p->name.c_str()); obs(fmt("sig%d", s));
    if (s == SIGKILL) { proc_exit(p, -1, 9); return; }
    auto &h = p->sigs[s]; if (h.h == SIG_IGN && !(p->blocked >> s & 1)) return;
    if (s == SIGCONT) p->stopped = 0;
    if ((h.h == nullptr || h.h == SIG_DFL) && (s == SIGCHLD || s == SIGWINCH || s == SIGURG || s == SIGCONT)) return;
    for (int q : p->pending) if (q == s) return;
    p->pending.push_back(s);
}
/* a call that waits: false if a signal handler without SA_RESTART ended it */
static bool wait_restart(const char *why, std::function<bool()> ready) { while (!ready()) if (!task_block(why, ready, -1, true) && cur->intr && cur->proc->intr_call) return false; return true; }
/* ---------------------------------------------------------------- memory */
static char *arena, *atop; static const size_t ARENA = (size_t)1<<30;
struct Hdr { uint32_t magic, size; uint64_t freed; };
static const uint32_t MG = 0x51A110C5;
static std::vector<Hdr*> *allocs;
static bool in_arena(const void *p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
extern "C" bool mem_is_freed(const void *p) {
    if (((uintptr_t)p >> 32) == 0xdddddddd || (uintptr_t)p == 0) return false;
    if (!in_arena(p) || !allocs) return false;
    for (auto h : *allocs) { char *u = (char*)(h+1); if ((char*)p >= u && (char*)p < u + h->size) return h->freed != 0; } return false;
}
static void mem_bad(const char *what, Hdr *h) { fail("memory error in %s: %s (block of %u bytes)", cur && cur->proc ? cur->proc->name.c_str() : "?", what, h ? h->size : 0); }
static void chk(Hdr *h) { unsigned char *e = (unsigned char*)(h+1) + h->size; for (int i = 0; i < 16; i++) if (e[i] != 0xFD) mem_bad("write beyond the end of a heap block", h); }
static bool page_guard(uint32_t sz) { return sz > 4096; }
void mem_check_all() {
    if (!allocs) return;
    for (auto h : *allocs) { if (page_guard(h->size) && h->freed) continue; if (h->magic != MG) mem_bad("heap block header overwritten", 0); if (!h->freed) chk(h); else { unsigned char *u = (unsigned char*)(h+1); for (uint32_t i = 0; i < h->size; i++) if (u[i] != 0xDD) mem_bad("write to a freed heap block", h); } }
}
size_t mem_live() { size_t n = 0; if (allocs) for (auto h : *allocs) n += !h->freed; return n; }
/* between the cases of one execution: start over once nothing is in use */
void mem_recycle() { static char *tried; if (!arena || atop < arena + ARENA / 4 || (tried && tried <= atop && atop < tried + (64 << 20))) return; tried = atop; if (mem_live()) return; mem_check_all(); mprotect(arena, ARENA, PROT_READ|PROT_WRITE); madvise(arena, ARENA, MADV_DONTNEED); allocs->clear(); atop = arena; tried = nullptr; }
extern "C" {
void *__wrap_malloc(size_t n) {
    if (!cur || in_aside_child) { if (!arena && !cur) return __real_malloc(n); }
    if (!arena) { arena = (char*)mmap(0, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); atop = arena; allocs = new std::vector<Hdr*>; }
    char *p = atop;
    if (page_guard(n)) { uintptr_t u = ((uintptr_t)p + sizeof(Hdr) + 4095) & ~4095ull; p = (char*)u - 16; atop = (char*)((u + n + 16 + 4095) & ~4095ull); if ((char*)u - sizeof(Hdr) < arena) abort(); p = (char*)u - sizeof(Hdr); }
    else { p = (char*)(((uintptr_t)p + 15) & ~15ull); atop = p + sizeof(Hdr) + ((n + 15) & ~15ull) + 16; }
    if (atop > arena + ARENA) { errno = ENOMEM; return 0; }
    Hdr *h = (Hdr*)p; h->magic = MG; h->size = n; h->freed = 0; memset(h+1, 0xAA, n < 2048 ? n : 2048); memset((char*)(h+1) + n, 0xFD, 16); allocs->push_back(h); return h+1;
}
void __wrap_free(void *q) {
    if (!q) return;
    if (!in_arena(q)) { __real_free(q); return; }
    Hdr *h = (Hdr*)q - 1; 
    bool known = false; for (size_t i = allocs->size(); i-- > 0; ) if ((*allocs)[i] == h) { known = true; break; }
    if (!known) mem_bad("free of an invalid pointer", 0);
    if (h->magic != MG) mem_bad("heap block header overwritten", 0);
    if (h->freed) mem_bad("double free", h);
    chk(h); h->freed = 1;
    if (page_guard(h->size)) mprotect(h+1, (h->size + 16 + 4095) & ~4095ull, PROT_NONE);
    else memset(q, 0xDD, h->size);
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a*b); if (p) memset(p, 0, a*b); return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (!q) return __wrap_malloc(n);
    if (!in_arena(q)) return __real_realloc(q, n);
    Hdr *h = (Hdr*)q - 1; if (h->freed) mem_bad("realloc of a freed block", h);
    void *p = __wrap_malloc(n); if (!p) return p; memcpy(p, q, h->size < n ? h->size : n); __wrap_free(q); return p;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char*)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char*)__wrap_malloc(n+1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

/* ------------------------------------------------------------------- time */
int __wrap_gettimeofday(struct timeval *tv, void*) { tv->tv_sec = W->now / 1000000; tv->tv_usec = W->now % 1000000; return 0; }
time_t __wrap_time(time_t *t) { time_t x = W->now / 1000000; if (t) *t = x; return x; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!W) return __real_clock_gettime(c, ts); ts->tv_sec = W->now / 1000000; ts->tv_nsec = W->now % 1000000 * 1000; return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *rem) { sched_point("sleep"); int64_t d = W->now + a->tv_sec*1000000ll + (a->tv_nsec+999)/1000; if (!task_block("sleep", []{ return false; }, d, true) && cur->intr) { cur->intr = false; int64_t left = std::max<int64_t>(0, d - W->now); if (rem) { rem->tv_sec = left / 1000000; rem->tv_nsec = left % 1000000 * 1000; } ERR(EINTR); } return 0; }
int __wrap_usleep(useconds_t u) { struct timespec t = { (time_t)(u/1000000), (long)(u%1000000)*1000 }; return __wrap_nanosleep(&t, 0); }
unsigned __wrap_sleep(unsigned s) { struct timespec t = { (time_t)s, 0 }; __wrap_nanosleep(&t, 0); return 0; }
unsigned __wrap_alarm(unsigned) { return 0; }
int __wrap_rand(void) { return W->rnd ? W->rnd() : 4; }
void __wrap_srand(unsigned) {}
long __wrap_random(void) { return W->rnd ? W->rnd() : 4; }
void __wrap_srandom(unsigned) {}

/* ---------------------------------------------------------------- fds/files */
static bool writable_dir(const S &) { return true; }
int __wrap_open(const char *path, int flags, ...) { if (sysf("open")) ERR(EACCES);
    va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    sched_point("open"); S p = npath(path); Proc *pr = P();
    if (W->open_hook) { int e = W->open_hook(p, flags); if (e) ERR(e); }
    InoP n = get_ino(p);
    if (!n) {
        if (!(flags & O_CREAT)) ERR(ENOENT);
        InoP d = get_ino(dirof(p)); if (!d) ERR(ENOENT); if (d->type != 'd') ERR(ENOTDIR); if (!writable_dir(p)) ERR(EACCES);
        n = mk_ino(p, 'r', mode & ~pr->umask_); tracef("app creates file %s", p.c_str());
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) ERR(EEXIST);
    if (n->type == 'd' && (flags & O_ACCMODE) != O_RDONLY) ERR(EISDIR);
    if (n->type == 's') ERR(ENXIO);
    FileP f = mkfile(n->type == 'r' ? F_REG : n->type == 'd' ? F_DIR : n->type == 'c' ? F_TTY : F_NULL); f->flags = flags; f->ino = n; f->path = p;
    if (n->type == 'r' && (flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { n->data.clear(); tracef("app truncates %s", p.c_str()); obs("trunc " + p); }
    if (n->type == 'c') { f->rx = n->tty_in; f->tx = n->tty_out; n->tty_opens++; f->rx->rclosed = false; f->rx->wclosed = false; f->tx->wclosed = false; f->label = p; }
    int fd = fd_install(pr, f); if (fd < 0) ERR(EMFILE);
    n->nopen++; if (flags & O_CLOEXEC) pr->cloexec[fd] = 1;
    obs("open " + p); return fd;
}
int __wrap_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return __wrap_open(path, flags, m); }
int __wrap_creat(const char *p, mode_t m) { return __wrap_open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
int __wrap_close(int fd) { sched_point("close"); return vclose(P(), fd); }
int __wrap_dup2(int a, int b) { if (sysf("dup2")) ERR(EBUSY); Proc *p = P(); FileP f = getf(a); if (!f || b < 0) ERR(EBADF); if (a == b) return b; if (b < (int)p->fds.size() && p->fds[b]) vclose(p, b); if ((int)p->fds.size() <= b) { p->fds.resize(b+1); p->cloexec.resize(b+1); } p->fds[b] = f; p->cloexec[b] = 0; f->refs++; return b; }
int __wrap_dup(int a) { FileP f = getf(a); if (!f) ERR(EBADF); int fd = fd_install(P(), f); if (fd < 0) ERR(EMFILE); return fd; }
int __wrap_pipe2(int fds[2], int flags) { if (sysf("pipe")) ERR(EMFILE); Proc *p = P(); sched_point("pipe"); auto pp = std::make_shared<Pipe>(); pp->cap = 65536; FileP r = mkfile(F_PIPER), w = mkfile(F_PIPEW); r->rx = pp; w->tx = pp; r->flags = w->flags = flags & O_NONBLOCK;
    int a = fd_install(p, r); if (a < 0) ERR(EMFILE); int b = fd_install(p, w); if (b < 0) { vclose(p, a); ERR(EMFILE); } if (flags & O_CLOEXEC) p->cloexec[a] = p->cloexec[b] = 1; fds[0] = a; fds[1] = b; return 0; }
int __wrap_pipe(int fds[2]) { return __wrap_pipe2(fds, 0); }
int __wrap_socketpair(int dom, int type, int, int fds[2]) { if (sysf("socketpair")) ERR(EMFILE); Proc *p = P(); sched_point("socketpair"); auto a = std::make_shared<Pipe>(), b = std::make_shared<Pipe>(); FileP x = mkfile(F_SOCKPAIR), y = mkfile(F_SOCKPAIR); x->domain = y->domain = dom; x->state = y->state = 4; x->rx = a; x->tx = b; y->rx = b; y->tx = a; x->flags = y->flags = (type & SOCK_NONBLOCK) ? O_NONBLOCK : 0;
    int i = fd_install(p, x); if (i < 0) ERR(EMFILE); int j = fd_install(p, y); if (j < 0) { vclose(p, i); ERR(EMFILE); } fds[0] = i; fds[1] = j; return 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); FileP f = getf(fd); Proc *p = P(); if (!f) { if (fd >= 0 && fd <= 2) return 0; ERR(EBADF); }
    switch (cmd) {
    case F_GETFL: return f->flags; case F_SETFL: f->flags = (f->flags & ~(O_NONBLOCK|O_APPEND)) | (arg & (O_NONBLOCK|O_APPEND)); return 0;
    case F_GETFD: return p->cloexec[fd] ? FD_CLOEXEC : 0; case F_SETFD: p->cloexec[fd] = arg & FD_CLOEXEC; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = fd_install(p, f, arg); if (n < 0) ERR(EMFILE); if (cmd == F_DUPFD_CLOEXEC) p->cloexec[n] = 1; return n; }
    case F_SETLK: case F_SETLKW: case F_GETLK: { if (sysf(cmd == F_GETLK ? "getlk" : "setlk")) ERR(ENOLCK);
        struct flock *l = (struct flock*)arg; if (!f->ino) ERR(EINVAL); auto &m = f->ino->locks; int confl = 0;
        int acc = f->flags & O_ACCMODE;
        if (cmd != F_GETLK) { if (l->l_type == F_WRLCK && acc == O_RDONLY) ERR(EBADF); if (l->l_type == F_RDLCK && acc == O_WRONLY) ERR(EBADF); }
        for (auto &k : m) if (k.first != p->pid && (k.second == F_WRLCK || l->l_type == F_WRLCK)) confl = k.first;
        if (cmd == F_GETLK) { if (confl) { l->l_type = m[confl]; l->l_pid = confl; } else l->l_type = F_UNLCK; return 0; }
        if (l->l_type == F_UNLCK) { m.erase(p->pid); return 0; }
        if (confl) { if (cmd == F_SETLK) ERR(EAGAIN); if (!wait_restart("lock", [f,p]{ for (auto &k : f->ino->locks) if (k.first != p->pid) return false; return true; })) ERR(EINTR); }
        m[p->pid] = l->l_type; return 0; }
    } ERR(EINVAL);
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(fd, cmd, arg); }
int __wrap_flock(int, int) { return 0; }
static int do_stat(InoP n, struct stat *st) { memset(st, 0, sizeof *st); int t = n->type == 'd' ? S_IFDIR : n->type == 's' ? S_IFSOCK : n->type == 'c' || n->type == 'n' ? S_IFCHR : S_IFREG; st->st_mode = t | n->mode; st->st_ino = n->id; st->st_dev = 5; st->st_nlink = 1; st->st_size = n->data.size(); st->st_mtime = n->mtime; return 0; }
int __wrap_stat(const char *p, struct stat *st) { if (sysf("stat")) ERR(EACCES); sched_point("stat"); InoP n = get_ino(npath(p)); if (!n) ERR(ENOENT); return do_stat(n, st); }
int __wrap_lstat(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_fstat(int fd, struct stat *st) { if (sysf("fstat")) ERR(EIO); FileP f = getf(fd); if (!f) { if (std_open(P(), fd)) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR; return 0; } ERR(EBADF); } if (f->ino) return do_stat(f->ino, st); memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK; return 0; }
int __wrap_access(const char *p, int m) { if (sysf_rt("access")) ERR(EACCES); InoP n = get_ino(npath(p)); if (!n) ERR(ENOENT); if ((m & X_OK) && !(n->mode & 0111)) ERR(EACCES); return 0; }
int __wrap_unlink(const char *p) { if (sysf("unlink")) ERR(EACCES); S q = npath(p); sched_point("unlink"); if (!get_ino(q)) ERR(ENOENT); W->vfs.erase(q); obs("unlink " + q); tracef("app unlinks %s", q.c_str()); return 0; }
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *a, const char *b) { S x = npath(a), y = npath(b); if (!get_ino(x)) ERR(ENOENT); vfs_rename(x, y); return 0; }
int __wrap_mkdir(const char *p, mode_t m) { if (sysf("mkdir")) ERR(EACCES); S q = npath(p); if (get_ino(q)) ERR(EEXIST); InoP d = get_ino(dirof(q)); if (!d) ERR(ENOENT); if (d->type != 'd') ERR(ENOTDIR); mk_ino(q, 'd', m & ~P()->umask_); return 0; }
int __wrap_chmod(const char *p, mode_t m) { InoP n = get_ino(npath(p)); if (!n) ERR(ENOENT); n->mode = m; return 0; }
int __wrap_fchmod(int fd, mode_t m) { FileP f = getf(fd); if (!f || !f->ino) ERR(EBADF); f->ino->mode = m; return 0; }
int __wrap_ftruncate(int fd, off_t n) { FileP f = getf(fd); if (!f || !f->ino) ERR(EBADF); f->ino->data.resize(n); return 0; }
off_t __wrap_lseek(int fd, off_t o, int wh) { FileP f = getf(fd); if (!f) ERR(EBADF); if (f->type != F_REG) ERR(ESPIPE); f->pos = wh == SEEK_SET ? o : wh == SEEK_CUR ? f->pos + o : (int64_t)f->ino->data.size() + o; return f->pos; }
int __wrap_chdir(const char *p) { if (sysf("chdir")) ERR(EACCES); S q = npath(p); InoP n = get_ino(q); if (!n) ERR(ENOENT); P()->cwd = q; return 0; }
char *__wrap_getcwd(char *b, size_t n) { if (sysf("getcwd")) { errno = ENOENT; return 0; } S c = P()->cwd; if (c.size() + 1 > n) { errno = ERANGE; return 0; } strcpy(b, c.c_str()); return b; }
mode_t __wrap_umask(mode_t m) { int o = P()->umask_; P()->umask_ = m; return o; }
int __wrap_fsync(int) { return 0; }
int __wrap_fdatasync(int) { return 0; }
FILE *__wrap_fopen(const char *path, const char *mode) {
    int fl = mode[0] == 'r' ? (strchr(mode,'+') ? O_RDWR : O_RDONLY) : (strchr(mode,'+') ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    int fd = __wrap_open(path, fl, 0666); if (fd < 0) return 0;
    cookie_io_functions_t io = { ck_r, ck_w, 0, ck_c }; FILE *f = fopencookie(new Cookie{fd, P()}, mode, io); g_stdio[f] = fd; return f; }
FILE *__wrap_fdopen(int fd, const char *mode) { if (!getf(fd)) { errno = EBADF; return 0; } cookie_io_functions_t io = { ck_r, ck_w, 0, ck_c }; FILE *f = fopencookie(new Cookie{fd, P()}, mode, io); g_stdio[f] = fd; return f; }
int __wrap_fclose(FILE *f) { g_stdio.erase(f); if (f == stdout || f == stderr || f == stdin) return 0; return __real_fclose(f); }
int __wrap_fileno(FILE *f) { auto it = g_stdio.find(f); if (it != g_stdio.end()) return it->second; if (f == stdin) return 0; if (f == stdout) return 1; if (f == stderr) return 2; errno = EBADF; return -1; }

/* -------------------------------------------------------------- read/write */
static bool rx_ready(const FileP &f) { return f->rx && (!f->rx->q.empty() || f->rx->wclosed || f->rx->reset || f->rst_err); }
static size_t tx_space(const FileP &f) { return f->tx->q.size() >= f->tx->cap ? 0 : f->tx->cap - f->tx->q.size(); }
static bool tx_ready(const FileP &f) { return f->tx && (tx_space(f) > 0 || f->tx->rclosed || f->tx->reset || f->tx->wclosed); }
static int sock_err(FileP &f) { if (f->so_error) { int e = f->so_error; f->so_error = 0; return e; } return 0; }
static bool hung(FileP f) { return f->type == F_TTY && f->rx->wclosed; }
static ssize_t do_read(int fd, void *buf, size_t n, int mflags) {
    sched_point("read"); FileP f = getf(fd);
    if (!f) { if (fd == 0 && std_open(P(), 0)) return 0; ERR(EBADF); }
    switch (f->type) {
    case F_NULL: return 0; case F_DIR: ERR(EISDIR);
    case F_REG: { if ((f->flags & O_ACCMODE) == O_WRONLY) ERR(EBADF); size_t sz = f->ino->data.size(); if ((size_t)f->pos >= sz) return 0; size_t m = std::min(n, sz - (size_t)f->pos); memcpy(buf, f->ino->data.data() + f->pos, m); f->pos += m; return m; }
    case F_PIPEW: ERR(EBADF);
    case F_INOT: { while (f->inq.empty()) { if (f->flags & O_NONBLOCK) ERR(EAGAIN); if (!task_block("inotify", [f]{ return !f->inq.empty(); }, -1, true) && cur->intr) ERR(EINTR); }
        size_t o = 0; while (o < f->inq.size()) { struct inotify_event e; memcpy(&e, f->inq.data()+o, sizeof e); size_t l = sizeof e + e.len; if (o + l > n) break; o += l; } if (!o) ERR(EINVAL); memcpy(buf, f->inq.data(), o); f->inq.erase(0, o); return o; }
    }
    if (f->type == F_SOCK) { if (f->state == 5 || f->so_error) { int e = sock_err(f); if (e) ERR(e); if (f->state == 5) return 0; } if (f->state == 3 || f->state < 3) ERR(f->state == 3 && (f->flags & O_NONBLOCK) ? EAGAIN : ENOTCONN); }
    bool nb = (f->flags & O_NONBLOCK) || (mflags & MSG_DONTWAIT);
    if (n == 0) return 0;
    if (hung(f)) return 0;
    if (f->rerr) ERR(f->rerr); if (sysf_io("read", f)) ERR(f->type == F_SOCK || f->type == F_SOCKPAIR ? ECONNRESET : EIO);
    if (!rx_ready(f)) { if (nb) ERR(EAGAIN); 
        if (!wait_restart("read", [f]{ return rx_ready(f); })) ERR(EINTR); }
    if (f->rst_err && !f->rst_eof && f->rx->q.empty()) { int e = f->rst_err; f->rst_err = 0; if (f->type == F_SOCK || f->type == F_SOCKPAIR) { tracef("read from %s: ECONNRESET", f->label.c_str()); ERR(e); } ERR(EIO); }
    if (f->rx->q.empty()) { tracef("app reads EOF from %s", f->label.c_str()); return 0; }
    size_t m = std::min(n, f->rx->q.size()); size_t alt[3] = {m}; int na = 1; bool eag = false;
    if (f->fault & FX_SHORTR) { if (m > 1) alt[na++] = 1; if (m > 2) alt[na++] = m - 1; }
    if ((f->fault & FX_EAGAINR) && nb) eag = true;
    bool ein = f->fault & FX_EINTR; if (na + eag + ein > 1) { int c = choose(na + eag + ein, FAULT, "read"); if (c >= na + eag) { tracef("read from %s: EINTR", f->label.c_str()); ERR(EINTR); } if (c >= na) { tracef("read from %s: spurious EAGAIN", f->label.c_str()); ERR(EAGAIN); } m = alt[c]; if (c) tracef("short read (%zu) from %s", m, f->label.c_str()); }
    memcpy(buf, f->rx->q.data(), m);
    if (!(mflags & MSG_PEEK)) f->rx->q.erase(0, m);
    return m;
}
static ssize_t epipe(int mflags) { Proc *p = P(); if (!(mflags & MSG_NOSIGNAL) && p->sigs[SIGPIPE].h != SIG_IGN && !in_aside_child) { if (p->sigs[SIGPIPE].h && p->sigs[SIGPIPE].h != SIG_DFL) p->sigs[SIGPIPE].h(SIGPIPE); else proc_exit(p, -1, SIGPIPE); } ERR(EPIPE); }
static ssize_t do_write(int fd, const void *buf, size_t n, int mflags) {
    sched_point("write"); FileP f = getf(fd);
    if (!f) { if ((fd == 1 || fd == 2) && std_open(P(), fd)) { std_w((void*)(intptr_t)fd, (const char*)buf, n); return n; } ERR(EBADF); }
    if (mem_is_freed(buf)) fail("memory error: %s writes data from freed memory", P()->name.c_str());
    switch (f->type) {
    case F_NULL: return n; case F_PIPER: case F_DIR: ERR(EBADF);
    case F_REG: { if ((f->flags & O_ACCMODE) == O_RDONLY) ERR(EBADF); if (W->write_err_path && f->path == W->write_err_for) ERR(W->write_err_path); if (sysf_io("write", f)) ERR(ENOSPC); if (W->disk_full) ERR(ENOSPC);
        size_t m = n; if ((f->fault & FX_SHORTW) && n > 1) { int ein = f->fault & FX_EINTR ? 1 : 0, c = choose((n > 2 ? 3 : 2) + ein, FAULT, "write file"); if (ein && c == (n > 2 ? 3 : 2)) { tracef("write to %s: EINTR", f->path.c_str()); ERR(EINTR); } m = c == 0 ? n : c == 1 ? 1 : n - 1; }
        if (f->flags & O_APPEND) f->pos = f->ino->data.size(); if ((size_t)f->pos > f->ino->data.size()) f->ino->data.resize(f->pos);
        f->ino->data.replace(f->pos, std::min(m, f->ino->data.size() - (size_t)f->pos), (const char*)buf, m); f->pos += m; f->ino->writes.push_back({W->now, S((const char*)buf, m)});
        obs("w " + f->path); tracef("app writes %s: \"%s\"", f->path.c_str(), esc(S((const char*)buf, m), 160).c_str()); return m; }
    }
    if (f->type == F_SOCK) { if (f->state == 5 || f->so_error) { int e = sock_err(f); if (e) ERR(e); return epipe(mflags); } if (f->state < 4) { if (f->state == 3) ERR(EAGAIN); return epipe(mflags); } }
    if (f->werr) ERR(f->werr); if (sysf_io("write", f)) ERR(f->type == F_SOCK || f->type == F_SOCKPAIR ? ECONNRESET : EIO);
    if (f->type == F_TTY && (hung(f) || f->tx->rclosed)) ERR(EIO);
    if (f->tx->reset) { int e = f->rst_err; f->rst_err = 0; if (e && e != EPIPE) ERR(e); return epipe(mflags); }
    if (f->tx->wclosed) return epipe(mflags);
    if (f->tx->rclosed) { if (f->type == F_SOCK && f->domain == AF_INET && W->rst_after_peer_close) { f->tx->reset = true; f->rst_err = EPIPE; f->rst_eof = true; return n; } return epipe(mflags); }
    bool nb = (f->flags & O_NONBLOCK) || (mflags & MSG_DONTWAIT); if (n == 0) return 0;
    size_t done = 0;
    for (;;) {
        size_t sp = tx_space(f); 
        if (sp == 0) { if (nb) { if (done) return done; ERR(EAGAIN); } if (!wait_restart("write", [f]{ return tx_ready(f); })) { if (done) return done; ERR(EINTR); } if (f->tx->rclosed || f->tx->reset) { if (done) return done; return epipe(mflags); } continue; }
        size_t m = std::min(n - done, sp);
        if (nb) { size_t alt[3] = {m}; int na = 1; bool eag = (f->fault & FX_EAGAINW); if (f->fault & FX_SHORTW) { if (m > 1) alt[na++] = 1; if (m > 2) alt[na++] = m-1; }
            bool ein = f->fault & FX_EINTR; if (na + eag + ein > 1) { int c = choose(na + eag + ein, FAULT, "write"); if (c >= na + eag) { tracef("write to %s: EINTR", f->label.c_str()); ERR(EINTR); } if (c >= na) { tracef("write to %s: EAGAIN", f->label.c_str()); ERR(EAGAIN); } m = alt[c]; if (c) tracef("short write (%zu of %zu) to %s", m, n, f->label.c_str()); } }
        f->tx->q.append((const char*)buf + done, m); f->tx->total += m; done += m;
        if (nb || done == n) return done;
    }
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if (mem_is_freed(b)) fail("memory error: read() into freed memory"); return do_read(fd, b, n, 0); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return do_read(fd, b, n, 0); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return do_read(fd, b, n, fl); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return do_write(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr*, socklen_t*) { return do_read(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr*, socklen_t) { return do_write(fd, b, n, fl); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { S s; for (int i = 0; i < c; i++) s.append((char*)v[i].iov_base, v[i].iov_len); return do_write(fd, s.data(), s.size(), 0); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; S s(t, 0); ssize_t r = do_read(fd, &s[0], t, 0); if (r <= 0) return r; size_t o = 0; for (int i = 0; i < c && o < (size_t)r; i++) { size_t m = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, s.data()+o, m); o += m; } return r; }
static short revents_of(FileP f, short ev) {
    short r = 0;
    switch (f->type) {
    case F_REG: case F_NULL: case F_DIR: return ev & (POLLIN|POLLOUT);
    case F_INOT: return f->inq.empty() ? 0 : ev & POLLIN;
    case F_PIPER: if (!f->rx->q.empty()) r |= ev & POLLIN; if (f->rx->wclosed) r |= POLLHUP; return r;
    case F_PIPEW: if (f->tx->rclosed) r |= POLLERR; if (tx_space(f)) r |= ev & POLLOUT; return r;
    case F_TTY: case F_SOCKPAIR: if (rx_ready(f)) r |= ev & POLLIN; if (tx_ready(f)) r |= ev & POLLOUT; if (f->type == F_TTY && hung(f)) r |= POLLERR|POLLHUP; if (f->type == F_SOCKPAIR && f->rx->wclosed && (f->tx->rclosed || f->tx->wclosed)) r |= POLLHUP; if (f->tx->reset) r |= POLLERR|POLLHUP; return r;
    case F_SOCK:
        if (f->state == 2) return f->backlog.empty() ? 0 : ev & POLLIN;
        if (f->state < 2) return (ev & POLLOUT) | POLLHUP;
        if (f->state == 3) return 0;
        if (f->state == 5) return (ev & (POLLIN|POLLOUT)) | (f->so_error ? POLLERR : 0) | POLLHUP;
        if (rx_ready(f)) r |= ev & POLLIN; if (tx_ready(f)) r |= ev & POLLOUT;
        if (f->tx->reset) r |= (ev & (POLLIN|POLLOUT)) | (f->rst_err ? POLLERR : 0) | POLLHUP;
        if (f->rx->wclosed && (f->tx->wclosed || (f->domain == AF_UNIX && f->tx->rclosed))) r |= POLLHUP;
        return r;
    } return 0;
}
static int poll_eval(std::vector<struct pollfd> &v, Proc *p) { int n = 0; for (auto &x : v) { x.revents = 0; if (x.fd < 0) continue; FileP f = x.fd < (int)p->fds.size() ? p->fds[x.fd] : nullptr; if (!f) x.revents = std_open(p, x.fd) ? 0 : POLLNVAL; else x.revents = revents_of(f, x.events); if (x.revents) n++; } return n; }
int __wrap_poll(struct pollfd *fds, nfds_t n, int ms) {
    sched_point("poll"); Proc *p = P(); p->npolls++; if (mem_is_freed(fds)) fail("memory error: poll() on a freed descriptor array");
    std::vector<struct pollfd> v(fds, fds + n); int r = poll_eval(v, p);
    if (!r && ms != 0) {
        int64_t dl = ms < 0 ? -1 : W->now + (int64_t)ms * 1000; 
        bool ok = task_block("poll", [&v,p]{ return poll_eval(v, p) > 0; }, dl, true);
        if (!ok && cur->intr) ERR(EINTR); r = poll_eval(v, p);
    }
    if (n && mem_is_freed(fds)) fail("memory error: the descriptor array was freed while poll() was waiting and is overwritten when it returns"); for (nfds_t i = 0; i < n; i++) fds[i].revents = v[i].revents;
    return r;
}
int __wrap_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t*) { return __wrap_poll(fds, n, ts ? ts->tv_sec*1000 + (ts->tv_nsec+999999)/1000000 : -1); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    std::vector<struct pollfd> v; for (int i = 0; i < n; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) { FileP f = getf(i); if (!f && !std_open(P(), i)) ERR(EBADF); v.push_back({i, ev, 0}); } }
    if (!W->in_pselect) sched_point("select"); Proc *p = P(); int c = poll_eval(v, p); int64_t tmo = tv ? tv->tv_sec*1000000ll + tv->tv_usec : -1;
    if (!c && tmo != 0) { bool ok = task_block("select", [&v,p]{ return poll_eval(v, p) > 0; }, tmo < 0 ? -1 : W->now + tmo, true); if (!ok && cur->intr) ERR(EINTR); c = poll_eval(v, p); }
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); c = 0;
    for (auto &x : v) { if (r && (x.events & POLLIN) && (x.revents & (POLLIN|POLLHUP|POLLERR))) { FD_SET(x.fd, r); c++; } if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT|POLLERR))) { FD_SET(x.fd, w); c++; } }
    return c;
}
/* ---------------------------------------------------------------- sockets */
int __wrap_socket(int dom, int type, int) { if (sysf("socket")) ERR(EMFILE); sched_point("socket"); FileP f = mkfile(F_SOCK); f->domain = dom; f->flags = (type & SOCK_NONBLOCK) ? O_NONBLOCK|O_RDWR : O_RDWR; int fd = fd_install(P(), f); if (fd < 0) ERR(EMFILE); if (type & SOCK_CLOEXEC) P()->cloexec[fd] = 1; return fd; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t) { if (sysf("bind")) ERR(EADDRINUSE); FileP f = getf(fd); if (!f) ERR(EBADF); if (f->state) ERR(EINVAL); if (a->sa_family == AF_INET) { f->local = *(struct sockaddr_in*)a; if (find_listener(ntohs(f->local.sin_port), f->local.sin_addr.s_addr)) ERR(EADDRINUSE); if (!f->local.sin_port) f->local.sin_port = htons(g_port_next++); } f->state = 1; return 0; }
int __wrap_listen(int fd, int n) { if (sysf("listen")) ERR(EADDRINUSE); FileP f = getf(fd); if (!f) ERR(EBADF); if (f->state > 2) ERR(EINVAL); if (!f->state) { f->local.sin_family = AF_INET; f->local.sin_port = htons(g_port_next++); } f->state = 2; f->backlogmax = n; obs("listen"); return 0; }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    sched_point("accept"); FileP f = getf(fd); if (!f) ERR(EBADF); if (f->type != F_SOCK || f->state != 2) ERR(EINVAL);
    if (!f->backlog.empty() && W->accept_err) { int e = W->accept_err; if (e == ECONNABORTED || e == EPERM || e == EPROTO) f->backlog.pop_front(); W->accept_err = 0; ERR(e); }
    if (f->backlog.empty()) { if (f->flags & O_NONBLOCK) ERR(EAGAIN); if (!wait_restart("accept", [f]{ return !f->backlog.empty(); })) ERR(EINTR); }
    FileP c = f->backlog.front(); if (sysf_rt("accept")) ERR(EMFILE); int n = fd_install(P(), c); if (n < 0) ERR(EMFILE); f->backlog.pop_front(); c->flags = O_RDWR | ((fl & SOCK_NONBLOCK) ? O_NONBLOCK : 0); if (fl & SOCK_CLOEXEC) P()->cloexec[n] = 1;
    if (a && l) { memcpy(a, &c->peer, std::min((size_t)*l, sizeof c->peer)); *l = sizeof c->peer; } return n;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t) {
    if (sysf_rt("connect")) ERR(ENETUNREACH); sched_point("connect"); FileP f = getf(fd); if (!f) ERR(EBADF); if (f->state == 4) ERR(EISCONN); if (f->state == 3) ERR(EALREADY);
    if (f->state == 5) { int e = sock_err(f); ERR(e ? e : ECONNABORTED); }
    Service *s = nullptr;
    if (a->sa_family == AF_UNIX) { S up = norm(P()->cwd, ((struct sockaddr_un*)a)->sun_path); InoP n = get_ino(up); f->upath = up; if (!n) { obs("connect enoent"); tracef("app connects to missing %s", up.c_str()); for (auto x : W->services) if (x->upath == up) { Conn *c = new Conn; c->id = ++g_connid; c->label = x->name + "!"; c->to = std::make_shared<Pipe>(); c->from = std::make_shared<Pipe>(); c->state = 2; c->t_attempt = W->now; x->conns.push_back(c); } ERR(ENOENT); } if (n->type != 's' || !n->svc) ERR(ECONNREFUSED); s = (Service*)n->svc; }
    else if (a->sa_family == AF_INET) {
        const struct sockaddr_in *in = (const struct sockaddr_in*)a; f->peer = *in; f->local.sin_family = AF_INET; f->local.sin_addr = P()->ip.sin_addr; f->local.sin_port = htons(50000 + ++g_srcport);
        for (auto x : W->services) if (x->upath.empty() && x->addr.sin_port == in->sin_port && x->addr.sin_addr.s_addr == in->sin_addr.s_addr) s = x;
        if (!s) { FileP l = find_listener(ntohs(in->sin_port), in->sin_addr.s_addr); if (!l) { obs("refused"); ERR(ECONNREFUSED); }
            FileP b = mkfile(F_SOCK); b->domain = AF_INET; b->state = 4; b->local = *in; b->peer = f->local; auto x = std::make_shared<Pipe>(), y = std::make_shared<Pipe>(); f->rx = x; f->tx = y; b->rx = y; b->tx = x; f->state = 4; f->label = "daemon"; b->label = "conman"; l->backlog.push_back(b); return 0; }
    } else ERR(EAFNOSUPPORT);
    Conn *c = new Conn; c->id = ++g_connid; c->svc = s; c->t_attempt = W->now; c->label = fmt("%s#%zu", s->name.c_str(), s->conns.size() + 1); wire(f, c); f->fault = s->fault; s->conns.push_back(c);
    obs("connect " + c->label); tracef("app connects to %s", c->label.c_str());
    int r = s->policy ? s->policy(c) : 0;
    if (r == 0) { f->state = 4; c->state = 1; return 0; }
    if (r > 0) { c->state = 2; f->state = 0; f->rx = f->tx = nullptr; tracef("connect to %s: error %d", c->label.c_str(), r); ERR(r); }
    f->state = 3;
    if (f->flags & O_NONBLOCK) ERR(EINPROGRESS);
    if (!wait_restart("connect", [f]{ return f->state != 3; })) ERR(EINTR); if (f->state == 4) return 0; int e = sock_err(f); ERR(e);
}
int __wrap_shutdown(int fd, int how) { FileP f = getf(fd); if (!f) ERR(EBADF); if (f->type == F_SOCK && (f->state < 4 || f->tx->reset || (f->domain == AF_INET && f->rx->wclosed && f->tx->wclosed))) ERR(ENOTCONN); if (how != SHUT_RD) f->tx->wclosed = true; if (how != SHUT_WR) { f->rx->wclosed = true; } return 0; }
int __wrap_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { FileP f = getf(fd); if (!f) ERR(EBADF); int x = 0; if (l == SOL_SOCKET && o == SO_ERROR) { x = f->so_error; f->so_error = 0; if (f->state == 4 && f->rst_err) { x = f->rst_err; f->rst_err = 0; } } else if (f->opts.count({l,o})) x = f->opts[{l,o}]; if (v && n && *n >= sizeof(int)) { *(int*)v = x; *n = sizeof(int); } return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { if (sysf("setsockopt")) ERR(ENOBUFS); FileP f = getf(fd); if (!f) ERR(EBADF); f->opts[{l,o}] = n >= sizeof(int) ? *(const int*)v : 1; return 0; }
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *n) { if (sysf_rt("getpeername")) ERR(ENOTCONN); FileP f = getf(fd); if (!f) ERR(EBADF); if (f->state != 4 || f->tx->reset) ERR(ENOTCONN); memcpy(a, &f->peer, std::min((size_t)*n, sizeof f->peer)); *n = sizeof f->peer; return 0; }
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *n) { if (sysf("getsockname")) ERR(ENOBUFS); FileP f = getf(fd); if (!f) ERR(EBADF); if (f->domain == AF_INET) f->local.sin_family = AF_INET; memcpy(a, &f->local, std::min((size_t)*n, sizeof f->local)); *n = sizeof f->local; return 0; }
static struct hostent g_he; static char g_hname[256], g_haddr[4]; static char *g_hl[2] = {g_haddr, 0}, *g_ha[1] = {0};
static struct hostent *he(const S &nm, uint32_t a) { snprintf(g_hname, 256, "%s", nm.c_str()); memcpy(g_haddr, &a, 4); g_he.h_name = g_hname; g_he.h_aliases = g_ha; g_he.h_addrtype = AF_INET; g_he.h_length = 4; g_he.h_addr_list = g_hl; return &g_he; }
/* The resolver's and the access library's static state: entering twice at a time corrupts it. */
struct OneAtATime { int &n; OneAtATime(int &c, const char *what) : n(c) { n++; REQUIRE(n == 1, "%s is entered by two threads at the same time (it is not thread-safe)", what); sched_point(what); } ~OneAtATime() { n--; } };
struct hostent *__wrap_gethostbyname(const char *n) { OneAtATime once(g_in_resolver, "the resolver"); struct in_addr a; if (inet_aton(n, &a)) return he(n, a.s_addr); auto it = W->hosts.find(n); if (it == W->hosts.end()) { *__h_errno_location() = HOST_NOT_FOUND; return 0; } inet_aton(it->second.c_str(), &a); return he(n, a.s_addr); }
struct hostent *__wrap_gethostbyaddr(const void *a, socklen_t, int) { OneAtATime once(g_in_resolver, "the resolver"); struct in_addr x; memcpy(&x, a, 4); S ip = inet_ntoa(x); for (auto &h : W->hosts) if (h.second == ip) return he(h.first, x.s_addr); *__h_errno_location() = HOST_NOT_FOUND; return 0; }
int __wrap_getaddrinfo(const char *n, const char *sv, const struct addrinfo *, struct addrinfo **res) { struct hostent *h = __wrap_gethostbyname(n ? n : "127.0.0.1"); if (!h) return EAI_NONAME; struct addrinfo *r = (struct addrinfo*)__real_calloc(1, sizeof *r + sizeof(struct sockaddr_in)); struct sockaddr_in *s = (struct sockaddr_in*)(r+1); s->sin_family = AF_INET; memcpy(&s->sin_addr, h->h_addr_list[0], 4); s->sin_port = htons(sv ? atoi(sv) : 0); r->ai_family = AF_INET; r->ai_socktype = SOCK_STREAM; r->ai_addrlen = sizeof *s; r->ai_addr = (struct sockaddr*)s; *res = r; return 0; }
void __wrap_freeaddrinfo(struct addrinfo *r) { __real_free(r); }
int hosts_ctl(char *d, char *n, char *a, char *u) { OneAtATime once(g_in_hosts_ctl, "hosts_ctl()"); W->hosts_ctl_calls++; S ds = d, ns = n, as = a, us = u; return W->hosts_ctl_fn ? W->hosts_ctl_fn(ds, ns, as, us) : W->hosts_ctl_allow; }
/* ---------------------------------------------------------------- inotify */
int __wrap_inotify_init1(int fl) { if (sysf("inotify")) ERR(EMFILE); FileP f = mkfile(F_INOT); f->flags = fl & O_NONBLOCK; int fd = fd_install(P(), f); if (fd < 0) ERR(EMFILE); return fd; }
int __wrap_inotify_init(void) { return __wrap_inotify_init1(0); }
int __wrap_inotify_add_watch(int fd, const char *p, uint32_t m) { if (sysf("inotify-watch")) ERR(ENOSPC); FileP f = getf(fd); if (!f || f->type != F_INOT) ERR(EBADF); S q = npath(p); if (!get_ino(q)) ERR(ENOENT); for (auto &w : f->watches) if (w.second.first == q) { w.second.second = m; return w.first; } int wd = f->nextwd++; f->watches[wd] = {q, m}; return wd; }
int __wrap_inotify_rm_watch(int fd, int wd) { FileP f = getf(fd); if (!f || f->type != F_INOT) ERR(EBADF); if (!f->watches.erase(wd)) ERR(EINVAL); struct inotify_event e{}; e.wd = wd; e.mask = IN_IGNORED; f->inq += S((char*)&e, sizeof e); return 0; }
/* -------------------------------------------------------------------- tty */
static bool tcf(const char *t) { return W->tc_fault && choose(2, FAULT, t); }
int __wrap_isatty(int fd) { FileP f = getf(fd); if (f && f->type == F_TTY) { if (hung(f) || tcf("isatty")) { errno = EIO; return 0; } return 1; } errno = ENOTTY; return 0; }
char *__wrap_ttyname(int fd) { FileP f = getf(fd); if (f && f->type == F_TTY) { static char b[256]; snprintf(b, sizeof b, "%s", f->path.c_str()); return b; } errno = ENOTTY; return 0; }
int __wrap_tcgetattr(int fd, struct termios *t) { FileP f = getf(fd); if (!f || f->type != F_TTY) ERR(ENOTTY); if (hung(f) || tcf("tcgetattr") || sysf("tcgetattr")) ERR(EIO); *t = f->ino->tio; return 0; }
int __wrap_tcsetattr(int fd, int act, const struct termios *t) { FileP f = getf(fd); if (!f || f->type != F_TTY) ERR(ENOTTY); if (hung(f) || tcf("tcsetattr") || sysf("tcsetattr")) ERR(EIO); f->ino->tio = *t; if (act == TCSAFLUSH) f->rx->q.clear(); obs("tcset"); return 0; }
int __wrap_tcflush(int fd, int q) { FileP f = getf(fd); if (!f || f->type != F_TTY) ERR(ENOTTY); if (hung(f)) ERR(EIO); if (q == TCIFLUSH || q == TCIOFLUSH) f->rx->q.clear(); return 0; }
int __wrap_tcdrain(int) { return 0; }
int __wrap_tcsendbreak(int fd, int) { FileP f = getf(fd); if (!f || f->type != F_TTY) ERR(ENOTTY); if (hung(f)) ERR(EIO); f->ino->breaks++; f->ino->writes.push_back({W->now, "BREAK"}); obs("break"); tracef("serial break on %s", f->path.c_str()); f->tx->q += ""; return 0; }
int __wrap_ioctl(int fd, unsigned long req, ...) { FileP f = getf(fd); (void)req; if (!f) ERR(EBADF); va_list ap; va_start(ap, req); void *a = va_arg(ap, void*); va_end(ap); if (req == FIONBIO) { if (*(int*)a) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; } if (req == FIONREAD) { *(int*)a = f->rx ? f->rx->q.size() : 0; return 0; } return 0; }
/* --------------------------------------------------------------- processes */
struct ExecRec { int kind; int code; int pgid; int setsid; char path[1024]; int argc; char argv[16][1024]; int nfd; struct { int fd, serial; } fds[256]; int nign; int ign[64]; char env[2048]; int nblk; };
static ExecRec *xr; 
static ExecRec *xr_get() { if (!xr) xr = (ExecRec*)mmap(0, sizeof *xr, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); return xr; }
static int aside_pid, aside_pgid; static std::map<int,int> aside_blk;
extern char **environ;
static sigset_t g_sigmask;
static int do_exec(const char *path, char *const argv[]) {
    if (!in_aside_child) ERR(EPERM);
    InoP n = get_ino(npath(path)); if (!n) ERR(ENOENT); if (n->type == 'd' || !(n->mode & 0111)) ERR(EACCES);
    xr->kind = 1; snprintf(xr->path, sizeof xr->path, "%s", npath(path).c_str()); xr->argc = 0; for (int i = 0; argv[i] && i < 16; i++) snprintf(xr->argv[xr->argc++], 1024, "%s", argv[i]);
    Proc *p = P(); xr->nfd = 0; for (size_t i = 0; i < p->fds.size() && xr->nfd < 256; i++) if (p->fds[i] && !p->cloexec[i]) { xr->fds[xr->nfd].fd = i; xr->fds[xr->nfd++].serial = p->fds[i]->serial; }
    xr->nign = 0; for (auto &s : p->sigs) if (s.second.h == SIG_IGN && xr->nign < 64) xr->ign[xr->nign++] = s.first; xr->pgid = aside_pgid;
    S e; for (char **q = environ; q && *q; q++) e += S(*q) + "\n"; snprintf(xr->env, sizeof xr->env, "%s", e.c_str());
    syscall(SYS_exit_group, 0); return -1;
}
int __wrap_execv(const char *p, char *const a[]) { return do_exec(p, a); }
int __wrap_execve(const char *p, char *const a[], char *const e[]) { environ = (char**)e; return do_exec(p, a); }
int __wrap_execvp(const char *p, char *const a[]) { return do_exec(p, a); }
int __wrap_execl(const char *p, const char *a0, ...) { std::vector<char*> v; v.push_back((char*)a0); va_list ap; va_start(ap, a0); for (char *x; (x = va_arg(ap, char*)); ) v.push_back(x); va_end(ap); v.push_back(0); return do_exec(p, v.data()); }
int __wrap_execle(const char *p, const char *a0, ...) { std::vector<char*> v; v.push_back((char*)a0); va_list ap; va_start(ap, a0); char *x; for (; (x = va_arg(ap, char*)); ) v.push_back(x); environ = va_arg(ap, char**); va_end(ap); v.push_back(0); return do_exec(p, v.data()); }
int __wrap_execlp(const char *p, const char *a0, ...) { std::vector<char*> v; v.push_back((char*)a0); va_list ap; va_start(ap, a0); for (char *x; (x = va_arg(ap, char*)); ) v.push_back(x); va_end(ap); v.push_back(0); return do_exec(p, v.data()); }
pid_t __wrap_fork(void) {
    sched_point("fork"); if (W->fork_fails) ERR(EAGAIN);
    if (sysf("fork")) ERR(EAGAIN);
    if (W->fork_mode > 0) { W->fork_mode--; int vpid = ++g_pid; if (W->shell && P()->shell_fd < 0 && shell_fork(P(), vpid)) return vpid; P()->pid = vpid; return 0; }
    Proc *p = P(); int vpid = ++g_pid; memset(xr_get(), 0, 64); xr->kind = 0;
    fflush(stdout); pid_t k = __real_fork();
    if (k == 0) { in_aside_child = true; aside_pid = vpid; aside_pgid = p->pgid; for (auto &f : p->fds) if (f) f->refs++; p->pid = vpid; return 0; }
    int st = 0; __real_waitpid(k, &st, 0);
    VProc *v = new VProc; v->pid = vpid; v->parent = p->pid; v->t_start = W->now; v->pgid = p->pgid;
    if (WIFSIGNALED(st)) { fail("forked child of %s crashed with signal %d before exec", p->name.c_str(), WTERMSIG(st)); }
    if (WEXITSTATUS(st) == 42) fail("in forked child: violation");
    if (xr->kind == 1) { v->execd = true; v->path = xr->path; for (int i = 0; i < xr->argc; i++) v->argv.push_back(xr->argv[i]); v->pgid = xr->pgid; v->env = xr->env;
        for (int i = 0; i < xr->nfd; i++) { if ((int)v->fds.size() <= xr->fds[i].fd) v->fds.resize(xr->fds[i].fd + 1); for (auto &f : p->fds) if (f && f->serial == xr->fds[i].serial) { v->fds[xr->fds[i].fd] = f; } }
        for (int i = 0; i < xr->nign; i++) v->sigs[xr->ign[i]] = 1;
        for (auto &f : v->fds) if (f) f->refs++;
        S cmd; for (auto &a : v->argv) cmd += " [" + a + "]"; tracef("app spawns pid %d: %s%s", vpid, v->path.c_str(), cmd.c_str()); obs("exec " + v->path + cmd);
        if (!v->fds.empty() && v->fds[0] && v->fds[0]->type == F_SOCKPAIR) { FileP f = v->fds[0]; Conn *c = new Conn; c->id = ++g_connid; c->label = fmt("proc%d", vpid); c->to = f->tx; c->from = f->rx; c->state = 1; c->t_attempt = W->now; v->io = c; }
    } else { v->alive = false; v->exitcode = xr->kind == 2 ? xr->code : WEXITSTATUS(st); v->status = (v->exitcode & 255) << 8; v->pgid = 0; tracef("forked child %d exits %d without exec", vpid, v->exitcode); raise_sig(p, SIGCHLD); }
    W->vprocs.push_back(v); if (v->execd && W->on_exec) W->on_exec(v);
    sched_point("fork-return");
    return vpid;
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }
}
void vproc_die(VProc *v, int status) {
    if (!v->alive) return;
    v->alive = false; v->status = status; for (auto &f : v->fds) if (f) { do_close(f); f = nullptr; }
    obs("vdie"); tracef("process %d ends (status 0x%x)", v->pid, status);
    if (v->io) v->io->ours_closed = true;
    for (auto p : W->procs) if (p->pid == v->parent) raise_sig(p, SIGCHLD);
}
extern "C" {
pid_t __wrap_waitpid(pid_t pid, int *st, int opt) {
    Proc *p = P(); bool any = false;
    for (int pass = 0; ; pass++) {
        any = false;
        for (auto v : W->vprocs) { if (v->reaped || v->parent != p->pid) continue; if (pid > 0 && v->pid != pid) continue; any = true; if (!v->alive) { v->reaped = true; if (st) *st = v->status; return v->pid; } }
        if (!any) ERR(ECHILD); if (opt & WNOHANG) return 0;
        task_block("waitpid", [pid,p]{ for (auto v : W->vprocs) if (!v->reaped && v->parent == p->pid && (pid <= 0 || v->pid == pid) && !v->alive) return true; return false; }, -1, true);
    }
}
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
int __wrap_kill(pid_t pid, int sig) {
    if (in_aside_child) return 0;
    sched_point("kill"); bool found = false; obs(fmt("kill %d %d", pid, sig)); if (sig) tracef("app kills %d with signal %d", pid, sig);
    for (auto v : W->vprocs) if (!v->reaped && ((pid > 0 && v->pid == pid) || (pid < -1 && v->pgid == -pid))) { found = true; if (!sig || !v->alive) continue; v->killed.push_back(sig); v->killed_at.push_back(W->now); if (sig == SIGKILL || ((sig == SIGTERM || sig == SIGHUP || sig == SIGINT) && !v->sigs.count(sig))) vproc_die(v, sig); }
    for (auto q : W->procs) if (!q->exited && ((pid > 0 && q->pid == pid) || (pid < -1 && q->pgid == -pid))) { found = true; if (sig) { raise_sig(q, sig); if (cur && q == cur->proc && cur == q->maintask) deliver_signals(); } }
    if (!found) ERR(ESRCH); return 0;
}
int __wrap_raise(int s) { return __wrap_kill(P()->pid, s); }
int __wrap_setpgid(pid_t pid, pid_t pg) { if (in_aside_child) { if (pid == 0 || pid == aside_pid) aside_pgid = pg ? pg : aside_pid; return 0; } for (auto v : W->vprocs) if (v->pid == pid && v->alive) { v->pgid = pg ? pg : pid; return 0; } if (pid == 0 || pid == P()->pid) { P()->pgid = pg ? pg : P()->pid; return 0; } ERR(ESRCH); }
pid_t __wrap_setsid(void) { if (sysf("setsid")) ERR(EPERM); if (in_aside_child) aside_pgid = aside_pid; else P()->pgid = P()->pid; return P()->pid; }
pid_t __wrap_getpid(void) { return in_aside_child ? aside_pid : P() ? P()->pid : 1; }
pid_t __wrap_getppid(void) { return 1; }
pid_t __wrap_getpgrp(void) { return P()->pgid; }
static void ign_drops(int s) { Proc *p = P(); if (p->sigs[s].h == SIG_IGN) for (auto i = p->pending.begin(); i != p->pending.end(); ) i = *i == s ? p->pending.erase(i) : i + 1; }
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (sysf("sigaction")) ERR(EINVAL); auto &h = P()->sigs[s]; if (o) { memset(o, 0, sizeof *o); o->sa_handler = h.h ? h.h : SIG_DFL; o->sa_flags = h.flags; } if (a) { h.h = a->sa_handler; h.flags = a->sa_flags; ign_drops(s); } return 0; }
void (*__wrap_signal(int s, void (*f)(int)))(int) { auto &h = P()->sigs[s]; auto o = h.h ? h.h : SIG_DFL; h.h = f; h.flags = SA_RESTART; ign_drops(s); return o; }
static uint64_t maskof(const sigset_t *s) { uint64_t m = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1) m |= 1ull << i; return m; }
int __wrap_sigprocmask(int how, const sigset_t *s, sigset_t *o) {
    if (in_aside_child) { if (o) sigemptyset(o); return 0; } Proc *p = P();
    if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (p->blocked >> i & 1) sigaddset(o, i); }
    if (s) { uint64_t m = maskof(s); p->blocked = how == SIG_BLOCK ? p->blocked | m : how == SIG_UNBLOCK ? p->blocked & ~m : m; if (cur == p->maintask && p->sig_due()) deliver_signals(); } return 0; }
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { if (cur && cur->proc && cur == cur->proc->maintask) return __wrap_sigprocmask(how, s, o); if (o) sigemptyset(o); return 0; }
int __wrap_atexit(void (*f)(void)) { if (cur && !in_aside_child) P()->atexits.push_back(f); return 0; }

/* The wait and the change of the mask are one step: signals interrupt the wait, but not a call that finds something ready at once. */
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m) {
    Proc *p = P(); uint64_t old = p->blocked; sched_point("pselect");
    std::vector<struct pollfd> v; for (int i = 0; i < n; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) v.push_back({i, ev, 0}); }
    bool ready = poll_eval(v, p) > 0; if (m && !ready) p->blocked = maskof(m);
    if (!ready && cur == p->maintask && p->sig_due()) { deliver_signals(); p->blocked = old; ERR(EINTR); }
    struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
    W->in_pselect = true; int k = __wrap_select(n, r, w, e, ts ? &tv : nullptr); int en = errno; W->in_pselect = false; p->blocked = old; errno = en; return k;
}
int __wrap_getrlimit(int, struct rlimit *l) { if (sysf("getrlimit")) ERR(EINVAL); l->rlim_cur = W->nofile; l->rlim_max = 4096; return 0; }
int __wrap_setrlimit(int r, const struct rlimit *l) { if (sysf("setrlimit") || (r == RLIMIT_NOFILE && sysf("setrlimit-nofile"))) ERR(EPERM); W->rlim[r] = {(long)l->rlim_cur, (long)l->rlim_max}; if (r == RLIMIT_NOFILE) W->nofile = l->rlim_cur; return 0; }
uid_t __wrap_getuid(void) { return 1000; }
static struct passwd g_pw; static char g_pwn[64], g_pwd[] = "/tmp", g_login[64];
static struct passwd *pw(const S &n, int u) { snprintf(g_pwn, sizeof g_pwn, "%s", n.c_str()); g_pw.pw_name = g_pwn; g_pw.pw_dir = g_pwd; g_pw.pw_uid = u; return &g_pw; }
struct passwd *__wrap_getpwuid(uid_t u) { for (auto &x : W->users) if (x.second == (int)u) return pw(x.first, u); errno = 0; return nullptr; }
struct passwd *__wrap_getpwnam(const char *n) { auto it = W->users.find(n); if (it != W->users.end()) return pw(it->first, it->second); errno = 0; return nullptr; }
char *__wrap_getlogin(void) { if (W->login.empty()) { errno = ENXIO; return nullptr; } snprintf(g_login, sizeof g_login, "%s", W->login.c_str()); return g_login; }
void __wrap_exit(int c) { if (in_aside_child) { xr->kind = 2; xr->code = c; syscall(SYS_exit_group, 0); } if (cur) { run_atexits(cur->proc); proc_exit(cur->proc, c, 0); task_exit(); } __real_exit(c); }
void __wrap__exit(int c) { if (in_aside_child) { xr->kind = 2; xr->code = c; syscall(SYS_exit_group, 0); } if (cur) { proc_exit(cur->proc, c, 0); task_exit(); } __real__exit(c); }
void __wrap___stack_chk_fail(void) { fail("%s writes beyond the end of an array on the stack", P() ? P()->name.c_str() : "?"); }
void __wrap_abort(void) { fail("%s calls abort()", P() ? P()->name.c_str() : "?"); }
void __wrap_openlog(const char*, int, int f) { W->syslog_fac = f; }
void __wrap_closelog(void) {}
void __wrap_syslog(int, const char *f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); W->syslog += b; }
void __wrap_vsyslog(int, const char *f, va_list a) { char b[1024]; vsnprintf(b, sizeof b, f, a); W->syslog += b; }
/* ---------------------------------------------------------------- threads */
struct Mx { Task *owner = nullptr; int rec = 0; bool live = true; };
static std::map<void*, Mx> *mxs;
static Mx &mx(void *m) { if (!mxs) mxs = new std::map<void*, Mx>; return (*mxs)[m]; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t*) { mx(m) = Mx(); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { Mx &x = mx(m); if (x.owner) return EBUSY; mxs->erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!cur || in_aside_child) return 0;
    if (mem_is_freed(m)) fail("memory error: locking a mutex in freed memory");
    sched_point("lock"); Mx *x = &mx(m); if (x->owner) { cur->waitmutex = m; while (mx(m).owner) task_block("mutex", [m]{ return !mx(m).owner; }, -1, false); cur->waitmutex = 0; x = &mx(m); } x->owner = cur; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { sched_point("trylock"); Mx &x = mx(m); if (x.owner) return EBUSY; x.owner = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!cur || in_aside_child) return 0; if (mem_is_freed(m)) fail("memory error: unlocking a mutex in freed memory"); Mx &x = mx(m); if (x.owner != cur) fail("thread %s unlocks a mutex it does not hold", cur->name.c_str()); x.owner = nullptr; sched_point("unlock"); return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t*, void *(*f)(void*), void *a) { static int k; if (sysf("thread")) return EAGAIN; if (W->thread_fails > 0) { W->thread_fails--; return EAGAIN; } Task *n = new_task(P(), fmt("%s-thread%d", P()->name.c_str(), ++k), f, a); *t = (pthread_t)n; obs("thread"); sched_point("create"); return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)cur; }
int __wrap_pthread_detach(pthread_t t) { ((Task*)t)->detached = true; return 0; }
int __wrap_pthread_join(pthread_t t, void **r) { Task *k = (Task*)t; task_block("join", [k]{ return k->st == Task::DONE; }, -1, false); if (r) *r = k->ret; return 0; }
void __wrap_pthread_exit(void *r) { cur->ret = r; if (cur->proc->maintask == cur) {} task_exit(); }
int __wrap_pthread_cancel(pthread_t) { return ENOSYS; }
struct Cv { uint64_t seq = 0; int wait = 0; std::deque<Task*> q; };
static std::map<void*, Cv> *cvs; static Cv &cv(void *c) { if (!cvs) cvs = new std::map<void*, Cv>; return (*cvs)[c]; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t*) { cv(c) = Cv(); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { if (cvs) cvs->erase(c); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { Task *me = cur; cv(c).q.push_back(me); __wrap_pthread_mutex_unlock(m); int64_t dl = ts ? ts->tv_sec*1000000ll + ts->tv_nsec/1000 : -1; auto waiting = [c,me]{ for (auto t : cv(c).q) if (t == me) return true; return false; }; bool ok = task_block("cond", [waiting]{ return !waiting(); }, dl, false); if (!ok) { auto &q = cv(c).q; for (auto i = q.begin(); i != q.end(); ++i) if (*i == me) { q.erase(i); break; } } __wrap_pthread_mutex_lock(m); return ok ? 0 : ETIMEDOUT; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return __wrap_pthread_cond_timedwait(c, m, 0); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { auto &q = cv(c).q; if (!q.empty()) q.pop_front(); sched_point("signal"); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { cv(c).q.clear(); sched_point("broadcast"); return 0; }
int __wrap_sched_yield(void) { sched_point("yield"); return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { if (*(int*)o == 0) { *(int*)o = 2; f(); } return 0; }
/* --------------------------------------------------- libipmiconsole stand-in */
static IpmiCtx *IC(ipmiconsole_ctx_t c) { return (IpmiCtx*)c; }
int ipmiconsole_engine_init(unsigned n, unsigned) { if (sysf("ipmi")) { errno = EPERM; return -1; } ipmi_engine_threads = n; return 0; }
void ipmiconsole_engine_teardown(int) { ipmi_engine_down = true; }
ipmiconsole_ctx_t ipmiconsole_ctx_create(const char *h, struct ipmiconsole_ipmi_config *ic, struct ipmiconsole_protocol_config *, struct ipmiconsole_engine_config *ec) { if (sysf_rt("ipmi-ctx")) { errno = ENOMEM; return 0; } auto c = new IpmiCtx; c->host = h; if (ic->username) c->user = ic->username; if (ic->password) c->pass = ic->password; if (ic->k_g) c->kg = S((char*)ic->k_g, ic->k_g_len); c->priv = ic->privilege_level; c->cipher = ic->cipher_suite_id; c->flags = ic->workaround_flags; (void)ec; ipmi_ctxs.push_back(c); obs("ipmi create " + c->host); tracef("ipmi ctx for %s created", h); return (ipmiconsole_ctx_t)c; }
int ipmiconsole_engine_submit(ipmiconsole_ctx_t x, Ipmiconsole_callback cb, void *a) { IpmiCtx *c = IC(x); REQUIRE(!c->destroyed, "ipmi: a destroyed session context is submitted"); REQUIRE(!c->submitted, "ipmi: a session context is submitted twice"); c->t_submit = W->now; c->cb = (void(*)(void*))cb; c->arg = a; tracef("ipmi session to %s submitted", c->host.c_str()); obs("ipmi submit " + c->host); if (ipmi_submit_fails || sysf_rt("ipmi-submit")) { c->errnum = 5; c->status = 2; c->submitted = true; return -1; } c->submitted = true; c->status = 1; return 0; }
int ipmiconsole_ctx_errnum(ipmiconsole_ctx_t x) { REQUIRE(!IC(x)->destroyed, "ipmi: use of a destroyed session context"); return IC(x)->errnum; }
char *ipmiconsole_ctx_strerror(int e) { static char b[40]; snprintf(b, 40, "ipmi-error-%d", e); return b; }
char *ipmiconsole_ctx_errormsg(ipmiconsole_ctx_t x) { return ipmiconsole_ctx_strerror(IC(x)->errnum); }
ipmiconsole_ctx_status_t ipmiconsole_ctx_status(ipmiconsole_ctx_t x) { if (!x) return IPMICONSOLE_CTX_STATUS_ERROR; REQUIRE(!IC(x)->destroyed, "ipmi: use of a destroyed session context"); return (ipmiconsole_ctx_status_t)IC(x)->status; }
int ipmiconsole_ctx_fd(ipmiconsole_ctx_t x) { IpmiCtx *c = IC(x); REQUIRE(!c->destroyed, "ipmi: use of a destroyed session context"); if (c->fd >= 0) return c->fd; FileP f = mkfile(F_SOCKPAIR); f->state = 4; f->flags = O_RDWR; Conn *k = new Conn; k->id = ++g_connid; k->label = "ipmi:" + c->host; wire(f, k); k->state = 1; c->io = k; c->appfile = f; c->fd = fd_install(P(), f); return c->fd; }
int ipmiconsole_ctx_generate_break(ipmiconsole_ctx_t x) { REQUIRE(!IC(x)->destroyed, "ipmi: use of a destroyed session context"); IC(x)->breaks++; obs("ipmi break"); return 0; }
void ipmiconsole_ctx_destroy(ipmiconsole_ctx_t x) { IpmiCtx *c = IC(x); REQUIRE(!c->destroyed, "ipmi: a session context is destroyed twice"); c->destroyed = true; obs("ipmi destroy " + c->host); tracef("ipmi ctx for %s destroyed", c->host.c_str()); }
int ipmiconsole_username_is_valid(const char *s) { return s && strlen(s) <= 16; }
int ipmiconsole_password_is_valid(const char *s) { return s && strlen(s) <= 20; }
int ipmiconsole_k_g_is_valid(const unsigned char *k, unsigned n) { return k && n <= 20; }
int ipmiconsole_privilege_level_is_valid(int p) { return p >= -1 && p <= 2; }
int ipmiconsole_cipher_suite_id_is_valid(int c) { return c == -1 || c == 0 || c == 1 || c == 2 || c == 3 || c == 6 || c == 7 || c == 8 || c == 11 || c == 12 || c == 15 || c == 16 || c == 17; }
int ipmiconsole_workaround_flags_is_valid(unsigned f) { return !(f & ~0x0F0001FFu); }
/* Further forms of calls that are simulated above. */
int __wrap_killpg(pid_t g, int s) { return __wrap_kill(g > 1 ? -g : g, s); }
int __wrap_setpgrp(void) { return __wrap_setpgid(0, 0); }
uid_t __wrap_geteuid(void) { return __wrap_getuid(); }
int __wrap_vasprintf(char **o, const char *f, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, b); va_end(b); if (n < 0 || !(*o = (char*)__wrap_malloc(n + 1))) { *o = nullptr; return -1; } vsnprintf(*o, n + 1, f, a); return n; }
int __wrap_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int n = __wrap_vasprintf(o, f, a); va_end(a); return n; }
int __wrap_vdprintf(int fd, const char *f, va_list a) { char *s; int n = __wrap_vasprintf(&s, f, a); if (n < 0) return n; n = n ? __wrap_write(fd, s, n) : 0; __wrap_free(s); return n; }
int __wrap_dprintf(int fd, const char *f, ...) { va_list a; va_start(a, f); int n = __wrap_vdprintf(fd, f, a); va_end(a); return n; }
void *__wrap_reallocarray(void *p, size_t n, size_t m) { size_t k; if (__builtin_mul_overflow(n, m, &k)) { errno = ENOMEM; return nullptr; } return __wrap_realloc(p, k); }
int __wrap_dup3(int a, int b, int fl) { if (a == b) ERR(EINVAL); int r = __wrap_dup2(a, b); if (r >= 0 && fl & O_CLOEXEC) __wrap_fcntl(r, F_SETFD, FD_CLOEXEC); return r; }
pid_t __wrap_wait3(int *st, int o, struct rusage *) { return __wrap_waitpid(-1, st, o); }
pid_t __wrap_wait4(pid_t p, int *st, int o, struct rusage *) { return __wrap_waitpid(p, st, o); }
int __wrap_lockf(int fd, int c, off_t n) { struct flock l{}; l.l_type = c == F_ULOCK ? F_UNLCK : F_WRLCK; l.l_whence = SEEK_CUR; l.l_len = n; if (c == F_TEST) { if (__wrap_fcntl(fd, F_GETLK, &l) < 0) return -1; if (l.l_type == F_UNLCK) return 0; ERR(EACCES); } return __wrap_fcntl(fd, c == F_LOCK ? F_SETLKW : F_SETLK, &l); }
int __wrap_ttyname_r(int fd, char *b, size_t n) { char *s = __wrap_ttyname(fd); if (!s) return errno; if (strlen(s) >= n) return ERANGE; strcpy(b, s); return 0; }
int __wrap_getlogin_r(char *b, size_t n) { char *s = __wrap_getlogin(); if (!s) return errno; if (strlen(s) >= n) return ERANGE; strcpy(b, s); return 0; }
} /* extern C */
/* The engine runs its callback in a thread of its own. */
struct IpmiArg { IpmiCtx *c; };
static void *ipmi_thread(void *a) { IpmiArg *x = (IpmiArg*)a; x->c->cb(x->c->arg); return 0; }
void ipmi_complete(IpmiCtx *c, bool ok, int e) { c->status = ok ? 3 : 2; c->errnum = e; tracef("ipmi session to %s %s", c->host.c_str(), ok ? "established" : "failed"); obs("ipmi complete"); new_task(W->procs[0], "ipmi-engine", ipmi_thread, new IpmiArg{c}); }
