/* simworld: a deterministic simulated POSIX world + exhaustive explorer.
 * The real, unmodified /repo/src/*.c is linked against it (ld --wrap). */
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <termios.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <deque>

typedef std::string S;
S fmt(const char *f, ...) __attribute__((format(printf,1,2)));
S esc(const S &s, size_t max = 400);

/* ---------------------------------------------------------------- explorer */
enum { FREE = 0, SCHED = 1, FAULT = 2, ASYNC = 3, NCLS = 4 };
int  choose(int n, int cls, const char *tag);
inline int pick(int n, const char *tag) { return choose(n, FREE, tag); }
[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf,1,2)));
void outcome(const S &what);              /* records a distinct observed outcome */
void tracef(const char *f, ...) __attribute__((format(printf,1,2)));
void obs(const S &s);                     /* fold an observation into the history hash */
#define REQUIRE(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
extern bool g_thorough;
extern bool g_verbose;

struct Scenario {
    const char *name; const char *prop; void (*fn)();
    /* max deviations per class (quick, thorough); FREE is unbounded */
    int q[NCLS], t[NCLS];
    const char *what;
};
void reg_scenario(const Scenario &s);
#define SCENARIO(nm, pr, qs, qf, qa, ts, tf, ta, what) \
    static void scen_##nm(); \
    __attribute__((constructor)) static void reg_##nm() { \
        Scenario s = { #nm, pr, scen_##nm, {0,qs,qf,qa}, {0,ts,tf,ta}, what }; reg_scenario(s); } \
    static void scen_##nm()

/* ------------------------------------------------------------------- world */
struct Pipe { S q; size_t cap = 1<<20; bool wclosed = false, rclosed = false, reset = false; uint64_t total = 0; };
typedef std::shared_ptr<Pipe> PipeP;

struct Ino {
    int type = 0;                 /* 'r' reg, 'd' dir, 's' sock, 'c' tty, 'n' null */
    S data; int mode = 0644; int id = 0; long mtime = 0;
    int lock_pid = 0, lock_type = 0;   /* simplified whole-file lock (foreign or own) */
    std::map<int,int> locks;      /* pid -> F_RDLCK/F_WRLCK */
    PipeP tty_in, tty_out;        /* for 'c': tty_in = towards app */
    struct termios tio;
    std::vector<std::pair<int64_t,S>> writes;
    int tty_opens = 0; int breaks = 0;
    void *svc = nullptr;          /* unix-socket service */
    int nopen = 0;
};
typedef std::shared_ptr<Ino> InoP;

struct Conn;                      /* the scenario's end of a stream */
struct Service;

enum { F_REG = 1, F_SOCK, F_PIPER, F_PIPEW, F_TTY, F_NULL, F_INOT, F_SOCKPAIR, F_DIR };
struct File {
    int type = 0, flags = 0; int refs = 0; int serial = 0;
    PipeP rx, tx;
    InoP ino; int64_t pos = 0; S path;
    /* sockets */
    int domain = 0; int state = 0;          /* 0 new,1 bound,2 listen,3 connecting,4 connected,5 failed,6 shut */
    int so_error = 0; bool err_seen = false;
    int rst_err = 0; bool rst_eof = false;   /* reset: the error to report once; after the peer's end of file, reads report only that */
    struct sockaddr_in local{}, peer{};
    S upath;
    std::deque<std::shared_ptr<File>> backlog; int backlogmax = 0;
    std::map<std::pair<int,int>,int> opts;
    Conn *conn = nullptr;
    /* inotify */
    S inq; std::map<int,std::pair<S,uint32_t>> watches; int nextwd = 1;
    S label;                                /* for scenario selection */
    int fault = 0;                          /* mask of FX_* allowed on this file */
    int rerr = 0, werr = 0;                 /* every read / write fails with this errno */
    int owner = -1;
    ~File();
};
typedef std::shared_ptr<File> FileP;
enum { FX_SHORTW = 1, FX_SHORTR = 2, FX_EAGAINW = 4, FX_EAGAINR = 8, FX_RST = 16, FX_EINTR = 32 };

struct Conn {                               /* scenario's handle on a stream peer */
    int id = 0; S label; FileP app;         /* app: the app-side file */
    PipeP to, from;                         /* to app / from app */
    Service *svc = nullptr; int state = 0;  /* 0 pending 1 open 2 refused/failed */
    int64_t t_attempt = 0; int64_t t_appclose = -1;
    S got;                                  /* everything taken so far */
    void send(const S &s);
    S take();                               /* bytes the app has written since last take */
    bool app_closed() const;                /* app closed its end */
    void close();                           /* orderly close of our end */
    void shut_wr();                         /* half close: app sees EOF */
    void reset();                           /* RST */
    void accept();                          /* complete a pending connect */
    void refuse(int err);                   /* fail a pending connect */
    void window(size_t cap) { from->cap = cap; }
    bool ours_closed = false;
};

struct Service {                            /* something the app connects to */
    S name; struct sockaddr_in addr{}; S upath;
    std::function<int(Conn*)> policy;       /* 0 = accept at once, -1 = pending, >0 errno */
    std::vector<Conn*> conns;               /* every attempt, in order */
    std::function<void(Conn*)> on_label;
    int fault = 0;
    Conn *cur() { return conns.empty() ? nullptr : conns.back(); }
};

struct VProc {                              /* a process the app forked */
    int pid = 0, pgid = 0; int parent = 0; S path; std::vector<S> argv; bool execd = false; int exitcode = -1;
    bool alive = true, reaped = false; int status = 0; S env;
    std::vector<FileP> fds;                 /* inherited after cloexec */
    std::map<int,int> sigs;                 /* 1 = SIG_IGN */
    std::vector<int> killed;                /* signals received */
    std::vector<int64_t> killed_at;
    int64_t t_start = 0; bool blocked_mask = false;
    Conn *io = nullptr;                     /* peer of fd 0/1 if a socketpair */
};

struct Proc;
struct World {
    int64_t now = 0;                        /* microseconds */
    bool explore_sched = false;             /* thread switches are choice points */
    bool sched_blocking_only = false;
    std::vector<std::pair<S, std::function<void()>>> async; /* pending async events */
    bool sig_after_err = false;  /* async events strike right after failing calls, too */
    bool async_io_only = false;  /* they strike at I/O calls only (for events other than signals) */
    std::map<S, InoP> vfs;
    std::vector<Service*> services;
    std::map<S, S> hosts;                   /* name -> dotted ip */
    std::vector<VProc*> vprocs;
    std::vector<Proc*> procs;
    bool fork_fails = false;
    Proc *sys_faults = nullptr; std::set<S> sys_skip;  /* every system call this process makes while starting may fail (FAULT) */
    bool disk_full = false;
    bool sys_io = false;                            /* ... including those made only while it runs: accept, connect, read, write ... */
    S sys_failed, sys_force;                /* sys_force: this call fails for sure */
    bool shell = false;                     /* daemonizing keeps the waiting parent, see shell_view() */
    std::map<S, int> users{{"tester", 1000}}; S login = "tester";   /* the password file; who is logged in */
    bool hosts_ctl_allow = true; int hosts_ctl_calls = 0; std::function<int(S, S, S, S)> hosts_ctl_fn;
    std::function<int(VProc*)> on_exec;     /* decide what a spawned process does */
    bool in_pselect = false;
    bool tc_fault = false;                  /* terminal attribute calls may fail (FAULT) */
    int nofile = 1024, syslog_fac = -1; std::map<int,std::pair<long,long>> rlim; int accept_err = 0; int thread_fails = 0;   /* next accept() fails with this errno; so many pthread_create() fail */
    std::function<void(const S&)> on_log;
    std::function<int()> rnd;
    int write_err_path = 0; S write_err_for;
    std::function<int(const S&,int)> open_hook;  /* return errno to fail an open */
    bool rst_after_peer_close = true;
    int64_t steps = 0;
    int fork_mode = 0;                      /* so many forks become the child (daemonizing); otherwise the child branch runs aside */
    S syslog;
    std::map<S, Conn*> serial;
};
extern World *W;
void world_init();

struct Task; 
struct Proc {
    S name; int pid = 0; int (*mainfn)(int, char**) = nullptr;
    std::vector<S> argv; std::vector<char*> cargv;
    std::vector<FileP> fds; std::vector<int> cloexec;
    struct Sig { void (*h)(int) = nullptr; int flags = 0; }; std::map<int, Sig> sigs;
    std::deque<int> pending; uint64_t blocked = 0; std::vector<void(*)()> atexits;
    bool sig_due() const { for (int s : pending) if (!(blocked >> s & 1)) return true; return false; }
    bool exited = false; int64_t t_exit = -1; int code = 0; int killed_by = 0;
    S cwd = "/"; int umask_ = 022; Task *maintask = nullptr;
    S out, err;                             /* stdout/stderr captured */
    S outpos;
    int stopped = 0; int nstops = 0; long sigcount = 0;
    Conn *tty = nullptr;                    /* controlling terminal (client) */
    int pgid = 0;
    long npolls = 0;
    struct sockaddr_in ip{};
    int nfds() const { int n = 0; for (auto &f : fds) if (f) n++; return n; }
    bool blocked_on_stop = false;
    int shell_fd = -1; PipeP shell_pipe; bool stdclosed[3] = {}; bool intr_call = false;   /* the handler that just ran was installed without SA_RESTART */
};
/* What the process that started daemon `p` (and waits for it) does, given what the daemon has reported so far. */
struct ShellView { bool waiting = false; int code = 0, sig = 0; S err, out; };
ShellView shell_view(Proc *p);

/* processes */
Proc *start_proc(const S &name, int (*mainfn)(int,char**), const std::vector<S> &argv);
extern "C" int conmand_main(int, char**);
extern "C" int conmand2_main(int, char**);       /* a second instance */
extern "C" int conman_main(int, char**);
void settle();                              /* run until everything is blocked */
void advance(double secs);                  /* let virtual time pass */
bool would_wake(Conn *c);                    /* would input from the peer be noticed now? */
int64_t next_deadline();                    /* -1 if none */
void raise_sig(Proc *p, int sig);
void async_event(const S &name, std::function<void()> f);  /* may strike at any scheduling point */
void flush_async();
double tnow();                              /* virtual seconds since boot */

/* network / files */
Service *tcp_service(const S &name, const S &ip, int port);
Service *unix_service(const S &name, const S &path);
Conn *dial(int port, const S &ip = "10.9.9.9", int srcport = 0, const S &dst = "127.0.0.1");   /* connect to the app's listener; NULL if refused */
InoP put_file(const S &path, const S &data, int mode = 0644);
InoP get_ino(const S &path);
S file_data(const S &path);
void mk_dir(const S &path);
void vfs_unlink(const S &path);
void vfs_rename(const S &from, const S &to);
Conn *put_tty(const S &path);
void inotify_fire(const S &dir, const S &name, uint32_t mask);
void inotify_fire_self(const S &dir, uint32_t mask);
void inotify_overflow();
bool is_listening(int port, const S &ip);
uint64_t hash_str(const S &s, uint64_t h = 1469598103934665603ull);

/* ipmi stand-in */
struct IpmiCtx {
    S host; int status = 0; int errnum = 0; bool submitted = false, destroyed = false; Conn *io = nullptr;
    void (*cb)(void*) = nullptr; void *arg = nullptr; int breaks = 0; int fd = -1; int64_t t_submit = 0;
    FileP appfile;
    S user, pass, kg; int priv = 0, cipher = 0; unsigned flags = 0;
};
extern std::vector<IpmiCtx*> ipmi_ctxs;
extern int ipmi_engine_threads; extern bool ipmi_engine_down; extern bool ipmi_submit_fails;
void ipmi_complete(IpmiCtx *c, bool ok, int errnum);
/* memory checker */
void mem_check_all();
size_t mem_live();                          /* heap blocks the app has not freed */
int live_threads(Proc *p);
extern "C" bool mem_is_freed(const void *p);
/* exec task helper */
void yield_point(const char *tag);
