#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <execinfo.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <time.h>
#include <algorithm>
#include <atomic>

extern "C" {
pid_t __real_fork(void); pid_t __real_waitpid(pid_t, int*, int);
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
ssize_t __real_write(int, const void*, size_t);
FILE *__real_fopen(const char*, const char*); int __real_fclose(FILE*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_usleep(useconds_t);
}
static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

/* ------------------------------------------------------------------ utils */
S fmt(const char *f, ...) { char b[8192]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
S esc(const S &s, size_t max) {
    S o; for (size_t i = 0; i < s.size(); i++) {
        if (o.size() > max) { o += fmt("...(%zu bytes)", s.size()); break; }
        unsigned char c = s[i];
        if (c=='\n') o += "\\n"; else if (c=='\r') o += "\\r"; else if (c=='\\') o += "\\\\"; else if (c=='"') o += "\\\"";
        else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += (char)c;
    } return o;
}
uint64_t hash_str(const S &s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= 0xff; h *= 1099511628211ull; return h; }
static std::vector<Scenario> &scens() { static std::vector<Scenario> v; return v; }
void reg_scenario(const Scenario &s) { scens().push_back(s); }

/* --------------------------------------------------------------- explorer */
enum { MAXPT = 60000, OUTMAX = 64, STSLOTS = 1<<23 };
struct Pt { uint16_t n; uint16_t c; uint8_t cls; };
struct WorkerArea {
    int npt; Pt pt[MAXPT]; char msg[4096]; char tags[64]; int done;
    char sample[1500];
};
struct PreE { uint16_t pos, c; };
struct Shared {
    std::atomic<int> lock; std::atomic<int> stop; std::atomic<int> active;
    std::atomic<uint64_t> execs, points, trans, states, outcomes, known, steps, cases, maxdepth, free_leaves, devs;
    std::atomic<int> capped;
    size_t top; size_t peak;
    int nout; char out[OUTMAX][120];
    int nsample; char sample[4][1500];
    int nknown; char knownmsg[32][512];
    bool have_viol; char vmsg[4096]; int vn; PreE vpre[4096]; int vlen;
    std::atomic<uint64_t> st[STSLOTS];
    std::atomic<uint64_t> oc[1<<16];
    char stack[];
};
static Shared *sh; static const size_t STACKCAP = (size_t)2<<30;
static WorkerArea *wa;
static std::vector<PreE> g_pre; static size_t g_prei;
int g_plen, g_depth; bool g_thorough, g_verbose, in_aside_child; static uint64_t g_obs = 1469598103934665603ull;
static const Scenario *g_sc; static int g_bound[NCLS];
static S g_trace; static bool g_want_sample;

static void lk() { int e = 0; while (!sh->lock.compare_exchange_weak(e, 1)) { e = 0; sched_yield(); } }
static void ulk() { sh->lock.store(0); }
static bool set_add(std::atomic<uint64_t> *t, size_t n, uint64_t h) {
    if (!h) h = 1; size_t i = h % n;
    for (int k = 0; k < 64; k++) { uint64_t v = t[i].load(); if (v == h) return false;
        if (v == 0) { uint64_t z = 0; if (t[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
        i = (i+1) % n; }
    return false;
}
int choose(int n, int cls, const char *tag) {
    if (n <= 1 || in_shell) return 0;
    int idx = g_depth++;
    if (idx >= MAXPT) { snprintf(wa->msg, sizeof wa->msg, "internal: too many choice points"); syscall(SYS_exit_group, 43); }
    int c = 0;
    if (idx < g_plen && g_prei < g_pre.size() && g_pre[g_prei].pos == idx) c = g_pre[g_prei++].c;
    if (c >= n) { snprintf(wa->msg, sizeof wa->msg, "internal: replay diverged at choice %d (%s): %d of %d", idx, tag, c, n); syscall(SYS_exit_group, 43); }
    wa->pt[idx] = { (uint16_t)n, (uint16_t)c, (uint8_t)cls }; wa->npt = g_depth;
    if (c || cls == FREE) tracef("[choice #%d %s: %d of %d]", idx, tag, c, n);
    return c;
}
void obs(const S &s) { g_obs = hash_str(s, g_obs); }
void tracef(const char *f, ...) {
    if (!g_verbose && !g_want_sample) return;
    char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a);
    if (g_verbose) { S l = S("  ") + fmt("%9.3f ", W ? tnow() : 0.0) + b + "\n"; syscall(SYS_write, 2, l.data(), l.size()); }
    if (g_want_sample && strlen(wa->sample) + strlen(b) + 3 < sizeof wa->sample) { strcat(wa->sample, b); strcat(wa->sample, "; "); }
}
static void child_done(int code);
void fail(const char *f, ...) {
    va_list a; va_start(a,f); vsnprintf(wa->msg, sizeof wa->msg, f, a); va_end(a);
    if (g_verbose) tracef("VIOLATION: %s", wa->msg);
    child_done(42); __builtin_unreachable();
}
static std::set<uint64_t> seen_out;
void outcome(const S &w) {
    uint64_t h = hash_str(w);
    if (set_add(sh->oc, 1<<16, h)) { sh->outcomes++; lk(); if (sh->nout < OUTMAX) snprintf(sh->out[sh->nout++], 120, "%s", w.c_str()); ulk(); }
}
static uint64_t n_trans, n_cases;
void world_step_hash() {
    if (!sh) return;
    if (g_depth >= g_plen) { n_trans++; if (set_add(sh->st, STSLOTS, g_obs)) sh->states++; }
}
static void child_done(int code) {
    if (sh) { sh->trans += n_trans; sh->steps += W ? W->steps : 0; sh->cases += n_cases; }
    syscall(SYS_exit_group, code);
}
static void crash_handler(int sig, siginfo_t *si, void *) {
    static char b[3000]; char *p = b; 
    if (sig == SIGALRM) { syscall(SYS_exit_group, 44); }
    bool fr = mem_is_freed(si->si_addr);
    p += snprintf(p, 400, "%s crashed: signal %d%s in task %s; stack:", cur && cur->proc ? cur->proc->name.c_str() : "harness", sig, fr ? " (freed memory)" : "", cur ? cur->name.c_str() : "scenario");
    if (!cur) { snprintf(wa->msg, sizeof wa->msg, "internal: harness %s", b); 
        if (g_verbose) { void *bt[30]; int n = backtrace(bt, 30); backtrace_symbols_fd(bt, n, 2); } syscall(SYS_exit_group, 43); }
    void *bt[24]; int n = backtrace(bt, 24); char **sy = backtrace_symbols(bt, n);
    for (int i = 2; i < n && i < 14 && sy; i++) { char *o = strchr(sy[i], '('); char *c = o ? strchr(o, '+') : 0;
        if (o && c) p += snprintf(p, 100, " %.*s", (int)(c-o-1), o+1); }
    snprintf(wa->msg, sizeof wa->msg, "%s", b);
    if (g_verbose) { syscall(SYS_write, 2, wa->msg, strlen(wa->msg)); syscall(SYS_write, 2, "\n", 1); }
    syscall(SYS_exit_group, 42);
}
static void run_child(int limit) {
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
    for (int s : {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM}) __real_sigaction(s, &sa, 0);
    struct itimerval it{}; it.it_value.tv_sec = limit; setitimer(ITIMER_REAL, &it, 0);
    g_depth = 0; g_prei = 0; wa->npt = 0; wa->msg[0] = 0; wa->sample[0] = 0;
    world_init();
    g_sc->fn();
    mem_check_all();
    world_step_hash();
    child_done(0);
}
static int exec_one(const std::vector<PreE> &pre, int plen, int limit) {
    g_pre = pre; g_plen = plen;
    pid_t p = __real_fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_child(limit); }
    int st; while (__real_waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    snprintf(wa->msg, sizeof wa->msg, "execution killed by signal %d", WTERMSIG(st));
    return WTERMSIG(st) == SIGKILL ? 45 : 42;
}
static void push(const std::vector<PreE> &pre, int plen) {   /* under lock */
    size_t need = pre.size()*sizeof(PreE) + 8;
    if (sh->top + need > STACKCAP) { sh->capped = 1; return; }
    memcpy(sh->stack + sh->top, pre.data(), pre.size()*sizeof(PreE)); sh->top += pre.size()*sizeof(PreE);
    uint32_t h[2] = { (uint32_t)pre.size(), (uint32_t)plen }; memcpy(sh->stack + sh->top, h, 8); sh->top += 8;
    if (sh->top > sh->peak) sh->peak = sh->top;
}
static bool pop(std::vector<PreE> &pre, int &plen) {
    if (!sh->top) return false;
    uint32_t h[2]; sh->top -= 8; memcpy(h, sh->stack + sh->top, 8);
    sh->top -= h[0]*sizeof(PreE); pre.resize(h[0]); memcpy(pre.data(), sh->stack + sh->top, h[0]*sizeof(PreE)); plen = h[1];
    return true;
}
struct Known { S prop, pat; };
static std::vector<Known> knowns;
static bool is_known(const char *m) { for (auto &k : knowns) if (g_sc && k.prop == g_sc->prop && strstr(m, k.pat.c_str())) return true; return false; }
static void worker(int, double tend) {
    std::vector<PreE> pre; int plen;
    while (!sh->stop) {
        lk(); bool got = pop(pre, plen); if (got) sh->active++; ulk();
        if (!got) { if (sh->active == 0) { lk(); bool e = sh->top == 0 && sh->active == 0; ulk(); if (e) return; } __real_usleep(300); continue; }
        uint64_t ne = sh->execs++;
        g_want_sample = (ne == 0 || ne == 37 || ne == 400 || ne == 5000);
        int rc = exec_one(pre, plen, 30);
        if (rc == 44) rc = exec_one(pre, plen, 200), rc = rc == 44 ? (snprintf(wa->msg, 4096, "execution does not terminate (hang in the code under test)"), 42) : rc;
        if (rc == 45) rc = exec_one(pre, plen, 200);
        int npt = wa->npt;
        if (g_want_sample && rc == 0) { lk(); if (sh->nsample < 4) memcpy(sh->sample[sh->nsample++], wa->sample, 1500); ulk(); }
        if (rc == 42 && is_known(wa->msg)) {
            sh->known++; lk(); bool f = false; for (int i = 0; i < sh->nknown; i++) f |= !strcmp(sh->knownmsg[i], wa->msg);
            if (!f && sh->nknown < 32) snprintf(sh->knownmsg[sh->nknown++], 512, "%s", wa->msg); ulk();
            rc = 0;
        }
        if (rc != 0) {
            lk();
            if (!sh->have_viol) {
                sh->have_viol = true; snprintf(sh->vmsg, sizeof sh->vmsg, "%s%s", rc == 42 ? "" : "ERROR ", wa->msg);
                sh->vn = 0; for (int i = 0; i < npt && sh->vn < 4096; i++) if (wa->pt[i].c) sh->vpre[sh->vn++] = { (uint16_t)i, wa->pt[i].c };
                sh->vlen = npt;
            }
            ulk(); sh->stop = 1; sh->active--; return;
        }
        sh->points += npt > plen ? npt - plen : 0;
        { uint64_t d = sh->maxdepth; while (d < (uint64_t)npt && !sh->maxdepth.compare_exchange_weak(d, npt)) ; }
        int used[NCLS] = {0}; bool anydev = false;
        for (auto &e : pre) { int cl = wa->pt[e.pos].cls; used[cl]++; if (cl != FREE) anydev = true; }
        if (anydev) sh->devs++;
        lk();
        for (int i = plen; i < npt; i++) {
            Pt &p = wa->pt[i];
            if (p.cls != FREE && used[p.cls] + 1 > g_bound[p.cls]) continue;
            for (int alt = p.n - 1; alt >= 1; alt--) { auto q = pre; q.push_back({(uint16_t)i, (uint16_t)alt}); push(q, i+1); }
        }
        ulk();
        sh->active--;
        if (wall() > tend) { sh->capped = 1; sh->stop = 1; return; }
    }
}
static S jesc(const S &s) { S o; for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32||c>126) o += fmt("\\u%04x", c); else o+=c; } return o; }

int main(int argc, char **argv) {
    S prop, only, outp, replay, rdir = "."; int jobs = 8; double cap = 600;
    for (int i = 1; i < argc; i++) { S a = argv[i];
        if (a=="--prop") prop = argv[++i]; else if (a=="--scenario") only = argv[++i]; else if (a=="--out") outp = argv[++i];
        else if (a=="--thorough") g_thorough = true; else if (a=="--jobs") jobs = atoi(argv[++i]); else if (a=="--cap") cap = atof(argv[++i]);
        else if (a=="--replay") replay = argv[++i]; else if (a=="--rdir") rdir = argv[++i]; else if (a=="-v") g_verbose = true;
        else if (a=="--list") { for (auto &s : scens()) printf("%s %s\n", s.prop, s.name); return 0; }
        else if (a=="--known") { FILE *f = __real_fopen(argv[++i], "r"); char l[1024];
            while (f && fgets(l, sizeof l, f)) { S s = l; while (!s.empty() && (s.back()=='\n')) s.pop_back();
                if (s.compare(0, 8, "finding:")) continue; size_t a1 = s.find("property="), b = s.find("match=");
                if (a1==S::npos||b==S::npos) continue; knowns.push_back({ s.substr(a1+9, s.find(' ', a1)-a1-9), s.substr(b+6) }); }
            if (f) __real_fclose(f); }
        else { fprintf(stderr, "usage?\n"); return 2; } }
    setenv("TZ", "UTC0", 1); tzset(); setenv("LC_ALL","C",1);
    { void *bt[4]; backtrace(bt, 4); }       /* preload unwinder */
    wa = (WorkerArea*)mmap(0, sizeof(WorkerArea), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    sh = (Shared*)mmap(0, sizeof(Shared)+STACKCAP, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    if (!replay.empty()) {
        FILE *f = __real_fopen(replay.c_str(), "r"); char l[4096], sn[128] = ""; std::vector<PreE> pre; int plen = 0;
        if (!f) { perror(replay.c_str()); return 2; }
        while (fgets(l, sizeof l, f)) { int a, b; char tier[32];
            if (sscanf(l, "scenario %127s tier %31s", sn, tier) == 2) g_thorough = !strcmp(tier, "thorough");
            else if (sscanf(l, "choice %d %d", &a, &b) == 2) pre.push_back({(uint16_t)a,(uint16_t)b}); else sscanf(l, "len %d", &plen); }
        __real_fclose(f);
        for (auto &s : scens()) if (S(s.name) == sn) { g_sc = &s; }
        if (!g_sc) { fprintf(stderr, "unknown scenario %s\n", sn); return 2; }
        g_verbose = true; int rc = exec_one(pre, plen, 300);
        printf("%s: %s\n", rc == 0 ? "no violation" : rc == 42 ? "VIOLATION" : "ERROR", wa->msg); return rc == 0 ? 0 : rc == 42 ? 1 : 2;
    }
    FILE *fo = outp.empty() ? stdout : __real_fopen(outp.c_str(), "w");
    int rcall = 0; int nrun = 0; double t0all = wall();
    fprintf(fo, "[\n");
    for (auto &s : scens()) {
        if (!prop.empty() && prop != s.prop) continue;
        if (!only.empty() && only != s.name) continue;
        g_sc = &s; double t0 = wall();
        double left = cap - (t0 - t0all); if (left < 5) left = 5;
        memcpy(g_bound, g_thorough ? s.t : s.q, sizeof g_bound);
        madvise(sh, sizeof(Shared)+STACKCAP, MADV_REMOVE);
        lk(); push({}, 0); ulk();
        std::vector<pid_t> ws;
        for (int j = 0; j < jobs; j++) { pid_t p = __real_fork(); if (p == 0) {
                wa = (WorkerArea*)mmap(0, sizeof(WorkerArea), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
                prctl(PR_SET_PDEATHSIG, SIGKILL); worker(j, t0 + left); _exit(0); } ws.push_back(p); }
        for (auto p : ws) { int st; __real_waitpid(p, &st, 0); if (!WIFEXITED(st) && !sh->have_viol) { sh->have_viol = true; snprintf(sh->vmsg, 4096, "ERROR worker died"); } }
        S vmsg, rfile; bool err = false;
        if (sh->have_viol) {
            vmsg = sh->vmsg; err = vmsg.compare(0, 6, "ERROR ") == 0;
            std::vector<PreE> pre(sh->vpre, sh->vpre + sh->vn);
            if (!err) {
                /* replay twice: must fail the same way */
                bool same = true;
                for (int k = 0; k < 2; k++) { int rc = exec_one(pre, sh->vlen, 300); if (rc == 44) { snprintf(wa->msg, 4096, "execution does not terminate (hang in the code under test)"); rc = 42; } same &= rc == 42 && vmsg == wa->msg; }
                if (!same) { err = true; vmsg = "ERROR not reproducible: " + vmsg + " / " + wa->msg; }
                /* greedy minimisation of the deviations */
                for (bool ch = true; ch && !err; ) { ch = false;
                    for (size_t i = 0; i < pre.size() && pre.size() < 200; i++) { auto q = pre; q.erase(q.begin()+i); int l = q.empty() ? 0 : q.back().pos + 1;
                        int rc = exec_one(q, l, 300); if (rc == 42 && !is_known(wa->msg)) { S m1 = wa->msg; rc = exec_one(q, l, 300); if (rc == 42 && m1 == wa->msg) { pre = q; vmsg = m1; ch = true; break; } } } }
            }
            rfile = rdir + "/" + s.prop + "-" + s.name + ".replay";
            FILE *f = __real_fopen(rfile.c_str(), "w");
            if (f) { fprintf(f, "scenario %s tier %s\nproperty %s\nlen %d\n", s.name, g_thorough ? "thorough":"quick", s.prop, pre.empty() ? 0 : pre.back().pos + 1);
                for (auto &e : pre) fprintf(f, "choice %d %d\n", e.pos, e.c);
                fprintf(f, "message %s\n", vmsg.c_str()); __real_fclose(f); }
            rcall = err ? 2 : (rcall == 2 ? 2 : 1);
        }
        fprintf(fo, "%s{\"scenario\":\"%s\",\"property\":\"%s\",\"what\":\"%s\",\"bounds\":{\"sched\":%d,\"fault\":%d,\"async\":%d},", nrun++ ? ",\n" : "", s.name, s.prop, jesc(s.what).c_str(), g_bound[1], g_bound[2], g_bound[3]);
        fprintf(fo, "\"executions\":%llu,\"deviating\":%llu,\"choice_points\":%llu,\"states\":%llu,\"transitions\":%llu,\"steps\":%llu,\"cases\":%llu,\"max_choices\":%llu,\"outcomes\":%llu,\"exhausted\":%s,\"wall_s\":%.2f,",
            (unsigned long long)sh->execs, (unsigned long long)sh->devs, (unsigned long long)sh->points, (unsigned long long)sh->states, (unsigned long long)sh->trans, (unsigned long long)sh->steps, (unsigned long long)sh->cases, (unsigned long long)sh->maxdepth, (unsigned long long)sh->outcomes, (sh->capped || sh->have_viol) ? "false":"true", wall()-t0);
        fprintf(fo, "\"outcome_samples\":["); for (int i = 0; i < sh->nout && i < 12; i++) fprintf(fo, "%s\"%s\"", i?",":"", jesc(sh->out[i]).c_str());
        fprintf(fo, "],\"samples\":["); for (int i = 0; i < sh->nsample; i++) fprintf(fo, "%s\"%s\"", i?",":"", jesc(sh->sample[i]).c_str());
        fprintf(fo, "],\"known\":["); for (int i = 0; i < sh->nknown; i++) fprintf(fo, "%s\"%s\"", i?",":"", jesc(sh->knownmsg[i]).c_str());
        fprintf(fo, "],\"violation\":%s%s%s,\"replay\":\"%s\",\"error\":%s}", vmsg.empty()?"null":"\"", vmsg.empty()?"":jesc(vmsg).c_str(), vmsg.empty()?"":"\"", rfile.c_str(), err?"true":"false");
        fflush(fo);
    }
    fprintf(fo, "\n]\n"); if (fo != stdout) __real_fclose(fo);
    return rcall;
}

/* -------------------------------------------------------------- scheduler */
Task *cur = nullptr; std::vector<Task*> tasks; static ucontext_t sched_ctx; static Task *next_hint; 
static int last_run = 0; static int burst;
void mem_recycle();
void next_case() { burst = 0; n_cases++; mem_recycle(); }

static void tramp(unsigned hi, unsigned lo) {
    Task *t = (Task*)(((uintptr_t)hi << 32) | lo);
    t->ret = t->start(t->arg);
    task_exit();
}
Task *new_task(Proc *p, const S &name, void *(*start)(void*), void *arg) {
    Task *t = new Task; t->id = tasks.size() + 1; t->proc = p; t->name = name; t->start = start; t->arg = arg;
    t->stksz = 8*1024*1024; t->stk = (char*)mmap(0, t->stksz, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK, -1, 0);
    mprotect(t->stk, 4096, PROT_NONE);
    getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stk; t->ctx.uc_stack.ss_size = t->stksz; t->ctx.uc_link = 0;
    makecontext(&t->ctx, (void(*)())tramp, 2, (unsigned)((uintptr_t)t >> 32), (unsigned)((uintptr_t)t & 0xffffffffu));
    tasks.push_back(t); return t;
}
void task_yield(Task *next) {
    Task *me = cur; next_hint = next; me->saved_errno = errno; swapcontext(&me->ctx, &sched_ctx); errno = me->saved_errno;
}
void task_exit() { cur->st = Task::DONE; next_hint = 0; setcontext(&sched_ctx); abort(); }
static bool runnable(Task *t) {
    if (t->st == Task::DONE) return false;
    if (t->proc && t->proc->stopped) return false;
    if (t->st == Task::RUN) return true;
    if (t->ready && t->ready()) return true;
    if (t->deadline >= 0 && W->now >= t->deadline) return true;
    if (t->intr_ok && t->proc && t->proc->maintask == t && !t->proc->pending.empty()) return true;
    return false;
}
bool task_block(const char *why, std::function<bool()> ready, int64_t deadline, bool intr_ok) {
    Task *me = cur; me->why = why;
    for (;;) {
        if (ready && ready()) { return true; }
        if (in_shell) shell_waiting();
        if (deadline >= 0 && W->now >= deadline) return false;
        me->intr = false;
        if (intr_ok && me->proc->maintask == me && me->proc->sig_due()) { me->proc->intr_call = false; deliver_signals(); me->intr = true; return false; }
        me->st = Task::BLOCK; me->ready = ready; me->deadline = deadline; me->intr_ok = intr_ok;
        task_yield(nullptr);
        me->st = Task::RUN;
    }
}
static void try_async() {
    for (size_t i = 0; i < W->async.size(); i++) {
        if (choose(2, ASYNC, W->async[i].first.c_str())) {
            auto a = W->async[i]; W->async.erase(W->async.begin()+i); i--;
            tracef("async event strikes now: %s", a.first.c_str());
            Task *sv = cur; cur = nullptr; a.second(); cur = sv;
            if (cur && cur->proc && cur->proc->exited) task_exit();   /* killed by the event */
        }
    }
}
/* Events outside the process commute with operations on mutexes, conditions and threads: striking before the preceding I/O call is the same. */
static bool is_sync_op(const char *t) { static const char *o[] = {"lock", "unlock", "trylock", "create", "signal", "broadcast", "yield"}; for (auto x : o) if (!strcmp(t, x)) return true; return false; }
void sched_point(const char *tag) {
    if (!cur || in_aside_child || in_shell) return;
    W->steps++;
    if (++burst > 400000) fail("%s spins without ever blocking (at %s)", cur->proc ? cur->proc->name.c_str() : "?", tag);
    if (!W->async.empty() && !(W->async_io_only && is_sync_op(tag))) try_async();
    if (cur->proc && cur->proc->maintask == cur && cur->proc->sig_due()) deliver_signals();
    if (W->explore_sched) {
        std::vector<Task*> o; for (auto t : tasks) if (t != cur && runnable(t)) o.push_back(t);
        if (!o.empty()) { int c = choose(1 + o.size(), SCHED, tag); if (c) { tracef("preempt %s at %s -> %s", cur->name.c_str(), tag, o[c-1]->name.c_str()); task_yield(o[c-1]); } }
    }
}
/* A signal may also be handled between a failing call and the use of its errno. */
void post_error_point() {
    if (!W || !W->sig_after_err || !cur || in_aside_child || in_shell || !cur->proc || cur->proc->maintask != cur) return;
    int e = errno; if (!W->async.empty()) try_async(); errno = e; if (cur->proc->sig_due()) deliver_signals();
}
void yield_point(const char *tag) { sched_point(tag); }
static void run_task(Task *t) { cur = t; last_run = t->id; t->st = Task::RUN; swapcontext(&sched_ctx, &t->ctx); cur = nullptr; }
void settle() {
    REQUIRE(!cur, "internal: settle from a task");
    burst = 0; Task *nx = nullptr; next_hint = nullptr;
    for (;;) {
        if (!nx) {
            std::vector<Task*> r; size_t n = tasks.size();
            for (size_t k = 0; k < n; k++) { Task *t = tasks[(last_run + k) % n]; if (runnable(t)) r.push_back(t); }
            if (r.empty()) break;
            int c = (W->explore_sched && r.size() > 1) ? choose(r.size(), SCHED, "next") : 0;
            nx = r[c];
        }
        if (++burst > 400000) fail("the program spins without ever blocking");
        run_task(nx); nx = next_hint; next_hint = nullptr;
        if (nx && !runnable(nx)) nx = nullptr;
    }
    for (auto t : tasks) if (t->st == Task::BLOCK && t->waitmutex && !t->proc->exited && !t->proc->stopped)
        fail("deadlock: task %s of %s waits forever for a lock", t->name.c_str(), t->proc->name.c_str());
    world_step_hash();
}
/* Would the program notice at once if the peer sent something now?  (All tasks are blocked; the byte is taken back.) */
bool would_wake(Conn *c) {
    if (!c || !c->to || c->app_closed() || c->ours_closed) return true;
    c->to->q.push_back('x'); bool w = false; for (auto t : tasks) if (runnable(t)) w = true; c->to->q.pop_back(); return w;
}
int64_t next_deadline() {
    int64_t d = -1; for (auto t : tasks) if (t->st == Task::BLOCK && t->deadline >= 0 && !t->proc->stopped && (d < 0 || t->deadline < d)) d = t->deadline;
    return d;
}
void advance(double secs) {
    settle(); int64_t end = W->now + (int64_t)(secs * 1e6 + 0.5); int64_t guard = 0, lastd = -1; int same = 0;
    for (;;) {
        int64_t d = next_deadline();
        if (d < 0 || d > end) break;
        if (d > W->now) W->now = d;
        if (d == lastd) { if (++same > 2000) fail("livelock: the program wakes up over and over without time passing"); } else { same = 0; lastd = d; }
        settle();
        if (++guard > 2000000) fail("livelock: the program keeps waking up (%lld wakeups within %.0f s)", (long long)guard, secs);
    }
    if (W->now < end) W->now = end;
    settle();
}
int live_threads(Proc *p) { int n = 0; for (auto t : tasks) n += t->proc == p && t->st != Task::DONE; return n; }
double tnow() { return (W->now - 1700000000ll*1000000) / 1e6; }
void async_event(const S &n, std::function<void()> f) { W->async.push_back({n, f}); }
void flush_async() { auto a = W->async; W->async.clear(); for (auto &x : a) { x.second(); } settle(); }
