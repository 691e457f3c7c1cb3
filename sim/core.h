#pragma once
#include "sim.h"
#include <ucontext.h>
struct Task {
    int id; Proc *proc; S name; ucontext_t ctx; char *stk = nullptr; size_t stksz = 0;
    enum { RUN, BLOCK, DONE } st = RUN;
    std::function<bool()> ready;            /* wake predicate while BLOCKed */
    int64_t deadline = -1;
    const char *why = "";
    bool intr = false;                      /* woken by a signal */
    bool intr_ok = false;
    void *(*start)(void*) = nullptr; void *arg = nullptr; void *ret = nullptr; bool detached = false, joined = false;
    void *waitmutex = nullptr;
    int saved_errno = 0;
};
extern Task *cur;
extern std::vector<Task*> tasks;
Task *new_task(Proc *p, const S &name, void *(*start)(void*), void *arg);
void task_yield(Task *next);                /* back to the scheduler */
/* block the running task; returns false if it timed out, sets cur->intr if a signal woke it */
bool task_block(const char *why, std::function<bool()> ready, int64_t deadline, bool intr_ok);
[[noreturn]] void task_exit();
void sched_point(const char *tag);
void deliver_signals();
void post_error_point();
void proc_exit(Proc *p, int code, int sig);
extern int g_plen, g_depth;
extern bool in_shell; void shell_waiting();    /* running the branch of a process that waits for its daemonizing child */
extern bool in_aside_child;                 /* running a forked child branch */
void world_step_hash();
void next_case();                          /* another case enumerated within one execution */
