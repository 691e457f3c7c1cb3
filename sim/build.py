#!/usr/bin/env python3
"""Builds the simulated world + /repo's current sources into one explorer binary."""
import os, re, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

# Calls with effects on, or answers from, the real system that the simulated one does not provide.
OUTSIDE = set("""syscall system popen pclose daemon posix_spawn posix_spawnp fexecve execveat clone unshare setns mount umount umount2 chroot pivot_root reboot
 openat openat64 mkdirat unlinkat renameat renameat2 linkat symlinkat fchownat fchmodat faccessat fstatat readlinkat mknod mknodat mkfifo mkstemp mkostemp mkdtemp tmpfile tmpnam
 rmdir link symlink readlink realpath truncate truncate64 lchown chown fchown utime utimes utimensat futimens opendir fdopendir readdir closedir scandir nftw ftw glob glob64 wordexp
 freopen fopen64 fopencookie creat64 lseek64 pread pwrite pread64 pwrite64 preadv pwritev sendfile splice tee vmsplice copy_file_range fallocate posix_fallocate posix_fadvise sync syncfs
 sendmsg recvmsg sendmmsg recvmmsg socketat epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait signalfd eventfd timerfd_create timerfd_settime mmap munmap shm_open mq_open sem_open
 sem_init sem_wait sem_post sem_timedwait sem_trywait sem_destroy pthread_rwlock_init pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_init pthread_spin_lock pthread_spin_unlock
 pthread_barrier_wait pthread_kill pthread_sigqueue pthread_key_create pthread_setspecific pthread_getspecific pthread_mutex_timedlock pthread_timedjoin_np pthread_tryjoin_np thrd_create mtx_lock
 sigwait sigwaitinfo sigtimedwait sigsuspend sigpending sigqueue sigaltstack setitimer getitimer timer_create timer_settime clock_nanosleep clock_settime settimeofday stime pause ualarm
 setuid setgid seteuid setegid setreuid setregid setresuid setresgid initgroups setgroups nice setpriority prctl ptrace waitid getrusage prlimit prlimit64 sethostname
 gethostbyname_r gethostbyaddr_r gethostbyname2 getnameinfo getservbyname getpwnam_r getpwuid_r getpwent inotify_add forkpty openpty login_tty posix_openpt grantpt unlockpt ptsname tcflow tcsetpgrp tcgetpgrp vhangup
 setjmp longjmp siglongjmp dlopen aligned_alloc posix_memalign memalign""".split())

def am_sources():
    txt = open(f"{REPO}/Makefile.am").read().replace("\\\n", " ")
    var = dict(re.findall(r"^(\w+)\s*=\s*(.*)$", txt, re.M))
    def exp(n):
        out = []
        for w in var.get(n, "").split("#")[0].split():
            m = re.match(r"\$\((\w+)\)$", w)
            out += exp(m.group(1)) if m else [w]
        return [x for x in out if x.endswith(".c")]
    srv, cli = exp("conmand_SOURCES") + exp("EXTRA_conmand_SOURCES"), exp("conman_SOURCES")
    if not srv or not cli:
        raise SystemExit("cannot read the source lists from Makefile.am")
    return srv, cli

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(2)

def build(out, scen_files, opt="-O1"):
    """Returns the path of the explorer binary, built in directory `out`."""
    srv, cli = am_sources()
    os.makedirs(out, exist_ok=True)
    cc = ["gcc", "-g", opt, "-w", "-fno-omit-frame-pointer", "-fno-builtin-strdup", "-fstack-protector-strong", "-U_FORTIFY_SOURCE",
          "-D_FORTIFY_SOURCE=0", "-include", f"{HERE}/strchk.h", "-DHAVE_CONFIG_H", f"-I{HERE}", f"-I{REPO}/src", "-DWITH_OOMF", "-DWITH_PTHREADS"]
    jobs = []
    for s in srv:
        jobs.append(cc + ["-DSYSCONFDIR=/etc"] + (["-Dmain=conmand_main"] if s.endswith("/server.c") else []) +
                    ["-c", f"{REPO}/{s}", "-o", f"{out}/s_{os.path.basename(s)}.o"])
    for s in cli:
        jobs.append(cc + (["-Dmain=conman_main"] if s.endswith("/client.c") else []) +
                    ["-c", f"{REPO}/{s}", "-o", f"{out}/c_{os.path.basename(s)}.o"])
    cxx = ["g++", "-std=c++17", "-g", opt, "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", f"-I{HERE}", f"-I{REPO}/src"]
    hobjs = []
    for f in ["core.cc", "world.cc", "ref.cc"] + scen_files:
        o = f"{out}/h_{os.path.basename(f)}.o"; hobjs.append(o)
        jobs.append(cxx + ["-c", os.path.join(HERE, f), "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    cobjs = [f"{out}/c_{os.path.basename(s)}.o" for s in cli]
    sobjs = [f"{out}/s_{os.path.basename(s)}.o" for s in srv]
    run(["ld", "-r", "-o", f"{out}/client.o"] + cobjs)
    run(["objcopy", "--keep-global-symbol=conman_main", f"{out}/client.o"])
    run(["ld", "-r", "-o", f"{out}/server2.o"] + sobjs)      # a second instance of the daemon, with variables of its own
    run(["objcopy", "--keep-global-symbol=conmand_main", f"{out}/server2.o"])
    run(["objcopy", "--redefine-sym", "conmand_main=conmand2_main", f"{out}/server2.o"])
    nm = subprocess.run(["nm", f"{out}/h_world.cc.o"], stdout=subprocess.PIPE, text=True).stdout
    wraps = sorted(set(re.findall(r" T __wrap_(\w+)$", nm, re.M)))
    und = set(w for f in ("client.o", "server2.o") for w in re.findall(r" U (\w+)$", subprocess.run(["nm", "-u", f"{out}/{f}"], stdout=subprocess.PIPE, text=True).stdout, re.M))
    bad = sorted(w for w in und & OUTSIDE if w not in wraps)
    if bad:      # such a call would act on the real system
        raise SystemExit("the program uses calls that are not simulated: " + " ".join(bad))
    exe = f"{out}/explore"
    run(["g++", "-rdynamic", "-o", exe] + hobjs + sobjs + [f"{out}/client.o", f"{out}/server2.o"] + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread"])
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
