#!/usr/bin/env python3
"""Builds the simulator together with the code under test from /repo's working tree.

The sources of the library (fstrm/*.c, libmy/my_queue*.c) and of the three programs
(src/*.c) are compiled unmodified, with every shared memory access instrumented, and
every call that reaches the operating system is redirected to the simulator at link
level. Output: .build/simfstrm"""
import os, sys, re, glob, hashlib, subprocess, fcntl, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FSTRM_REPO", "/repo")
B = os.path.join(V, ".build")
EVENT = "/usr/lib/x86_64-linux-gnu/libevent_core.a"
CC, CXX = "clang", "clang++"
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
CF = ["-std=gnu99", "-O1", "-g", "-w", "-fno-pie", "-ftrivial-auto-var-init=pattern", "-femulated-tls", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fno-builtin-printf", "-fno-builtin-fprintf", "-fno-builtin-fwrite",
      "-include", V + "/sim/cfg/config.h", "-I" + REPO, "-I" + REPO + "/fstrm"]
XF = ["-std=gnu++17", "-O2", "-g", "-w", "-fno-pie", "-I" + REPO, "-I" + REPO + "/fstrm", "-I" + V + "/sim"]

# libc name -> simulator name
SAME = """malloc calloc realloc free strdup strndup reallocarray posix_memalign aligned_alloc malloc_usable_size asprintf vasprintf abort
memcpy memmove memset memcmp
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock
pthread_condattr_init pthread_condattr_destroy pthread_condattr_setclock pthread_condattr_getclock pthread_cond_init pthread_cond_destroy
pthread_cond_signal pthread_cond_broadcast pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_create pthread_join
pthread_detach pthread_self pthread_equal pthread_once pthread_exit pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_rwlock_init pthread_rwlock_destroy
pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_unlock
sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait sem_getvalue pthread_sigmask sched_yield
exit _exit sigaction signal raise getpid socket connect bind listen accept accept4 sendmsg send sendto write writev read recv recvfrom recvmsg readv
close shutdown fcntl ioctl setsockopt getsockopt getsockname getpeername pipe pipe2 socketpair eventfd epoll_create epoll_create1 epoll_ctl epoll_wait
timerfd_create timerfd_settime poll select open openat creat lseek fstat stat access fsync ftruncate unlink remove rename isatty dup dup2 pread pwrite
clock_gettime gettimeofday time clock_getres nanosleep clock_nanosleep usleep getenv tzset sysconf
fopen fopen64 fdopen fclose fflush fflush_unlocked fwrite fwrite_unlocked fread fread_unlocked ferror feof clearerr fileno fputc putc putchar fputs puts
fgetc getc ungetc fgets getdelim getline dprintf vdprintf vfprintf fprintf printf vprintf perror setvbuf setbuf setlinebuf fseek ftell rewind flockfile funlockfile stdin stdout stderr
open_memstream warn warnx vwarn vwarnx err errx atexit
localtime_r localtime gmtime_r gmtime strftime""".split()
MAP = {n: "sim_" + n for n in SAME}
MAP.update({"kill": "sim_kill_call", "sleep": "sim_sleep_c", "sigprocmask": "sim_pthread_sigmask", "__assert_fail": "sim_assert_fail", "open64": "sim_open", "_Exit": "sim__exit",
  "fsync": "sim_fsync", "fdatasync": "sim_fsync", "lseek64": "sim_lseek", "fstat64": "sim_fstat", "stat64": "sim_stat", "lstat": "sim_stat", "ftruncate64": "sim_ftruncate", "pread64": "sim_pread", "pwrite64": "sim_pwrite", "__getdelim": "sim_getdelim",
  "ferror_unlocked": "sim_ferror", "feof_unlocked": "sim_feof", "clearerr_unlocked": "sim_clearerr", "fileno_unlocked": "sim_fileno",
  "putc_unlocked": "sim_putc", "fputc_unlocked": "sim_fputc", "putchar_unlocked": "sim_putchar", "fputs_unlocked": "sim_fputs", "getc_unlocked": "sim_getc", "fgetc_unlocked": "sim_fgetc",
  "fgets_unlocked": "sim_fgets", "_IO_putc": "sim_putc",
  "__fprintf_chk": "sim_fprintf_chk", "__printf_chk": "sim_printf_chk", "bcmp": "sim_memcmp", "__memcpy_chk": "sim_memcpy", "__memmove_chk": "sim_memmove", "__memset_chk": "sim_memset",
  "secure_getenv": "sim_getenv", "__emutls_get_address": "sim_emutls_get_address", "quick_exit": "sim__exit", "__pthread_mutex_lock": "sim_pthread_mutex_lock",
  "arc4random": "sim_arc4random", "arc4random_buf": "sim_arc4random_buf", "rand": "sim_rand", "random": "sim_rand", "ppoll": "sim_ppoll", "pselect": "sim_select"})
# harmless pure functions of libc that may stay as they are
PURE = set("""__errno_location __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc strlen strcmp strncmp strncpy strcpy strcat strncat strchr strrchr strstr strnlen memchr memrchr strerror strerror_r
strtol strtoul strtoll strtoull __isoc23_strtoul __isoc23_strtol __isoc23_strtoll __isoc23_strtoull __isoc23_sscanf sscanf atoi atol snprintf vsnprintf sprintf __vsnprintf_chk __snprintf_chk __sprintf_chk
sigemptyset sigaddset sigfillset sigdelset sigismember inet_pton inet_ntop htonl htons ntohl ntohs strcasecmp strncasecmp strspn strcspn strpbrk strtok_r strtok strsep stpcpy qsort bsearch
__stack_chk_fail getopt getopt_long optarg optind opterr toupper tolower isprint isdigit isspace __fdelt_chk mmap munmap getaddrinfo freeaddrinfo gai_strerror getifaddrs freeifaddrs getprotobynumber
getservbyname getuid geteuid getgid getegid if_nametoindex sendfile strlcpy strlcat _GLOBAL_OFFSET_TABLE_ rawmemchr memmem memccpy mempcpy difftime abs labs mktime timegm basename
pthread_attr_init pthread_attr_destroy pthread_attr_setstacksize pthread_attr_getstacksize pthread_attr_setdetachstate pthread_attr_getdetachstate pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype pthread_mutexattr_gettype pthread_setname_np""".split())

# libevent calls of the programs that may fail for lack of memory (sim/libev.cc)
LIBEV = ["bufferevent_socket_new", "bufferevent_write"]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout)); os._exit(2)
    return r.stdout
def hfile(p, _c={}):
    if p not in _c:
        with open(p, "rb") as f: _c[p] = hashlib.sha256(f.read()).hexdigest()
    return _c[p]
def deps_of(pats): return sorted(p for g in pats for p in glob.glob(g))
def build():
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    repo_h = "".join(hfile(p) for p in deps_of([REPO + "/fstrm/*.h", REPO + "/libmy/*.h", REPO + "/src/*.h", REPO + "/libmy/argv_loc.h", V + "/sim/cfg/*"]))
    sim_h = "".join(hfile(p) for p in deps_of([V + "/sim/*.h"])) + repo_h
    me = hfile(os.path.abspath(__file__))
    def stale(out, key):
        k = hashlib.sha256((key + me).encode()).hexdigest()
        try:
            if os.path.exists(out) and open(out + ".key").read() == k: return None
        except OSError: pass
        return k
    def done(out, k):
        with open(out + ".key", "w") as f: f.write(k)
    redef = B + "/redef.txt"
    with open(redef, "w") as f:
        seen, defsym = set(), []   # objcopy wants one source per target; further aliases are tied together by the linker
        for a, b in sorted(MAP.items(), key=lambda x: (x[0] not in SAME, x)):
            if b in seen: defsym.append("-Wl,--defsym=simx_%s=%s" % (a, b)); b = "simx_" + a
            seen.add(b); f.write("%s %s\n" % (a, b))
    lib = sorted(glob.glob(REPO + "/fstrm/*.c") + [p for p in glob.glob(REPO + "/libmy/*.c") if os.path.basename(p) != "argv.c"])
    progs = {"capture": REPO + "/src/fstrm_capture.c", "replay": REPO + "/src/fstrm_replay.c", "dump": REPO + "/src/fstrm_dump.c"}
    extra = [p for p in sorted(glob.glob(REPO + "/src/*.c")) if p not in progs.values()] # sources the programs may come to share
    objs = []
    def cc(src, out, flags, comp, hdr, post=None):
        def job():
            k = stale(out, hfile(src) + hdr + " ".join(flags))
            if not k: return
            sh([comp] + flags + ["-c", src, "-o", out])
            if post: post(out)
            done(out, k)
        return job
    def redirect(o): sh(["objcopy", "--redefine-syms=" + redef, o])
    jobs = []
    simsrc = sorted(glob.glob(V + "/sim/*.cc"), key=lambda p: -os.path.getsize(p))
    for s in simsrc:
        o = B + "/sim_" + os.path.basename(s)[:-3] + ".o"; objs.append(o); jobs.append(cc(s, o, XF, CXX, sim_h))
    for s in lib:
        o = B + "/lib_" + os.path.basename(s)[:-2] + ".o"; objs.append(o); jobs.append(cc(s, o, CF + TSAN, CC, repo_h, redirect))
    argv = B + "/argv.o"
    jobs.append(cc(REPO + "/libmy/argv.c", argv, CF, CC, repo_h))
    for n, s in progs.items():
        jobs.append(cc(s, B + "/prog_%s_c.o" % n, CF + TSAN, CC, repo_h))
    for s in extra: jobs.append(cc(s, B + "/srcx_%s.o" % os.path.basename(s)[:-2], CF + TSAN, CC, repo_h))
    def ev():
        out = B + "/libevent.o"; k = stale(out, hfile(EVENT))
        if not k: return
        sh(["ld", "-r", "-o", out, "--whole-archive", EVENT]); redirect(out); done(out, k)
    jobs.append(ev)
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: j(), jobs))
    shared = [argv] + [o for o in (B + "/srcx_%s.o" % os.path.basename(s)[:-2] for s in extra) if " T main" not in sh(["nm", o])]
    xkey = "".join(hfile(p) for p in extra)
    for n, s in progs.items():
        out = B + "/prog_%s.o" % n; objs.append(out)
        k = stale(out, hfile(s) + hfile(REPO + "/libmy/argv.c") + xkey + repo_h)
        if not k: continue
        sh(["ld", "-r", "-o", out, B + "/prog_%s_c.o" % n] + shared)
        sh(["objcopy", "--redefine-sym", "main=%s_main" % n, "--keep-global-symbol=%s_main" % n] + [x for f in LIBEV for x in ("--redefine-sym", "%s=simev_%s" % (f, f))] + [out]); redirect(out); done(out, k)
    for i in (2, 3): # further copies of capture, each with a libevent of its own: a process that is started again begins with fresh global state
        out = B + "/prog_capture%d.o" % i; objs.append(out); k = stale(out, hfile(progs["capture"]) + hfile(REPO + "/libmy/argv.c") + hfile(EVENT) + xkey + repo_h)
        if not k: continue
        sh(["ld", "-r", "-o", out, B + "/prog_capture_c.o"] + shared + ["--whole-archive", EVENT]); sh(["objcopy", "--redefine-sym", "main=capture%d_main" % i, "--keep-global-symbol=capture%d_main" % i, out]); redirect(out); done(out, k)
    objs.append(B + "/libevent.o")
    exe = B + "/simfstrm"; k = stale(exe, "".join(open(o + ".key").read() for o in objs))
    if k:
        # anything the code under test uses that is neither simulated nor known to be pure
        code = [o for o in objs if os.path.basename(o).startswith(("lib_", "prog_"))]
        und = set(); dfn = set()
        for o in objs:
            for l in sh(["nm", o]).splitlines():
                p = l.split()
                if len(p) == 2 and p[0] in "Uw" and o in code: und.add(p[1])
                elif len(p) == 3: dfn.add(p[2])
        unk = sorted(u for u in und if u not in dfn and u not in PURE and not u.startswith(("sim_", "simx_", "__tsan_")))
        with open(B + "/unsimulated.txt", "w") as f: f.write("\n".join(unk))
        if unk: sys.stderr.write("note: not simulated, taken from libc: %s\n" % " ".join(unk))
        sh([CXX, "-no-pie", "-fuse-ld=lld", "-o", exe + ".tmp"] + objs + defsym + ["-lm"])
        os.replace(exe + ".tmp", exe); done(exe, k)
    return exe
if __name__ == "__main__":
    t = time.time(); build(); sys.stderr.write("built in %.1f s\n" % (time.time() - t))
