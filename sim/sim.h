// Deterministic simulator for fstrm: shared declarations.
// Everything the code under test can observe that is not a pure function of its
// input (threads, clocks, sockets, files, signals, heap contents) is provided by
// this simulator; every choice it makes comes from choose()/chance() below.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <functional>
#include <memory>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
using std::string; using std::vector;

static const u64 NS = 1000000000ull, MS = 1000000ull, US = 1000ull;

// ---------------------------------------------------------------- choices
enum { ST_CFG = 0, ST_SCHED, ST_FAULT, ST_NET, ST_KERN, ST_HEAP, ST_ENV, ST_SPARE, ST_OPS, NSTREAMS = ST_OPS + 24 };
u32 choose(int stream, u32 n);                 // uniform in [0,n); 0 is the simplest
bool chance(int stream, u32 num, u32 den);     // true with probability num/den; false is simplest
u32 choose_with(int stream, u32 fresh, u32 limit); // record an externally computed value (< limit)
u64 rng_raw(int stream);                       // only to compute a 'fresh' value
bool tape_replaying();
static inline u32 rangeu(int s, u32 lo, u32 hi) { return lo + choose(s, hi - lo + 1); }
u32 skewed(int stream, u32 maxv);              // log-uniform in [0,maxv]
template <class T, size_t N> T oneof(int s, const T (&a)[N]) { return a[choose(s, (u32)N)]; }

// ---------------------------------------------------------------- run control
// tags: comma separated property ids the violated oracle belongs to; "*" = any.
// violation() returns if the oracle is not one of the property being checked.
void violation(const char *tags, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void fatal_violation(const char *tags, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
extern u64 g_must_end;                            // when what the run is busy with should have ended at the latest (for hang())
[[noreturn]] void discard_run(const char *why);  // run is outside the explored space (e.g. budget)
[[noreturn]] void harness_bug(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // event log + determinism hash
void hash_event(u64 a, u64 b = 0, u64 c = 0);
extern bool g_trace;
const char *cur_property();
bool prop_is(const char *id);

// faults / probes (named counters in shared memory)
void fault_fired(const char *name);
void probe(const char *name);
void probe_n(const char *name, u64 n);

// ---------------------------------------------------------------- fibers
struct Proc;
struct Fiber;
struct WaitQ { vector<int> w; };
enum WakeReason { WK_WOKEN = 0, WK_TIMEOUT = 1, WK_INTR = 2 };
static const u64 NEVER = ~0ull;

int fiber_spawn(const char *name, std::function<void()> fn, Proc *proc, size_t stack_kb = 256);
int fiber_self();
const char *fiber_name(int id);
bool fiber_done(int id);
int fiber_find(const char *name, int after = -1);
void fiber_join(int id);
void thread_ends();               // destructors of the current thread's specific data
[[noreturn]] void fiber_end();    // the current fiber ends here
void fiber_kill(int id);          // never runs again
void fiber_kill_proc(Proc *p);    // every thread of a process
WakeReason fiber_block(WaitQ &q, u64 deadline, bool interruptible = false, const char *why = "");
void wake_all(WaitQ &q);
void wake_one(WaitQ &q);          // which one is a scheduling choice
void yield_point();               // ordinary synchronisation point (may preempt)
void mem_point();                 // memory access point (may preempt)
void sim_sleep(u64 ns);
Proc *cur_proc();
u64 fiber_blocked_ns(int id);     // total simulated time spent in blocking kernel/transport calls
u64 fiber_woke(int id);            // event number at which its last wait on a condition variable ended
u64 fiber_blocked_since(int id, const char *why); // 1 + event number at which it began to wait for `why`; 0: it does not
void fiber_mark_transport(bool on); // count blocking of the current fiber as transport time
struct TransportScope { TransportScope() { fiber_mark_transport(true); } ~TransportScope() { fiber_mark_transport(false); } };

// ---------------------------------------------------------------- time
u64 now_ns();                     // monotonic
i64 real_ns();                    // CLOCK_REALTIME
void real_jump(i64 delta);
extern std::vector<std::pair<int, i64>> rt_waits; void fiber_retime(int id, u64 t);
void at_time(u64 t, std::function<void()> fn);  // runs in scheduler context, must not block
u64 gseq();                       // global event sequence number

// ---------------------------------------------------------------- config of the current run
struct SimCfg {
  // scheduling
  int sched_mode = 0;             // 0 random gaps, 1 PCT, 2 sync-only
  u32 gap_mean = 0;               // 0: no preemption at memory accesses
  u32 sync_pct = 0;               // % chance to reschedule at sync points
  // fault rates, per mille per opportunity
  u32 no_clocks = 0; // 1: CLOCK_MONOTONIC_COARSE, 2: _RAW, 4: CLOCK_MONOTONIC are missing
  u32 p_short_send = 0, p_eintr = 0, p_short_read = 0, p_spurious = 0, p_stall = 0, p_lost_wake_order = 0;
  u32 p_send_err = 0, p_recv_err = 0, p_connect_err = 0, p_socket_err = 0, p_close_err = 0;
  u32 p_fopen_err = 0, p_fwrite_err = 0, p_fread_err = 0, p_fclose_err = 0, p_fshort = 0, p_accept_err = 0, p_libev_new = 0, p_libev_write = 0;
  u32 timer_late_us = 0;          // timers may fire late by up to this
  u64 stall_max_ns = 0;
  u64 net_delay_max_ns = 0;
  u32 sockbuf = 65536;
  u32 p_stdout_err = 0; i64 stdout_quota = -1;
  u32 p_bind_err = 0, p_listen_err = 0, p_remove_err = 0;
  i64 disk_quota = -1;            // total bytes of file data the disk takes (-1: unlimited)
  u32 stdio_buf = 0;              // 0: libc default
  u64 step_budget = 8000000; // see hang() in core.cc
  u64 time_budget = 40000 * NS;
  bool faults_on = true;
};
extern SimCfg C;
struct NoFaults { bool s; NoFaults() : s(C.faults_on) { C.faults_on = false; } ~NoFaults() { C.faults_on = s; } };
bool fault(u32 permille, const char *name); // draws on ST_FAULT when faults are on
void stall_point();
void draw_sched_cfg();            // fills the scheduling part of C from ST_CFG

// ---------------------------------------------------------------- heap
extern "C" { void *sim_malloc(size_t); void *sim_calloc(size_t, size_t); void *sim_realloc(void *, size_t); void sim_free(void *); }
void heap_check(const void *p, size_t n, bool write, const char *what);   // violation if not addressable
size_t heap_live_blocks();
size_t heap_live_bytes(); size_t heap_peak(bool reset = false);
u64 heap_mark();                  // allocations made after this mark...
string heap_leaks_since(u64 mark, size_t *count); // ...and still live
bool heap_is_live(const void *p);
bool in_arena(const void *p);

// ---------------------------------------------------------------- kernel
struct Inode; struct End; struct Listener; struct PipeBuf; struct FileDesc;
typedef std::shared_ptr<FileDesc> FileP;

struct Inode {
  string name; string data; u64 id = 0;
  vector<string> generations;     // content before each O_TRUNC reopen
  int open_count = 0; int write_fds = 0;
  u64 created_ns = 0; i64 created_real = 0; u64 creations = 0; u64 n_opened_w = 0;
  u64 last_write_seq = 0;
  bool unlinked = false; bool is_socket = false;
};
struct End {
  int id = 0; bool is_a = false;  // a: connecting side
  End *peer = nullptr; struct ConnRec *rec = nullptr;
  std::deque<u8> rx; size_t inflight = 0; size_t cap = 65536;
  u64 last_delivery = 0;
  bool eof_rx = false;            // no more bytes will ever arrive (fin received)
  bool rst = false;               // connection reset seen by this side
  bool closed = false;            // owner closed it
  bool shut_wr = false;
  string sent;                    // every byte accepted from the owner of this end
  vector<std::pair<u64, size_t>> sent_at; // (time, total after) for timeliness oracles
  size_t received = 0;            // bytes handed to owner
  WaitQ rd, wr;
  u64 closed_at = 0; u64 close_seq = 0; u64 opened_at = 0;
  u64 first_err_seq = 0;          // first error reported to the owner
  bool err_reported = false;
  bool tcp = false;
  bool io_after_err = false;
  bool injected = false;          // an error was injected into this connection
  bool write_oom = false;         // bufferevent_write failed on this connection: the rest of what was received is dropped with it
};
struct ConnRec {
  int id; End a, b; u64 connect_time = 0; u64 connect_seq = 0; Listener *lis = nullptr;
  bool accepted = false; string key;
  u64 accept_time = 0;
};
struct Listener {
  string key; bool open = true; bool refusing = false; std::deque<ConnRec *> backlog; size_t maxbacklog = 128; WaitQ acc;
  bool tcp = false;
};
struct PipeBuf { std::deque<u8> q; bool wclosed = false, rclosed = false; WaitQ rd, wr; size_t cap = 65536; };

enum FKind { FK_SOCK_NEW, FK_SOCK, FK_LISTEN, FK_REG, FK_PIPE_R, FK_PIPE_W, FK_SINK, FK_NULLIN };
struct FileDesc {
  FKind kind; bool nonblock = false; int family = 0; End *end = nullptr; Listener *lis = nullptr; Inode *ino = nullptr;
  PipeBuf *pipe = nullptr; size_t off = 0; int oflags = 0; string *sink = nullptr; string bindkey; string bindpath;
  int refs = 1; bool delayed_werr = false; bool cloexec = false, reuse = false, host = false; /* host: opened by the application itself */
};
struct SigAct { void (*h)(int) = nullptr; int flags = 0; };
struct Proc {
  string name; int pid = 1000;
  std::map<int, FileP> fds;
  SigAct sig[65]; u64 pending = 0; int main_fiber = -1; bool in_handler = false;
  bool exited = false; int exit_code = -1; bool killed = false; u64 exit_time = 0; WaitQ exit_q;
  string out, err;                // captured stdout/stderr sinks
  u64 n_open = 0, n_close = 0, n_ebadf_close = 0;
  u64 n_polls = 0;                // event loop iterations
  u64 fault_errs = 0;             // errors injected into this process' calls
  vector<struct SimFileRec *> files; vector<void (*)()> atexit_fns;
  struct Embed *embed = nullptr; bool is_app = false; // a process that uses the library (not one of the programs)
};
struct ConnectAttempt { u64 t; u64 seq; int result; string key; ConnRec *rec; int fiber; u64 t_done; u64 blocked = 0; };

struct Kernel {
  std::map<string, Inode *> fs; vector<Inode *> inodes;
  std::map<string, Listener *> listeners; string want_addr; string nodir; /* no such directory */ bool tty = false; /* standard output is a terminal */ bool no_sock_cloexec = false, real_peers = false; /* both ends of the connections belong to programs under test */ WaitQ newsock; int host_fiber = -1; vector<ConnRec *> conns; vector<ConnectAttempt> attempts;
  std::map<string, u64> tw; /* address: until when connections in TIME_WAIT keep it busy */ i64 disk_used = 0; WaitQ pollq; u64 n_syscalls = 0;
  std::function<void(ConnRec *)> on_connect, on_accept;   // on_accept: by a program under test
  std::function<void(End *, size_t)> on_recv;             // bytes handed to a program under test
  std::function<void(End *, size_t)> on_sent;
  std::function<void(Inode *, const char *, size_t)> on_file_write;
  std::function<void(Inode *)> on_file_open_w;
  std::function<void(Inode *)> on_file_close_w;
  std::function<void()> on_poll;                          // before a poll that may wait
  std::function<void()> on_sig;                           // sig_at_syscall fires
  bool fsync_seen = false; u64 disk_errors = 0, stdout_errors = 0, stdout_err_at = 0;
  std::function<void(const string &)> on_unlink; std::function<void(Inode *, size_t)> on_read_err; std::function<void(const char *)> on_open_err;
 
  u64 kill_at_syscall = 0, kill_at_write = 0; u64 sig_at_syscall = 0; int sig_no = 0; Proc *kill_proc = nullptr; // kill this process at its n-th system call / inside its n-th file write
};
extern Kernel K;
Proc *proc_new(const char *name);
void proc_set_stdin(Proc *p, Inode *n);
Inode *inode_get(const string &path, bool create);
void inode_put(const string &path, const string &data);
Listener *listen_on(const string &key, bool tcp);
void unlisten(Listener *);
ConnRec *peer_accept(Listener *, u64 deadline);        // null on timeout / closed listener
ConnRec *peer_connect(const string &key, u64 deadline);// null on failure
size_t peer_read(End *, void *, size_t, u64 deadline, bool *timedout = nullptr); // 0: eof/rst/timeout
bool peer_write(End *, const void *, size_t, u64 deadline = NEVER);  // false if broken
size_t peer_write_partial(End *e, const string &d, u64 deadline);
void peer_close(End *, bool rst = false);
void end_shut_wr(End *);
void sim_kill(Proc *, int sig);
void raise_sigpipe(const char *tags); // what a write to a broken pipe or socket does to the calling thread
void proc_kill9(Proc *);
void proc_crash_all_files(Proc *);
int proc_open_fds(Proc *); int fd_alloc_host(FileP *out, string *sink); void proc_exec_check(Proc *);
int proc_open_files(Proc *);
// run a program's main() as a process
typedef int (*main_fn)(int, char **);
int proc_run(Proc *, main_fn, const vector<string> &args, size_t stack_kb = 1024); // returns fiber id
void proc_wait(Proc *, u64 deadline);
extern int g_force_tcp_portless;

struct SimFileRec; 
void stdio_init(Proc *);          // (re)binds stdin/stdout/stderr of programs to this proc
void stdio_proc_exit(Proc *, bool flush);

// ---------------------------------------------------------------- scenarios
struct Scenario { const char *name; void (*fn)(); };
extern const Scenario g_scenarios[];
extern const int g_nscenarios;
void set_start_time(u64 mono); void set_real_time(i64 real); u64 start_ns();
