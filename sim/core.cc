#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <algorithm>
#include <queue>

Slot *g_slot; Stats *g_stats; u64 *g_ih; u32 g_ihmax; string g_prop; bool g_trace; FILE *g_trace_f;
SimCfg C; bool g_sig_pending, g_in_sim;

string vfmt(const char *fmt, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, fmt, ap); return b; }
string strf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); string s = vfmt(fmt, ap); va_end(ap); return s; }

// ------------------------------------------------------------------ rng + tapes
static inline u64 splitmix(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static u64 rngs[NSTREAMS]; static vector<u32> rec[NSTREAMS]; static const Tapes *replay; static u32 rpos[NSTREAMS]; static u32 rec_total;
bool tape_replaying() { return replay != nullptr; }
[[noreturn]] static void harness_error(const char *what);
u64 rng_raw(int s) { if ((unsigned)s >= NSTREAMS) harness_error("no such stream of choices"); return splitmix(rngs[s]); }
u32 choose_with(int s, u32 fresh, u32 limit) {
  u32 v; if ((unsigned)s >= NSTREAMS) harness_error("no such stream of choices");
  if (replay) { v = rpos[s] < replay->t[s].size() ? replay->t[s][rpos[s]] : 0; rpos[s]++; if (v >= limit) v = limit - 1; }
  else v = fresh;
  if (rec_total < TAPE_MAX) { rec[s].push_back(v); rec_total++; } else g_slot->tape_overflow = 1;
  return v;
}
u32 choose(int s, u32 n) {
  if (n <= 1) return 0;
  return choose_with(s, replay ? 0 : (u32)(rng_raw(s) % n), n);
}
bool chance(int s, u32 num, u32 den) {
  if (!num) return false;
  return choose_with(s, replay ? 0 : (u32)(rng_raw(s) % den < num), 2);
}
u32 skewed(int s, u32 maxv) {
  if (!maxv) return 0;
  u32 fresh = 0;
  if (!replay) { u64 r = rng_raw(s); int bits = 32 - __builtin_clz(maxv); int b = (int)(r % (bits + 1)); r >>= 16; fresh = b == 0 ? 0 : (u32)(((1ull << (b - 1)) + r % (1ull << (b - 1)))); if (fresh > maxv) fresh = maxv; }
  return choose_with(s, fresh, maxv + 1);
}

// ------------------------------------------------------------------ counters
static u64 cur_run_no;
static Counter *counter(const char *name, int kind) {
  u32 h = (u32)(((u64)name >> 2) * 2654435761u) % NCOUNTER;
  for (int i = 0; i < NCOUNTER; i++) { Counter *c = &g_stats->c[(h + i) % NCOUNTER]; if (c->name == name) return c; if (!c->name) { c->name = name; c->kind = kind; return c; } }
  return &g_stats->c[0];
}
static void bump(const char *name, int kind, u64 n) { Counter *c = counter(name, kind); c->n += n; if (c->lastrun != cur_run_no) { c->lastrun = cur_run_no; c->runs++; } }
void fault_fired(const char *name) { bump(name, 1, 1); hash_event(77, strlen(name)); if (g_trace) ev("FAULT %s", name); }
void probe(const char *name) { bump(name, 2, 1); }
void probe_n(const char *name, u64 n) { bump(name, 2, n); }
bool fault(u32 pm, const char *name) {
  if (!C.faults_on || !pm) return false;
  if (!chance(ST_FAULT, pm, 1000)) return false;
  fault_fired(name); return true;
}
const char *cur_property() { return g_prop.c_str(); }
bool prop_is(const char *id) { return g_prop == id; }

// ------------------------------------------------------------------ fibers
enum FState { F_RUN, F_BLOCKED, F_DONE, F_KILLED };
struct Fiber {
  int id; string name; void *sp = nullptr; u8 *stk; size_t stksz; std::function<void()> fn; Proc *proc; FState st = F_RUN;
  u64 epoch = 0; WaitQ *q = nullptr; WakeReason reason = WK_WOKEN; bool intr = false; int saved_errno = 0; u32 prio = 0; u64 sigmask = 0;
  int transport = 0; u64 blocked_ns = 0; u64 block_start = 0, block_seq = 0, woke_seq = 0; const char *why = ""; WaitQ joinq;
};
static vector<Fiber *> F; static Fiber *cur; static void *host_sp;
static u64 g_now, g_start, g_seq, g_steps, g_switches, g_hash, g_ihash, g_timerseq; static i64 g_real_off;
static i64 gap_left, sync_left;
static u8 *stack_area; static const size_t STACK_SLOT = 2u << 20; static const int MAXF = 512; static u8 *const STACK_BASE = (u8 *)0x210000000000ull;

struct Timer { u64 t, seq; int fid; u64 epoch; std::function<void()> *fn; };
struct TCmp { bool operator()(const Timer &a, const Timer &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Timer, vector<Timer>, TCmp> timers;

u64 now_ns() { return g_now; }
vector<std::pair<int, i64>> rt_waits; // fibers that wait for an instant of the real-time clock
i64 real_ns() { return (i64)g_now + g_real_off; }
void real_jump(i64 d) {
  g_real_off += d; EV(60, d, 0, "realtime clock jumps by %+.3f s", d / 1e9);
  for (auto &w : rt_waits) fiber_retime(w.first, w.second - g_real_off > 0 ? (u64)(w.second - g_real_off) : 0);
}
u64 gseq() { return ++g_seq; }
int fiber_self() { return cur ? cur->id : -1; }
const char *fiber_name(int id) { return id >= 0 && id < (int)F.size() ? F[id]->name.c_str() : "host"; }
int fiber_find(const char *n, int after) { for (int i = after + 1; i < (int)F.size(); i++) if (F[i]->name == n) return i; return -1; }
bool fiber_done(int id) { return F[id]->st == F_DONE || F[id]->st == F_KILLED; }
bool fiber_runnable(int id) { return F[id]->st == F_RUN; }
Proc *cur_proc() { return cur ? cur->proc : nullptr; }
void cur_fiber_set_proc(Proc *p) { cur->proc = p; }
u64 &fiber_sigmask(int id) { return F[id]->sigmask; }
bool is_fiber_stack(u64 a) { return a - (u64)STACK_BASE < (u64)MAXF * STACK_SLOT; }
void fiber_mark_transport(bool on) { if (cur) cur->transport += on ? 1 : -1; }
u64 fiber_blocked_ns(int id) { Fiber *f = F[id]; u64 r = f->blocked_ns; if (f->st == F_BLOCKED && f->transport > 0) r += g_now - f->block_start; return r; }

u64 fiber_woke(int id) { return F[id]->woke_seq; }
u64 fiber_blocked_since(int id, const char *why) { Fiber *f = F[id]; return f->st == F_BLOCKED && !strcmp(f->why, why) ? f->block_seq + 1 : 0; }
void hash_event(u64 a, u64 b, u64 c) {
  u64 h = g_hash; h ^= a + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= b; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; h ^= c; h *= 0x9fb21c651e98df25ull; h ^= h >> 32; g_hash = h;
}
void ev(const char *fmt, ...) {
  if (!g_trace || !g_trace_f) return;
  va_list ap; va_start(ap, fmt); string s = vfmt(fmt, ap); va_end(ap);
  fprintf(g_trace_f, "# %12.6f #%llu [%s] %s\n", (g_now - g_start) / 1e9, (unsigned long long)g_seq, cur ? cur->name.c_str() : "sim", s.c_str());
}

extern "C" void sim_switch_asm(void **save, void *to);
asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_asm,.-sim_switch_asm
)");

static void do_switch(Fiber *to) {
  Fiber *from = cur;
  if (to == from) return;
  if (from) from->saved_errno = errno;
  g_switches++;
  g_ihash = (g_ihash ^ (u64)(to->id + 1)) * 0x100000001b3ull + g_steps % 1024;
  hash_event(1, to->id, g_steps);
  if (g_trace) ev("-> switch to %s", to->name.c_str());
  cur = to;
  sim_switch_asm(from ? &from->sp : &host_sp, to->sp);
  errno = cur->saved_errno;
}
static void schedule(bool voluntary);
static void fiber_main() { cur->fn(); fiber_end(); }
void fiber_end() {
  cur->st = F_DONE;
  hash_event(2, cur->id);
  if (g_trace) ev("fiber ends");
  wake_all(cur->joinq);
  if (cur->id == 0) { void *dummy; cur = nullptr; sim_switch_asm(&dummy, host_sp); }
  schedule(false);
  abort();
}
int fiber_spawn(const char *name, std::function<void()> fn, Proc *proc, size_t) {
  if ((int)F.size() >= MAXF) discard_run("too many fibers");
  Fiber *f = new Fiber; f->id = F.size(); f->name = name; f->fn = std::move(fn); f->proc = proc;
  f->stk = STACK_BASE + (size_t)f->id * STACK_SLOT; f->stksz = STACK_SLOT;
  memset(f->stk + STACK_SLOT - 32768, 0x6b, 32768);
  if (cur) f->sigmask = cur->sigmask;
  f->prio = C.sched_mode == 1 ? choose(ST_SCHED, 1000) + 1000 : 0;
  u64 *sp = (u64 *)(f->stk + STACK_SLOT - 64);
  *--sp = 0; *--sp = (u64)fiber_main;        // return address; keep 16-byte alignment at entry
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  F.push_back(f);
  hash_event(3, f->id);
  if (g_trace) ev("spawn fiber %s", name);
  return f->id;
}
static u32 draw_gap(u32 mean) {
  u32 fresh = 0;
  if (!replay) { double u = (rng_raw(ST_SCHED) >> 11) * (1.0 / 9007199254740992.0); fresh = 1 + (u32)(-log(1 - u) * mean); if (fresh >= (1u << 20)) fresh = (1u << 20) - 1; }
  return choose_with(ST_SCHED, fresh, 1u << 20);
}
static void reset_gap() {
  if (!C.gap_mean) { gap_left = -1; return; }
  u32 g = draw_gap(C.gap_mean); gap_left = g ? (i64)g : -1;
}
static void reset_sync() {
  if (!C.sync_pct) { sync_left = -1; return; }
  u32 g = draw_gap(100 / C.sync_pct); sync_left = g ? (i64)g : -1;
}
static int pct_budget;
// A run is taken to hang when it makes step_budget steps in which less than 10 simulated seconds pass. A thread that polls makes many
// steps too, but time passes: such a run is given up after three times as many, unless what it is busy with should have ended.
static u64 hang_at, hang_now;
u64 g_must_end = NEVER;
static void hang() {
  if ((i64)(g_now - hang_now) >= (i64)(10 * NS)) {
    hang_now = g_now; hang_at = g_steps + C.step_budget;
    if (g_steps < 3 * C.step_budget) return;
    if (g_now < g_must_end) discard_run("too many steps");
  }
  string s; for (auto f : F) if (f->st == F_RUN || f->st == F_BLOCKED) s += strf(" %s:%s", f->name.c_str(), f->st == F_RUN ? "running" : f->why);
  fatal_violation("*", "hang", "no end after %llu steps;%s", (unsigned long long)g_steps, s.c_str());
}
static void schedule(bool voluntary) {
  for (;;) {
    int cand[MAXF]; int n = 0; int nf = F.size(); int base = cur ? cur->id : 0;
    for (int i = 1; i <= nf; i++) { Fiber *f = F[(base + i) % nf]; if (f->st == F_RUN && !(voluntary && f == cur)) cand[n++] = f->id; }
    if (n == 0 && voluntary) return;
    if (n) {
      int pick;
      if (C.sched_mode == 1) {
        pick = cand[0]; for (int i = 1; i < n; i++) if (F[cand[i]]->prio > F[pick]->prio) pick = cand[i];
        if (voluntary && cur->prio >= F[pick]->prio) return;
      } else pick = cand[n > 1 ? choose(ST_SCHED, n) : 0];
      do_switch(F[pick]);
      return;
    }
    // nothing runnable: advance time
    if (timers.empty()) {
      string s; for (auto f : F) if (f->st == F_BLOCKED) s += strf(" %s(%s)", f->name.c_str(), f->why);
      fatal_violation("*", "deadlock", "no runnable thread and no timer pending; blocked:%s", s.c_str());
    }
    Timer t = timers.top(); timers.pop();
    if (t.fid >= 0 && (F[t.fid]->st != F_BLOCKED || F[t.fid]->epoch != t.epoch)) continue;
    if (t.t > g_now) g_now = t.t;
    if (g_now - g_start > C.time_budget) {
      string s; for (auto f : F) if (f->st == F_BLOCKED) s += strf(" %s(%s)", f->name.c_str(), f->why);
      fatal_violation("*", "time-hang", "still not finished after %.0f simulated seconds;%s", (g_now - g_start) / 1e9, s.c_str());
    }
    if (++g_steps > hang_at) hang();
    if (t.fid >= 0) { Fiber *f = F[t.fid]; f->reason = WK_TIMEOUT; f->st = F_RUN; if (f->q) { auto &w = f->q->w; w.erase(std::remove(w.begin(), w.end(), f->id), w.end()); f->q = nullptr; } }
    else { (*t.fn)(); delete t.fn; }
  }
}
static void preempt() { schedule(true); }
void mem_point() {
  if (!cur) return;
  if (++g_steps > hang_at) hang();
  if (__builtin_expect(g_sig_pending, 0)) sig_deliver_check();
  if (gap_left > 0 && --gap_left == 0) {
    if (C.sched_mode == 1) { if (pct_budget > 0) { pct_budget--; cur->prio = pct_budget; } }
    reset_gap();
    preempt();
  }
}
void yield_point() {
  if (!cur) return;
  mem_point();
  if (sync_left > 0 && --sync_left == 0) {
    if (C.sched_mode == 1 && pct_budget > 0) { pct_budget--; cur->prio = pct_budget; }
    reset_sync(); preempt();
  }
}
WakeReason fiber_block(WaitQ &q, u64 deadline, bool intr, const char *why) {
  Fiber *f = cur;
  if (!f) harness_bug("block outside a fiber (%s)", why);
  f->st = F_BLOCKED; f->q = &q; f->intr = intr; f->why = why; f->epoch++; f->block_start = g_now; f->block_seq = g_seq; f->reason = WK_WOKEN;
  q.w.push_back(f->id);
  if (deadline != NEVER) {
    u64 late = C.timer_late_us && C.faults_on ? (u64)choose(ST_ENV, C.timer_late_us + 1) * US : 0;
    timers.push(Timer{std::max(deadline, g_now) + late, ++g_timerseq, f->id, f->epoch, nullptr});
  }
  schedule(false);
  if (f->transport > 0) f->blocked_ns += g_now - f->block_start;
  if (!strcmp(f->why, "condition variable")) f->woke_seq = g_seq;
  f->why = "";
  return f->reason;
}
void fiber_retime(int id, u64 t) { Fiber *f = F[id]; if (f->st == F_BLOCKED) timers.push(Timer{std::max(t, g_now), ++g_timerseq, f->id, f->epoch, nullptr}); }
static void make_runnable(int id, WakeReason r) { Fiber *f = F[id]; if (f->st != F_BLOCKED) return; f->st = F_RUN; f->reason = r; f->q = nullptr; }
void wake_all(WaitQ &q) { vector<int> w; w.swap(q.w); for (int id : w) make_runnable(id, WK_WOKEN); }
void wake_one(WaitQ &q) {
  if (q.w.empty()) return;
  int i = q.w.size() > 1 ? choose(ST_SCHED, q.w.size()) : 0; int id = q.w[i]; q.w.erase(q.w.begin() + i); make_runnable(id, WK_WOKEN);
}
void fiber_interrupt(int id) {
  Fiber *f = F[id];
  if (f->st == F_BLOCKED && f->intr) { if (f->q) { auto &w = f->q->w; w.erase(std::remove(w.begin(), w.end(), id), w.end()); } make_runnable(id, WK_INTR); }
}
void fiber_join(int id) { while (!fiber_done(id)) fiber_block(F[id]->joinq, NEVER, false, "join"); }
void fiber_kill(int id) {
  Fiber *f = F[id];
  if (f->st == F_BLOCKED && f->q) { auto &w = f->q->w; w.erase(std::remove(w.begin(), w.end(), id), w.end()); }
  f->st = F_KILLED; f->q = nullptr; wake_all(f->joinq);
  if (f == cur) { schedule(false); abort(); }
}
void fiber_kill_proc(Proc *p) {
  bool self = false;
  for (auto f : F) if (f->proc == p && f->st != F_DONE && f->st != F_KILLED) { if (f == cur) self = true; else fiber_kill(f->id); }
  if (self) fiber_kill(cur->id);
}
void sim_sleep(u64 ns) { WaitQ q; fiber_block(q, g_now + ns, false, "sleep"); }
void at_time(u64 t, std::function<void()> fn) { timers.push(Timer{std::max(t, g_now), ++g_timerseq, -1, 0, new std::function<void()>(std::move(fn))}); }
void stall_point() {
  if (!cur || !C.p_stall) return;
  if (fault(C.p_stall, "thread stalled")) { TransportScope ts; sim_sleep(1 + (u64)choose(ST_FAULT, 1000) * C.stall_max_ns / 1000); }
}
void draw_sched_cfg() {
  u32 m = choose(ST_CFG, 10);
  static const u32 gaps[] = {0, 2, 4, 8, 15, 30, 60, 150, 500, 2000};
  if (m < 7) { C.sched_mode = 0; C.gap_mean = oneof(ST_CFG, gaps); C.sync_pct = choose(ST_CFG, 4) * 10; }
  else if (m < 9) { C.sched_mode = 1; static const u32 ks[] = {20, 100, 400, 1500, 5000}; C.gap_mean = oneof(ST_CFG, ks); pct_budget = 1 + choose(ST_CFG, 4); C.sync_pct = choose(ST_CFG, 3) * 5; }
  else { C.sched_mode = 2; C.gap_mean = 0; C.sync_pct = 20 + 20 * choose(ST_CFG, 4); }
  reset_gap(); reset_sync();
}

// ------------------------------------------------------------------ ending a run
static void finish_slot(Outcome o) {
  g_slot->hash = g_hash; g_slot->ihash = g_ihash; g_slot->steps = g_steps; g_slot->sim_ns = g_now - g_start; g_slot->switches = g_switches;
  u32 off = 0;
  for (int s = 0; s < NSTREAMS; s++) { g_slot->tape_len[s] = rec[s].size(); if (!rec[s].empty()) memcpy(&g_slot->tape[off], rec[s].data(), rec[s].size() * 4); off += rec[s].size(); }
  g_slot->tape_total = off;
  g_stats->steps += g_steps; g_stats->switches += g_switches; g_stats->sim_ns += g_now - g_start; g_stats->syscalls += K.n_syscalls;
  if (g_trace_f) fflush(g_trace_f);
  g_slot->outcome = o;
  _exit(0);
}
static bool tag_match(const char *tags) {
  if (tags[0] == '*' || g_prop.empty()) return true;
  string t = string(",") + tags + ","; return t.find("," + g_prop + ",") != string::npos;
}
// A violation of another property than the one being checked does not end the
// run: the run goes on, so that it cannot hide a violation of this property.
// What is not attributed to a property ("*": crash, hang, memory error) counts
// only as long as nothing else has been violated before.
static bool g_foreign;
static void record(const char *tags, const char *cls, const string &m) {
  snprintf(g_slot->cls, sizeof g_slot->cls, "%s", cls); snprintf(g_slot->msg, sizeof g_slot->msg, "%s", m.c_str()); snprintf(g_slot->tags, sizeof g_slot->tags, "%s", tags);
}
static void violated(const char *tags, const char *cls, const string &m, bool fatal) {
  hash_event(99, strlen(cls));
  if (g_trace) ev("VIOLATED %s [%s]: %s", cls, tags, m.c_str());
  if (tag_match(tags) && !(tags[0] == '*' && g_foreign)) { record(tags, cls, m); finish_slot(OUT_VIOLATION); }
  if (!g_foreign) { g_foreign = true; record(tags, cls, m); }
  if (fatal || tags[0] == '*') finish_slot(OUT_FOREIGN);
}
void violation(const char *tags, const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); string m = vfmt(fmt, ap); va_end(ap);
  violated(tags, cls, m, false);
}
void fatal_violation(const char *tags, const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); string m = vfmt(fmt, ap); va_end(ap);
  violated(tags, cls, m, true); abort();
}
static void harness_error(const char *what) { snprintf(g_slot->msg, sizeof g_slot->msg, "%s", what); finish_slot(OUT_HARNESS); abort(); }
void discard_run(const char *why) { if (g_foreign) finish_slot(OUT_FOREIGN); snprintf(g_slot->msg, sizeof g_slot->msg, "%s", why); finish_slot(OUT_DISCARD); abort(); }
void harness_bug(const char *fmt, ...) {
  if (g_foreign) finish_slot(OUT_FOREIGN);
  va_list ap; va_start(ap, fmt); string m = vfmt(fmt, ap); va_end(ap);
  snprintf(g_slot->msg, sizeof g_slot->msg, "%s", m.c_str()); finish_slot(OUT_HARNESS); abort();
}
static void on_crash(int sig, siginfo_t *si, void *) {
  u64 a = (u64)si->si_addr;
  if (sig == SIGPROF) fatal_violation("*", "cpu-hang", "no progress: 30 s of CPU time in one run (endless loop)");
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "SIGILL";
  fatal_violation("*", "crash", "%s in %s at address %s", n, cur ? cur->name.c_str() : "simulator", a < 65536 ? "near NULL" : is_fiber_stack(a) ? "on a stack (overflow)" : "unmapped");
}
void core_global_init() {
  void *p = mmap(STACK_BASE, (size_t)MAXF * STACK_SLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("mmap stacks"); _exit(3); }
  for (int i = 0; i < MAXF; i++) mprotect(STACK_BASE + (size_t)i * STACK_SLOT, 4096, PROT_NONE);
  heap_global_init();
}
void run_child(const Scenario *sc, u64 seed, const Tapes *rp, bool) {
  static u8 altstk[65536]; stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  itimerval it{}; it.it_value.tv_sec = 30; setitimer(ITIMER_PROF, &it, nullptr);
  u64 x = seed; for (int s = 0; s < NSTREAMS; s++) { u64 y = splitmix(x) ^ (u64)s * 0xd1342543de82ef95ull; rngs[s] = y; rec[s].reserve(256); }
  replay = rp; C = SimCfg(); cur_run_no = g_stats->runs + 1;
  g_hash = 0x1234567; g_ihash = 0xcbf29ce484222325ull; gap_left = sync_left = -1;
  rt_waits.clear(); g_now = g_start = hang_now = 1000 * NS; hang_at = C.step_budget; g_real_off = 1700000000ll * (i64)NS;
  kernel_reset(); heap_run_init(seed);
  memset((void *)g_slot, 0, offsetof(Slot, tape));
  g_in_sim = true;
  auto fn = sc->fn;
  fiber_spawn("main", [fn] { fn(); }, nullptr);
  Fiber *m = F[0]; cur = nullptr; 
  cur = m; sim_switch_asm(&host_sp, m->sp);
  g_in_sim = false;
  finish_slot(g_foreign ? OUT_FOREIGN : OUT_OK);
  abort();
}
// scenarios may move the start of monotonic time (early boot)
void set_start_time(u64 mono) { g_now = g_start = mono; }
void set_real_time(i64 real) { g_real_off = real - (i64)g_now; }
u64 start_ns() { return g_start; }
