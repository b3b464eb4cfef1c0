// Internals shared by the simulator core and the driver.
#pragma once
#include "sim.h"

enum Outcome { OUT_NONE = 0, OUT_OK = 1, OUT_VIOLATION = 2, OUT_DISCARD = 3, OUT_HARNESS = 4, OUT_FOREIGN = 5 };
static const u32 TAPE_MAX = 2u << 20;
struct Slot {
  volatile int outcome; char cls[128]; char msg[2048]; char tags[128];
  u64 hash, ihash, steps, sim_ns, switches; u32 tape_len[NSTREAMS]; u32 tape_total; int tape_overflow;
  u32 tape[TAPE_MAX];
};
struct Counter { const char *name; int kind; u64 n; u64 runs; u64 lastrun; };
static const int NCOUNTER = 512;
struct Stats {
  Counter c[NCOUNTER]; u64 runs, ok, viol, discard, foreign, harness; u64 steps, switches; u64 sim_ns; u64 syscalls;
  char foreign_cls[128]; u64 foreign_seed; char foreign_scen[32]; char foreign_msg[512];
  u32 nih; u64 nontriv;
};
struct Tapes { vector<u32> t[NSTREAMS]; };
extern Slot *g_slot; extern Stats *g_stats; extern u64 *g_ih; extern u32 g_ihmax;
extern string g_prop;
extern FILE *g_trace_f;
// run one scenario in the current process (call in a forked child); never returns
[[noreturn]] void run_child(const Scenario *sc, u64 seed, const Tapes *replay, bool want_tape);
void core_global_init();          // once in the zygote: reserve arenas, stacks
void heap_global_init(); void heap_run_init(u64 seed);
bool is_fiber_stack(u64 a);
void sig_deliver_check();         // kern.cc
extern bool g_sig_pending;
extern bool g_in_sim;             // a run is in progress and we're on a fiber
string vfmt(const char *fmt, va_list ap);
string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void kernel_reset();
void cur_fiber_set_proc(Proc *);
u64 &fiber_sigmask(int id);
void fiber_interrupt(int id);     // wake an interruptibly blocked fiber
bool fiber_runnable(int id);
#define EV(k, a, b, ...) do { hash_event((u64)(k), (u64)(a), (u64)(b)); if (__builtin_expect(g_trace, 0)) ev(__VA_ARGS__); } while (0)
