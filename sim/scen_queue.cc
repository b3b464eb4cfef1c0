// The input queues themselves (my_queue_mb, my_queue_mutex): complete concurrent
// histories checked for linearizability against a bounded FIFO queue. Property C15.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <set>
struct my_queue; 
struct my_queue_ops { struct my_queue *(*init)(unsigned, unsigned); void (*destroy)(struct my_queue **); const char *(*impl_type)(void); bool (*insert)(struct my_queue *, void *, unsigned *); bool (*remove)(struct my_queue *, void *, unsigned *); };
extern "C" const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
namespace {
struct Op { bool ins, ok; u32 item; unsigned num; bool has_num; u64 s, e; };
struct Q { bool mutex; u32 size, esz, np; const struct my_queue_ops *ops; struct my_queue *q; vector<vector<Op>> h; u32 ids = 0; bool fill = false; u32 init = 0; };
}
static Q *X;
static void elem(u32 id, u8 *b) { for (u32 i = 0; i < X->esz; i++) b[i] = i < 4 ? (u8)(id >> (8 * i)) : (u8)(id * 31 + i); }
static void producer(int t, u32 n) {
  Q *x = X; int st = ST_OPS + t; u8 *b = (u8 *)sim_malloc(x->esz); u32 id = 0; bool fresh = true;
  for (u32 i = 0; i < n; i++) {
    if (fresh) id = x->esz >= 4 ? x->ids++ : x->ids++ & 0xff; fresh = false;
    elem(id, b); unsigned sp = 777; bool want = choose(st, 4) != 3; Op o{true, false, id, 0, want, gseq(), 0};
    o.ok = x->ops->insert(x->q, b, want ? &sp : nullptr); o.e = gseq(); o.num = sp; EV(320, id, o.ok, "insert(%u) = %d", id, o.ok); x->h[t].push_back(o);
    memset(b, 0xee, x->esz); // the element was copied or not taken
    if (o.ok) fresh = true; else if (choose(st, 2)) yield_point(); else if (choose(st, 3) == 2) sim_sleep(choose(st, 1000) * US);
    if (choose(st, 6) == 5) sim_sleep(choose(st, 1000) * US);
  }
  sim_free(b);
}
static void consume(int t) {
  Q *x = X; int st = ST_OPS + t; u8 *b = (u8 *)sim_malloc(x->esz), w[64]; unsigned ct = 777; bool want = choose(st, 4) != 3; memset(b, 0xdd, x->esz);
  Op o{false, false, 0, 0, want, gseq(), 0}; o.ok = x->ops->remove(x->q, b, want ? &ct : nullptr); o.e = gseq(); o.num = ct;
  if (o.ok) {
    u32 id = 0; for (u32 i = 0; i < x->esz && i < 4; i++) id |= (u32)b[i] << (8 * i); o.item = id; elem(id, w);
    if (memcmp(w, b, x->esz) || id >= std::max<u32>(x->ids, 1)) violation("C15", "torn-item", "remove returned an element that was never inserted");
  }
  EV(321, o.item, o.ok, "remove = %d, item %u", o.ok, o.item); x->h[t].push_back(o); sim_free(b);
}
static void check() {
  Q *x = X; size_t T = x->h.size(); vector<Op> &c = x->h[T - 1]; u32 cap = x->size - 1;
  std::map<u32, u32> rank; u32 r = 0; for (auto &o : c) if (o.ok) { if (rank.count(o.item)) violation("C15", "duplicated-item", "item %u was removed twice", o.item); rank[o.item] = r++; }
  u32 ninserted = 0; for (size_t t = 0; t + 1 < T; t++) for (auto &o : x->h[t]) if (o.ok) { ninserted++; if (!rank.count(o.item)) violation("C15", "lost-item", "item %u was inserted but never removed although the queue was emptied", o.item); }
  ninserted += x->init; for (u32 i = 0; i < x->init; i++) if (!rank.count(i)) violation("C15", "lost-item", "item %u was inserted but never removed although the queue was emptied", i); else if (rank[i] != i) violation("C15", "not-linearizable", "item %u was inserted first but removed as number %u", i, rank[i]);
  if (ninserted != r) violation("C15", "invented-item", "%u items inserted, %u removed", ninserted, r);
  // search for a linearization: states are positions in the threads' histories
  vector<u32> dim; size_t total = 1; for (auto &h : x->h) { dim.push_back(h.size() + 1); total *= dim.back(); }
  if (total > 4000000) { probe("history too long for the exact check"); return; }
  vector<vector<u32>> okn(T); for (size_t t = 0; t < T; t++) { okn[t].push_back(0); for (auto &o : x->h[t]) okn[t].push_back(okn[t].back() + o.ok); } // thread T-1 removes, the others insert
  vector<bool> seen(total); vector<u32> pos(T, 0); vector<vector<u32>> stack; stack.push_back(pos); seen[0] = true; u64 best = 0; vector<u32> far(T, 0);
  auto index = [&](const vector<u32> &p) { size_t i = 0; for (size_t t = 0; t < T; t++) i = i * dim[t] + p[t]; return i; };
  while (!stack.empty()) {
    pos = stack.back(); stack.pop_back();
    bool done = true; u64 minend = ~0ull; u32 ins = 0, rem = 0; u64 sum = 0;
    for (size_t t = 0; t < T; t++) { sum += pos[t]; if (pos[t] < x->h[t].size()) { done = false; minend = std::min(minend, x->h[t][pos[t]].e); } }
    if (sum > best) { best = sum; far = pos; }
    if (done) { probe("history checked exactly"); return; }
    ins = x->init; for (size_t t = 0; t + 1 < T; t++) ins += okn[t][pos[t]]; rem = okn[T - 1][pos[T - 1]];
    u32 count = ins - rem;
    for (size_t t = 0; t < T; t++) {
      if (pos[t] >= x->h[t].size()) continue; Op &o = x->h[t][pos[t]]; if (o.s > minend) continue; // another operation ended before it began
      bool legal = o.ins ? (o.ok ? count < cap && rank[o.item] == ins : count == cap) : (o.ok ? count > 0 && rank[o.item] == rem : count == 0);
      if (!legal) continue;
      vector<u32> n = pos; n[t]++; size_t i = index(n); if (!seen[i]) { seen[i] = true; stack.push_back(n); }
    }
  }
  string d; for (size_t t = 0; t < T; t++) if (far[t] < x->h[t].size()) { Op &o = x->h[t][far[t]]; d += strf(" thread %zu: %s(%u) = %s [%llu,%llu];", t, o.ins ? "insert" : "remove", o.item, o.ok ? "true" : "false", (unsigned long long)o.s, (unsigned long long)o.e); }
  violation("C15", "not-linearizable", "no bounded FIFO queue of capacity %u has this history; stuck after %llu operations before:%s", cap, (unsigned long long)best, d.c_str());
}
static void check_numbers() { // reported space and count, up to the operations in progress
  Q *x = X; vector<Op> all; u32 cap = x->size - 1; for (auto &h : x->h) for (auto &o : h) all.push_back(o);
  for (auto &o : all) {
    if (!o.has_num) continue;
    u32 ib = 0, ie = 0, rb = 0, re = 0; // successful inserts/removes: surely before, possibly before
    for (auto &p : all) { if (!p.ok || (p.s == o.s)) continue; u32 b = p.e < o.s, m = p.s < o.e; if (p.ins) { ib += b; ie += m; } else { rb += b; re += m; } }
    u32 self = o.ok; i64 lo = (i64)x->init + ib - re, hi = (i64)x->init + ie - rb; if (self) { if (o.ins) lo++, hi++; else lo--, hi--; } // count after the operation
    lo = std::max<i64>(lo, 0); hi = std::min<i64>(hi, cap);
    i64 count = o.ins ? (i64)cap - o.num : o.num;
    if (count < lo || count > hi) violation("C15", "wrong-number", "%s(%u) = %s reported %s %u; the queue held between %lld and %lld of %u items", o.ins ? "insert" : "remove", o.item, o.ok ? "true" : "false", o.ins ? "space" : "count", o.num, (long long)lo, (long long)hi, cap);
  }
}
// One thread fills the queue to the brim, finds it full, and takes out all but x->init items.
static void prefill() {
  Q *x = X; if (!x->fill) return; u32 cap = x->size - 1; u8 *b = (u8 *)sim_malloc(x->esz), w[64]; unsigned n; probe(cap > 500 ? "big queue filled completely" : "queue filled completely");
  for (u32 i = 0; i < cap; i++) { elem(i, b); n = 777; if (!x->ops->insert(x->q, b, &n)) { violation("C15,C04", "refused-below-capacity", "insert failed with %u items in a queue for %u", i, cap); sim_free(b); return; } if (n != cap - 1 - i) violation("C15", "wrong-number", "insert of item %u reported space %u, capacity %u", i, n, cap); }
  elem(cap, b); n = 777; if (x->ops->insert(x->q, b, &n) || n) violation("C15", "overfull", "insert into a full queue of %u: succeeded or reported space %u", cap, n);
  u32 out = cap - x->init;
  for (u32 i = 0; i < out; i++) { memset(b, 0xdd, x->esz); n = 777; elem(i, w); if (!x->ops->remove(x->q, b, &n) || memcmp(b, w, x->esz)) { violation("C15", "torn-item", "removal %u from a full queue of %u items did not return item %u", i, cap, i); break; } if (n != cap - 1 - i) violation("C15", "wrong-number", "removal %u from a full queue of %u reported count %u", i, cap, n); }
  // what is left is put back under the numbers 0..init-1
  for (u32 i = 0; i < x->init; i++) { if (!x->ops->remove(x->q, b, &n)) { violation("C15", "lost-item", "the queue of %u was empty after %u removals", cap, out + i); break; } elem(i, b); if (!x->ops->insert(x->q, b, &n)) { violation("C15,C04", "refused-below-capacity", "insert failed below capacity"); break; } }
  x->ids = x->init; sim_free(b);
}
static void body(Proc *) {
  Q *x = X; u64 mark = heap_mark();
  for (u32 bad : {0u, 1u, 3u, 6u, 12u}) if (choose(ST_CFG, 8) == 7) { struct my_queue *q = x->ops->init(bad, 4); if (q) violation("C15", "bad-size-accepted", "a queue of %u elements was created", bad); }
  x->q = x->ops->init(x->size, x->esz); if (!x->q) violation("*", "init-failed", "queue init failed");
  x->h.resize(x->np + 1); u32 nops = 3 + skewed(ST_CFG, x->np == 1 ? 120 : x->np == 2 ? 40 : 14); vector<int> th; bool done = false;
  // start anywhere in the ring
  u32 warm = choose(ST_CFG, 2 * x->size); if (choose(ST_CFG, 80) == 79 && x->size <= 64) { warm += oneof(ST_CFG, (const u32[]){65536, 256, 32768, 65536}) - x->size; probe("queue used tens of thousands of times"); } { u8 *b = (u8 *)sim_malloc(x->esz), *c = (u8 *)sim_malloc(x->esz); for (u32 i = 0; i < warm; i++) { memset(b, i, x->esz); unsigned n = 0; if (!x->ops->insert(x->q, b, &n) || n != x->size - 2) violation("C15", "wrong-number", "insert into an empty queue: failed or reported space %u", n); if (!x->ops->remove(x->q, c, &n) || n != 0 || memcmp(b, c, x->esz)) violation("C15", "torn-item", "remove did not return the only element"); } sim_free(b); sim_free(c); }
  prefill();
  for (u32 t = 0; t < x->np; t++) th.push_back(app_thread("producer", [x, t, nops] { producer(t, nops); }));
  int cf = app_thread("consumer", [x, &done, nops] { int st = ST_OPS + x->np; u32 pace = choose(st, 4); while (!done && x->h[x->np].size() < (x->np == 1 ? 300u : x->np == 2 ? 120 : 60)) { consume(x->np); if (pace && choose(st, 4) < pace) sim_sleep(choose(st, 1500) * US); else yield_point(); } });
  for (int t : th) fiber_join(t); done = true; fiber_join(cf);
  for (;;) { consume(x->np); if (!x->h[x->np].back().ok) break; if (x->h[x->np].size() > 5000) fatal_violation("C15", "never-empty", "the queue never gets empty"); }
  x->ops->destroy(&x->q); if (x->q) violation("C15", "handle-not-cleared", "destroy left the pointer set");
  size_t n; string lk = heap_leaks_since(mark, &n); if (n) violation("C15", "leak", "%zu heap blocks still allocated after destroy", n);
  check_numbers(); check(); (void)lk;
  for (auto &h : x->h) for (auto &o : h) if (!o.ok) probe(o.ins ? "insert found the queue full" : "remove found the queue empty");
}
void scen_queue() {
  Q *x = X = new Q; int st = ST_CFG; draw_sched_cfg();
  x->mutex = choose(st, 2); x->ops = x->mutex ? &my_queue_mutex_ops : &my_queue_mb_ops; x->size = oneof(st, (const u32[]){2, 4, 8, 16, 64}); x->esz = oneof(st, (const u32[]){4, 8, 40, 5, 24}); x->np = x->mutex ? 1 + choose(st, 3) : 1;
  if (choose(st, 12) == 11) x->size = oneof(st, (const u32[]){256, 512, 1024, 2048, 16384});
  if (x->size > 64 ? choose(st, 4) : choose(st, 8) == 7) { x->fill = true; x->init = choose(st, 3) && x->size <= 1024 && x->np == 1 ? x->size - 1 - choose(st, std::min<u32>(x->size, 12)) : choose(st, std::min<u32>(x->size, 12)); if (x->init > x->size - 1) x->init = x->size - 1; }
  run_app("app", body);
}
