// Concurrent callers of fstrm_iothr_get_input_queue / _idx. Property C14.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <set>
namespace {
struct G { u32 nq, nthr, calls; bool mpsc; struct fstrm_iothr *io = nullptr; MemT *mem; vector<struct fstrm_iothr_queue *> got; size_t nulls = 0, total = 0; std::map<size_t, struct fstrm_iothr_queue *> by_idx; u64 mark; vector<string> sub; };
}
static G *X;
static void idx_call(size_t i) {
  struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue_idx(X->io, i); EV(310, i, (u64)q != 0, "get_input_queue_idx(%zu) = %s", i, q ? "queue" : "NULL");
  if (i >= X->nq) { if (q) violation("C14", "idx-out-of-range", "get_input_queue_idx(%zu) returned a queue although there are only %u", i, X->nq); return; }
  if (!q) fatal_violation("C14", "idx-null", "get_input_queue_idx(%zu) returned NULL although there are %u queues", i, X->nq);
  auto it = X->by_idx.find(i); if (it == X->by_idx.end()) X->by_idx[i] = q; else if (it->second != q) violation("C14", "idx-changed", "get_input_queue_idx(%zu) returned two different queues", i);
  for (auto &p : X->by_idx) if (p.first != i && p.second == q) violation("C14", "idx-same", "indices %zu and %zu have the same queue", p.first, i);
}
static size_t bad_idx() { static const size_t b[] = {0, 1, 2, 100, (size_t)1 << 31, (size_t)UINT32_MAX, (size_t)UINT32_MAX + 1, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX, (size_t)1 << 58, (size_t)1 << 60, (size_t)1 << 61, (size_t)1 << 63}; return b[choose(ST_OPS, sizeof b / sizeof *b)]; }
static void submit(struct fstrm_iothr_queue *q) {
  string s = pattern(X->sub.size(), 20); void *b = simbuf(s); size_t my = X->sub.size(); X->sub.push_back(s); (void)my;
  fstrm_res r = fstrm_iothr_submit(X->io, q, b, s.size(), fstrm_free_wrapper, nullptr);
  if (r != fstrm_res_success) violation("C14", "queue-unusable", "submit to a fresh queue returned %d", r);
}
static void body(Proc *) {
  G *x = X; x->mark = heap_mark();
  auto *o = fstrm_iothr_options_init(); if (x->nq != 1 || choose(ST_CFG, 2)) fstrm_iothr_options_set_num_input_queues(o, x->nq); if (x->mpsc) fstrm_iothr_options_set_queue_model(o, FSTRM_IOTHR_QUEUE_MODEL_MPSC);
  struct fstrm_rdwr *r = mem_rdwr(x->mem); struct fstrm_writer *w = fstrm_writer_init(nullptr, &r);
  x->io = fstrm_iothr_init(o, &w); fstrm_iothr_options_destroy(&o); if (!x->io) violation("*", "init-failed", "iothr init failed");
  vector<int> th;
  for (u32 t = 0; t < x->nthr; t++) th.push_back(app_thread("caller", [x, t] {
    int st = ST_OPS + 1 + t; u32 n = 1 + choose(st, x->calls);
    for (u32 i = 0; i < n; i++) {
      if (choose(st, 4) == 3) { idx_call(choose(st, x->nq + 2)); continue; }
      struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(x->io); x->total++; EV(311, (u64)q != 0, t, "get_input_queue = %s", q ? "queue" : "NULL");
      if (!q) x->nulls++; else { x->got.push_back(q); if (choose(st, 2)) submit(q); }
      if (choose(st, 8) == 7) sim_sleep(choose(st, 1000) * MS);
    }
  }));
  for (int t : th) fiber_join(t);
  for (u32 i = choose(ST_OPS, 3); i; i--) { struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(x->io); x->total++; if (q) x->got.push_back(q); else x->nulls++; }
  std::set<struct fstrm_iothr_queue *> s(x->got.begin(), x->got.end());
  if (s.size() != x->got.size()) violation("C14", "queue-handed-out-twice", "%zu calls returned a queue, but only %zu different ones", x->got.size(), s.size());
  size_t want = std::min<size_t>(x->nq, x->total);
  if (x->got.size() != want) violation("C14", "wrong-number-of-queues", "%zu of %zu calls returned a queue; there are %u queues", x->got.size(), x->total, x->nq);
  for (u32 i = 0; i < x->nq; i++) idx_call(i);
  for (int i = 0; i < 3; i++) { size_t b = bad_idx(); idx_call(b < 4 ? x->nq + b : b); }
  std::set<struct fstrm_iothr_queue *> si; for (auto &p : x->by_idx) si.insert(p.second);
  for (auto q : s) if (!si.count(q)) violation("C14", "not-a-queue", "get_input_queue returned something that no index yields");
  for (auto &p : x->by_idx) submit(p.second);
  fstrm_iothr_destroy(&x->io);
  if (x->mem->s.size() != 1) fatal_violation("C14,C02", "no-output", "no output session");
  WStream ws = w_writer_stream(x->mem->s[0]->out, x->mem->bidir); std::multiset<string> a(ws.frames.begin(), ws.frames.end()), b(x->sub.begin(), x->sub.end());
  if (a != b) violation("C14,C02", "queue-not-served", "%zu frames submitted to the queues, %zu written", b.size(), a.size());
  size_t n; string lk = heap_leaks_since(x->mark, &n); if (n) violation("C06", "leak", "%zu heap blocks still allocated after destroy:%s", n, lk.c_str());
  if (x->total > x->nq) probe("more calls than queues"); else probe("fewer calls than queues");
}
void scen_getq() {
  G *x = X = new G; int st = ST_CFG; draw_sched_cfg();
  x->mem = new MemT; x->mem->bidir = choose(st, 2); x->nq = oneof(st, (const u32[]){1, 2, 3, 4, 7, 16, 33}); if (choose(st, 16) == 15) x->nq = oneof(st, (const u32[]){64, 128, 256, 257, 300}); x->nthr = 1 + choose(st, 8); x->calls = 1 + choose(st, 2 * x->nq / x->nthr + 4); x->mpsc = choose(st, 2);
  run_app("app", body);
}
