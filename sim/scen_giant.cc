// Frames of up to 4 GB through the I/O thread and the writer: the lengths alone count, the payload is an
// unbacked read-only mapping and the transport is one that only counts. Also runs of more frames than 16 bits
// can count. Properties C25, C01, C02, C03, C08.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <sys/mman.h>
namespace {
struct GF { u64 len; bool accepted = false; int frees = 0; u64 s_ret = 0; };
struct GC { bool lots = false; u32 oqsz, hint, iqsz, flush, model; u8 *big; vector<GF *> fr; struct fstrm_iothr *io = nullptr; int iofib = -1; u64 mark = 0;
  string head; u64 left = 0; bool ctl = false, stop = false, started = false, fail = false; size_t n_ctl = 0; vector<u64> got; u32 nwrites = 0; bool open = false; int destroyed = 0; };
}
static GC *X;
static const u64 FOUR = 1ull << 32;
static void take(const u8 *p, u64 n) { // one piece of the stream; payload bytes of big frames are never looked at
  GC *x = X;
  while (n) {
    if (x->left) { u64 k = std::min(n, x->left); x->left -= k; p += k; n -= k; continue; }
    x->head.push_back((char)*p++); n--;
    if (x->head.size() == 4) { u32 l = rd32(x->head, 0); if (l) { if (x->stop || !x->started) violation("C08", "data-out-of-place", "a data frame of %u bytes outside START and STOP", l); x->got.push_back(l); x->left = l; x->head.clear(); } }
    else if (x->head.size() == 8 && (rd32(x->head, 4) < 4 || rd32(x->head, 4) > 512)) fatal_violation("C08", "malformed-stream", "control frame of length %u", rd32(x->head, 4));
    else if (x->head.size() >= 12 && x->head.size() == 8 + rd32(x->head, 4)) { u32 t = rd32(x->head, 8); if (t == CT_START && !x->started) x->started = true; else if (t == CT_STOP && x->started && !x->stop) x->stop = true; else violation("C08", "malformed-stream", "control frame of type %u out of place", t); x->head.clear(); }
  }
}
static fstrm_res op_open(void *) { X->open = true; return fstrm_res_success; }
static fstrm_res op_close(void *) { X->open = false; return fstrm_res_success; }
static fstrm_res op_destroy(void *) { X->destroyed++; return fstrm_res_success; }
static fstrm_res op_write(void *, const struct iovec *iov, int n) {
  GC *x = X; x->nwrites++; yield_point(); size_t from = x->got.size();
  for (int i = 0; i < n; i++) { EV(400, iov[i].iov_len, i, "write of a piece of %zu bytes", iov[i].iov_len); take((const u8 *)iov[i].iov_base, iov[i].iov_len); }
  size_t k = x->got.size() - from; u64 s = 0; for (size_t i = from; i + 1 < x->got.size(); i++) s += 4 + x->got[i];
  if (x->model != 2 && k > x->oqsz) violation("C25", "batch-too-long", "%zu frames were handed to the transport in one write; output_queue_size is %u", k, x->oqsz);
  if (x->model != 2 && k && s >= x->hint) violation("C25", "batch-too-big", "a write went on after %llu bytes; buffer_hint is %u", (unsigned long long)s, x->hint);
  if (choose(ST_NET, 4) == 3) { TransportScope ts; sim_sleep((u64)choose(ST_NET, 1000) * MS); }
  return fstrm_res_success;
}
static void on_free(void *data, void *fd) { GF *f = (GF *)fd; if (data != X->big) violation("C03", "free-wrong-data", "free callback with another data pointer"); if (f->frees++) violation("C03", "freed-twice", "free callback ran twice"); }
static void asleep() { // what the thread had certainly taken over when it went to sleep
  GC *x = X; u64 w = fiber_blocked_since(x->iofib, "condition variable") ? fiber_woke(x->iofib) : 0; if (!w) return;
  vector<u64> t; for (GF *f : x->fr) if (f->accepted && !f->frees && f->s_ret < w) t.push_back(4 + f->len);
  u64 s = 0; for (size_t i = 0; i + 1 < t.size(); i++) s += t[i];
  if (t.size() > 1 && s >= x->hint) violation("C25", "not-flushed-at-hint", "the I/O thread sleeps on %zu frames it has taken, %llu bytes before the last; buffer_hint is %u", t.size(), (unsigned long long)s, x->hint);
}
static void body(Proc *) {
  GC *x = X; x->mark = heap_mark(); int st = ST_OPS;
  struct fstrm_rdwr *r = fstrm_rdwr_init(nullptr); fstrm_rdwr_set_open(r, op_open); fstrm_rdwr_set_close(r, op_close); fstrm_rdwr_set_write(r, op_write); fstrm_rdwr_set_destroy(r, op_destroy);
  struct fstrm_writer *w = fstrm_writer_init(nullptr, &r); u32 nf = x->lots ? oneof(st, (const u32[]){66000, 65537, 70000, 131100, 33000}) : 1 + skewed(st, 40); if (x->lots) probe("tens of thousands of frames");
  auto len = [&]() -> u64 { if (x->lots) return 1 + choose(st, 40); // around the limits: of 32 bits, of 31 bits, of buffer_hint, what wraps round to it; never more than a frame can have
    switch (choose(st, 8)) {
      case 0: return FOUR - 2 - choose(st, 8); case 1: return FOUR - 2 - choose(st, 2 * x->hint); case 2: return 0x7ffffff8ull + choose(st, 16); case 3: return x->hint - 1 - choose(st, 12);
      case 4: return 1 + choose(st, x->hint / 2); case 5: return (u64)(choose(st, 1 << 16) + 1) << 15; default: return 1 + choose(st, 40);
    } };
  if (x->model == 2) { // the writer by itself
    if (fstrm_writer_open(w) != fstrm_res_success) violation("C09", "open-failed", "open failed on a healthy transport");
    for (u32 i = 0; i < nf; i++) {
      u32 k = x->lots ? 1 + choose(st, 300) : 1 + (choose(st, 3) ? 0 : choose(st, 5)); vector<iovec> v; if (x->lots) i += k - 1; bool bad = false; size_t before = x->got.size(); vector<u64> want;
      for (u32 j = 0; j < k; j++) { u64 l = !x->lots && choose(st, 12) == 11 ? FOUR - 1 + choose(st, 3) : len(); bad |= l >= FOUR - 1; want.push_back(l); v.push_back({x->big, (size_t)l}); }
      fstrm_res rr = k == 1 && choose(st, 2) ? fstrm_writer_write(w, v[0].iov_base, v[0].iov_len) : fstrm_writer_writev(w, v.data(), k);
      if (bad) { // which lengths are too long is the library's business; what it sends must be true
        if (rr == fstrm_res_success) { if (x->got.size() != before + k) violation("C08,C09", "frames-missing", "a write reported success and put %zu of %u frames on the wire", x->got.size() - before, k); for (u32 j = 0; j < k && before + j < x->got.size(); j++) if (x->got[before + j] != want[j]) violation("C08,C09", "length-truncated", "a frame of %llu bytes was sent as one of %llu", (unsigned long long)want[j], (unsigned long long)x->got[before + j]); }
        probe("write of a frame that cannot be represented"); return;
      }
      if (rr != fstrm_res_success) violation("C08,C09", "write-failed", "a write of %u frames returned %d on a healthy transport", k, rr);
      if (vector<u64>(x->got.begin() + std::min(before, x->got.size()), x->got.end()) != want) violation("C08,C09", "wrong-frames", "the frames on the wire do not have the lengths written");
      if (x->left || x->head.size()) violation("C08,C09", "cut-frame", "a frame was not sent completely although the write reported success");
    }
    if (fstrm_writer_close(w) != fstrm_res_success || !x->stop) violation("C09", "close-failed", "close failed on a healthy transport, or sent no STOP");
    fstrm_writer_destroy(&w); return;
  }
  auto *o = fstrm_iothr_options_init(); fstrm_iothr_options_set_buffer_hint(o, x->hint); fstrm_iothr_options_set_output_queue_size(o, x->oqsz); fstrm_iothr_options_set_input_queue_size(o, x->iqsz); fstrm_iothr_options_set_flush_timeout(o, x->flush); if (x->model) fstrm_iothr_options_set_queue_model(o, FSTRM_IOTHR_QUEUE_MODEL_MPSC);
  x->io = fstrm_iothr_init(o, &w); fstrm_iothr_options_destroy(&o); if (!x->io) violation("*", "init-failed", "iothr init failed"); x->iofib = fiber_find("iothr");
  struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(x->io);
  for (u32 i = 0; i < nf; i++) {
    GF *f = new GF; f->len = len(); x->fr.push_back(f); fstrm_res rr;
    for (int n = 0; (rr = fstrm_iothr_submit(x->io, q, x->big, f->len, on_free, f)) == fstrm_res_again && n < 300; n++) sim_sleep(x->flush * NS / 3);
    if (rr != fstrm_res_success) violation("C04", "submit-failed", "submit of a frame of %llu bytes returned %d", (unsigned long long)f->len, rr);
    f->accepted = true; f->s_ret = gseq(); if (x->lots ? i % 300 == 299 && choose(st, 8) == 7 : choose(st, 3) == 2) sim_sleep((u64)choose(st, 1500) * MS * x->flush); if (!x->lots || i % 4000 == 0) asleep();
  }
  fstrm_iothr_destroy(&x->io); vector<u64> want; for (GF *f : x->fr) { want.push_back(f->len); if (f->frees != 1) violation("C03", "free-count", "a free callback ran %d times", f->frees); }
  if (x->got != want) { size_t i = 0; while (i < want.size() && i < x->got.size() && want[i] == x->got[i]) i++; violation("C01,C02", "wrong-frames", "%zu frames submitted, %zu written; the first difference is frame %zu: %llu bytes submitted, %llu written", want.size(), x->got.size(), i, (unsigned long long)(i < want.size() ? want[i] : 0), (unsigned long long)(i < x->got.size() ? x->got[i] : 0)); }
  if (!x->stop || x->left || x->head.size()) violation("C02,C08", "incomplete-stream", "the stream is not complete after destroy");
  if (x->destroyed != 1 || x->open) violation("C06", "not-torn-down", "transport open %d, destroyed %d times", x->open, x->destroyed);
  size_t n; string lk = heap_leaks_since(x->mark, &n); if (n) violation("C06", "leak", "%zu heap blocks still allocated after destroy:%s", n, lk.c_str());
}
void scen_giant() {
  GC *x = X = new GC; int st = ST_CFG; draw_sched_cfg();
  static u8 *big = (u8 *)mmap(nullptr, FOUR, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == MAP_FAILED) harness_bug("mmap"); x->big = big;
  x->lots = choose(st, 24) == 23; x->model = choose(st, 4); if (x->model == 3) x->model = 0;
  x->hint = oneof(st, (const u32[]){1024, 8192, 65536, 1025, 4096}); x->oqsz = oneof(st, (const u32[]){2, 3, 64, 128, 1024}); x->iqsz = oneof(st, (const u32[]){2, 4, 16, 512}); x->flush = 1 + choose(st, 3); if (x->lots) x->iqsz = oneof(st, (const u32[]){512, 1024, 16384});
  run_app("app", body);
}
