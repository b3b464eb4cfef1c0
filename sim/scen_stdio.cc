// The file transport on the standard streams (path "-"): a writer on standard output and a reader on
// standard input, closed and used again. Properties C11, C12, C13.
#include "common.h"
#include "internal.h"
#include <algorithm>
string gen_stream(int st, bool bidir, const vector<string> &types, u32 maxframe, bool valid_only);
namespace { struct SD { Proc *p = nullptr; bool async, rd, types = false; string ct, model, certain; vector<string> fr; bool closed_ok = false, tried_again = false; string in; u64 mark = 0; size_t reads = 0; }; }
static SD *X;
static struct fstrm_writer *mkw() {
  auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, "-"); auto *wo = fstrm_writer_options_init(); if (!X->ct.empty()) fstrm_writer_options_add_content_type(wo, X->ct.data(), X->ct.size());
  struct fstrm_writer *w = fstrm_file_writer_init(o, wo); fstrm_file_options_destroy(&o); fstrm_writer_options_destroy(&wo); if (!w) violation("*", "init-failed", "writer init failed"); return w;
}
static void std_writer() { // one session, then attempts to use the closed stream again: whatever they return, they do no harm
  SD *x = X; int st = ST_OPS; struct fstrm_writer *w = mkw(); x->model = w_control(CT_START, x->ct.empty() ? vector<string>{} : vector<string>{x->ct}); bool failed = false; u64 e0 = K.stdout_errors;
  if (choose(st, 3) && fstrm_writer_open(w) != fstrm_res_success) failed = true;
  u32 n = skewed(st, 60), id = 0;
  for (u32 i = 0; i < n && !failed; i++) {
    u32 k = oneof(st, (const u32[]){1, 1, 1, 2, 5, 130}); vector<struct iovec> v; string b; for (u32 j = 0; j < k; j++) { string s = pattern(id++, draw_len(k > 10 ? 60 : 3000, st)); b += w_data(s); v.push_back({simbuf(s), s.size()}); }
    struct iovec *hv = (struct iovec *)sim_malloc(k * sizeof *hv); memcpy(hv, v.data(), k * sizeof *hv); x->model += b;
    fstrm_res r = k == 1 ? fstrm_writer_write(w, hv[0].iov_base, hv[0].iov_len) : fstrm_writer_writev(w, hv, k); EV(420, r, b.size(), "write of %u frames returned %d", k, r);
    for (auto &q : v) sim_free(q.iov_base); sim_free(hv);
    if (r != fstrm_res_success) { failed = true; if (K.stdout_errors == e0) violation("C12,C09", "spurious-failure", "a write to standard output failed although the stream worked"); }
  }
  bool opened = !x->p->out.empty() || n || failed; x->model += w_control(CT_STOP, {});
  fstrm_res c = fstrm_writer_close(w); EV(421, c, 0, "close returned %d", c);
  if (c == fstrm_res_success) { if (failed) violation("C12,C09", "failure-hidden", "close reported success although a write had failed"); if (K.stdout_errors != e0) violation("C12,C09", "failure-hidden", "close reported success although standard output failed"); x->closed_ok = true; if (x->p->out != x->model) violation("C12,C09", "closed-incomplete", "close reported success but standard output holds %zu of %zu bytes", x->p->out.size(), x->model.size()); }
  (void)opened; x->certain = x->p->out;
  u32 again = choose(st, 3); for (u32 i = 0; i < again; i++) { x->tried_again = true; probe("standard stream used again after close"); fstrm_res r = fstrm_writer_open(w); EV(424, r, i, "open after close returned %d", r); if (r == fstrm_res_success || choose(st, 2)) fstrm_writer_write(w, "abc", 3); if (choose(st, 2)) fstrm_writer_close(w); }
  fstrm_writer_destroy(&w);
}
static void std_iothr() {
  SD *x = X; int st = ST_OPS; auto *o = fstrm_iothr_options_init(); fstrm_iothr_options_set_flush_timeout(o, 1 + choose(st, 3)); fstrm_iothr_options_set_reopen_interval(o, 1 + choose(st, 3)); fstrm_iothr_options_set_input_queue_size(o, 512);
  struct fstrm_writer *w = mkw(); struct fstrm_iothr *io = fstrm_iothr_init(o, &w); fstrm_iothr_options_destroy(&o); if (!io) violation("*", "init-failed", "iothr init failed");
  struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io); u32 n = skewed(st, 100); x->model = w_control(CT_START, x->ct.empty() ? vector<string>{} : vector<string>{x->ct});
  for (u32 i = 0; i < n; i++) { string s = pattern(i, draw_len(1000, st)); void *b = simbuf(s); x->model += w_data(s); if (fstrm_iothr_submit(io, q, b, s.size(), fstrm_free_wrapper, nullptr) != fstrm_res_success) violation("C04", "refused", "submit to a queue with room failed"); if (choose(st, 8) == 7) sim_sleep((u64)choose(st, 3000) * MS); }
  x->model += w_control(CT_STOP, {}); fstrm_iothr_destroy(&io);
  if (!K.stdout_errors) { x->closed_ok = true; if (x->p->out != x->model) violation("C12,C02", "closed-incomplete", "standard output holds %zu of %zu bytes after destroy", x->p->out.size(), x->model.size()); } else x->tried_again = true;
}
static void std_reader() {
  SD *x = X; int st = ST_OPS; auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, "-"); struct fstrm_reader_options *ro = nullptr; if (choose(st, 2)) { ro = fstrm_reader_options_init(); if (choose(st, 2)) { fstrm_reader_options_add_content_type(ro, x->ct.data(), x->ct.size()); x->types = true; } }
  {
    struct fstrm_reader *r = fstrm_file_reader_init(o, ro); if (!r) violation("*", "init-failed", "reader init failed");
    u32 opens = 1 + choose(st, 3);
    for (u32 i = 0; i < opens; i++) {
      bool first = !i; if (!first) probe("standard stream used again after close");
      fstrm_res q = fstrm_reader_open(r); EV(422, q, i, "open returned %d", q); WStream ws = w_writer_stream(x->in, false); const uint8_t *d; size_t l, n = 0;
      bool ok = ws.start && (!x->types || ws.start_cts.empty() || ws.start_cts[0] == x->ct); if (first && (q == fstrm_res_success) != ok) violation("C11,C12", "remains-open", "opening a reader on standard input returned %d", q);
      if (q == fstrm_res_success) for (;;) {
        q = fstrm_reader_read(r, &d, &l); if (q != fstrm_res_success) break; heap_check(d, l, false, "frame returned by read");
        if (first && (n >= ws.frames.size() || string((const char *)d, l) != ws.frames[n])) fatal_violation("C11,C12", "wrong-frame", "frame %zu read from standard input is wrong", n); n++; x->reads++; }
      if (first && ok && n != ws.frames.size()) violation("C11,C12", "frame-withheld", "the reader returned %zu of the %zu complete frames on standard input", n, ws.frames.size());
      fstrm_res c = fstrm_reader_close(r); EV(423, c, i, "close returned %d", c); if (first && ok && (c == fstrm_res_success) != ws.stop) violation("C11", "stop-misreported", "close returned %d; STOP is %sin the stream", c, ws.stop ? "" : "not ");
    }
    fstrm_reader_destroy(&r);
  }
  fstrm_file_options_destroy(&o); if (ro) fstrm_reader_options_destroy(&ro);
}
static void body(Proc *p) {
  SD *x = X; x->p = p; x->mark = heap_mark(); x->rd ? std_reader() : x->async ? std_iothr() : std_writer();
  size_t n; string lk = heap_leaks_since(x->mark, &n); if (n) violation("C13", "leak", "%zu heap blocks still allocated after destroy:%s", n, lk.c_str());
  if (p->n_ebadf_close) violation("C13", "double-close", "%llu closes of unopened descriptors", (unsigned long long)p->n_ebadf_close);
  if (x->rd) { if (p->out.size()) violation("C13", "stray-output", "reading wrote to standard output"); return; }
  size_t k = std::min(x->model.size(), p->out.size()); if (p->out.compare(0, k, x->model, 0, k) && !x->tried_again) violation("C12", "not-a-prefix", "standard output is not a prefix of the stream written:%s", w_describe(w_parse(p->out)).c_str());
  if (!x->tried_again && p->out.size() > x->model.size()) violation("C12", "not-a-prefix", "standard output is longer than the stream written");
  if (!x->async && p->out.compare(0, x->certain.size(), x->certain)) violation("C12", "changed-after-close", "what was on standard output at close has changed");
}
void scen_stdio() {
  SD *x = X = new SD; int st = ST_CFG; draw_sched_cfg(); x->rd = choose(st, 2); x->async = !x->rd && choose(st, 3) == 2; x->ct = choose(st, 4) == 3 ? "" : choose(st, 2) ? string(1 + choose(st, 256), 'c') : "proto:std";
  C.stdio_buf = oneof(st, (const u32[]){0, 64, 1000, 1}); C.p_fshort = oneof(st, (const u32[]){0, 100, 500}); C.p_short_read = oneof(st, (const u32[]){0, 200});
  if (!x->rd) { u32 k = choose(st, 4); if (k == 2) C.p_stdout_err = oneof(st, (const u32[]){20, 100, 400}); if (k == 3) C.stdout_quota = skewed(st, 20000); }
  Proc *p = proc_new("app"); if (x->rd) { x->in = gen_stream(ST_OPS + 2, false, {x->ct}, 3000, true); if (choose(st, 3) == 2) x->in.resize(choose(st, x->in.size() + 1)); inode_put("/stdin", x->in); proc_set_stdin(p, inode_get("/stdin", false)); }
  int f = fiber_spawn("app", [p] { stdio_init(p); body(p); }, p); p->main_fiber = f; fiber_join(f);
  probe_n("frames read from standard input", x->reads); if (x->closed_ok) probe("streams on standard output judged complete");
}
