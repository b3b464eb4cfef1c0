// What a file writer leaves behind when its process is killed at any system call or in
// the middle of a write, when power fails and a suffix is lost, or when the disk fails
// or fills up; and what a reader makes of the remains. Property C12.
#include "common.h"
#include "internal.h"
#include <algorithm>

namespace {
struct F {
  string path = "/out.fstrm", ct; bool has_ct = true, async = false; Proc *app = nullptr, *rd = nullptr;
  vector<string> models;      // per opening of the file: bytes the writer may have put there by now
  vector<bool> closed_ok;     // close reported success
  vector<string> certain;     // bytes of calls that reported success
  u32 maxlen = 60, nops = 0; bool killed = false;
};
}
static F *X;
static string startb() { return w_control(CT_START, X->has_ct ? vector<string>{X->ct} : vector<string>{}); }
static void on_write(Inode *n, const char *, size_t) {
  if (n->name != X->path || X->models.empty()) return;
  const string &d = n->data, &m = X->models.back();
  if (d.size() > m.size() || m.compare(0, d.size(), d)) {
    size_t i = 0; while (i < d.size() && i < m.size() && d[i] == m[i]) i++;
    violation("C12", "not-a-prefix", "the file's %zu bytes are not a prefix of the stream written so far (%zu bytes): differ at offset %zu; file:%s", d.size(), m.size(), i, w_describe(w_parse(d)).c_str());
  }
}
static struct fstrm_writer *mkw() {
  auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, X->path.c_str());
  auto *wo = fstrm_writer_options_init(); if (X->has_ct) fstrm_writer_options_add_content_type(wo, X->ct.data(), X->ct.size());
  struct fstrm_writer *w = fstrm_file_writer_init(o, wo); fstrm_file_options_destroy(&o); fstrm_writer_options_destroy(&wo); return w;
}
static void app_sync(Proc *) {
  F *x = X; int st = ST_OPS; struct fstrm_writer *w = mkw(); u32 id = 0;
  u32 rounds = 1 + choose(st, 3); bool failed = false;
  for (u32 r = 0; r < rounds && !failed; r++) {
    x->models.push_back(startb()); x->certain.push_back(""); x->closed_ok.push_back(false);
    if (fstrm_writer_open(w) != fstrm_res_success) { failed = true; break; }
    x->certain.back() = startb();
    bool many; u32 n = draw_count(st, x->nops, 60, &many);
    for (u32 i = 0; i < n; i++) {
      u32 k = many ? 1 : oneof(st, (const u32[]){1, 1, 1, 2, 5, 130}); vector<string> v; vector<struct iovec> iov; string b; 
      for (u32 j = 0; j < k; j++) v.push_back(pattern(id++, draw_len(many ? 12 : k > 10 ? 60 : x->maxlen, st)));
      for (auto &s : v) { b += w_data(s); iov.push_back({simbuf(s), s.size()}); }
      x->models.back() += b;
      struct iovec *hv = (struct iovec *)sim_malloc(k * sizeof *hv); memcpy(hv, iov.data(), k * sizeof *hv);
      EV(300, b.size(), 0, "write of %u frames, %zu bytes", k, b.size());
      fstrm_res res = k == 1 ? fstrm_writer_write(w, hv[0].iov_base, hv[0].iov_len) : fstrm_writer_writev(w, hv, k); EV(301, res, 0, "returned %d", res);
      for (u32 j = 0; j < k; j++) sim_free(iov[j].iov_base); sim_free(hv);
      if (res == fstrm_res_success) { if (!failed) x->certain.back() += b; else violation("C12,C09", "success-after-failure", "a write after a failed write reported success"); }
      else { failed = true; if (choose(st, 2)) break; }
    }
    x->models.back() += w_control(CT_STOP, {});
    fstrm_res c = fstrm_writer_close(w); EV(302, c, 0, "close returned %d", c);
    if (c == fstrm_res_success) { if (failed) violation("C12,C09", "failure-hidden", "close reported success although a write had failed"); x->closed_ok.back() = true; x->certain.back() += w_control(CT_STOP, {}); }
    else failed = true;
  }
  fstrm_writer_destroy(&w);
}
static void app_async(Proc *) { // the same through an I/O thread: one producer, one queue
  F *x = X; int st = ST_OPS; x->models.push_back(startb()); x->certain.push_back(""); x->closed_ok.push_back(false);
  // reopening after a failure truncates the file, so only the crash faults are used in this mode
  auto *o = fstrm_iothr_options_init(); fstrm_iothr_options_set_flush_timeout(o, 1 + choose(st, 3)); fstrm_iothr_options_set_input_queue_size(o, oneof(st, (const u32[]){64, 8, 2})); fstrm_iothr_options_set_queue_notify_threshold(o, 1 + choose(st, 40));
  struct fstrm_writer *w = mkw(); struct fstrm_iothr *io = fstrm_iothr_init(o, &w); fstrm_iothr_options_destroy(&o);
  if (!io) violation("*", "init-failed", "iothr init failed");
  struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io); u32 id = 0;
  bool many; u32 n = draw_count(st, 80, 60, &many);
  for (u32 i = 0; i < n; i++) {
    string s = pattern(id++, draw_len(many ? 12 : x->maxlen, st)); void *b = simbuf(s); fstrm_res r; string old = x->models.back(); x->models.back() += w_data(s);
    for (int t = 0; t < 400; t++) { r = fstrm_iothr_submit(io, q, b, s.size(), fstrm_free_wrapper, nullptr); if (r == fstrm_res_success) break; sim_sleep(100 * MS); }
    if (r != fstrm_res_success) { sim_free(b); x->models.back() = old; break; }
    if (choose(st, 12) == 11) sim_sleep((u64)choose(st, 2500) * MS);
  }
  x->models.back() += w_control(CT_STOP, {});
  fstrm_iothr_destroy(&io); x->closed_ok.back() = true; x->certain.back() = x->models.back();
}
// a reader on what is left
static void app_read(Proc *p) {
  F *x = X; Inode *n = inode_get(x->path, false); if (!n) return; string d = n->data; int st = ST_OPS + 1;
  WStream ws = w_writer_stream(d, false);
  if (!ws.err.empty()) violation("C12", "remains-malformed", "the remains are not a prefix of a well-formed stream: %s:%s", ws.err.c_str(), w_describe(w_parse(d)).c_str());
  auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, x->path.c_str()); auto *ro = choose(st, 2) ? fstrm_reader_options_init() : nullptr;
  if (ro && x->has_ct && choose(st, 2)) fstrm_reader_options_add_content_type(ro, x->ct.data(), x->ct.size());
  struct fstrm_reader *r = fstrm_file_reader_init(o, ro); fstrm_file_options_destroy(&o); if (ro) fstrm_reader_options_destroy(&ro);
  fstrm_res res = fstrm_reader_open(r);
  if ((res == fstrm_res_success) != ws.start) violation("C12,C11", "remains-open", "opening a reader on the remains (%zu bytes, START %s) returned %d", d.size(), ws.start ? "complete" : "incomplete", res);
  size_t i = 0; const uint8_t *data; size_t len; bool stop = false;
  if (ws.start) for (;;) {
    res = fstrm_reader_read(r, &data, &len); EV(303, res, i, "reader returned %d", res);
    if (res != fstrm_res_success) { const struct fstrm_control *c; if (res == fstrm_res_stop && fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c) == fstrm_res_success) stop = true; break; }
    heap_check(data, len, false, "frame returned by read");
    if (i >= ws.frames.size()) fatal_violation("C12,C11", "invented-frame", "the reader returned more than the %zu complete frames of the remains", ws.frames.size());
    if (string((const char *)data, len) != ws.frames[i]) violation("C12,C11", "wrong-frame", "the reader returned frame %zu wrongly", i);
    i++;
  }
  if (i != ws.frames.size()) violation("C12,C11", "frame-withheld", "the reader returned %zu of the %zu complete frames of the remains", i, ws.frames.size());
  if (stop != ws.stop) violation("C12,C11", "stop-misreported", "STOP is %sin the remains but was %sreported", ws.stop ? "" : "not ", stop ? "" : "not ");
  fstrm_reader_destroy(&r); if (proc_open_fds(p)) violation("C13", "descriptor-leak", "reader left a descriptor open");
  probe_n("frames read back from remains", i); if (ws.partial) probe("remains end in a partial frame"); if (!ws.start) probe("remains end before START is complete");
}
void scen_filecrash() {
  F *x = X = new F; int st = ST_CFG; draw_sched_cfg();
  x->async = choose(st, 4) == 3; u32 mode = choose(st, 6); // 0 nothing, 1-2 kill at system call, 3 kill inside write, 4 disk errors, 5 disk full
  x->has_ct = choose(st, 4) != 3; x->ct = choose(st, 3) == 2 ? string(choose(st, 257), 'c') : "proto:crash"; x->maxlen = oneof(st, (const u32[]){60, 300, 3000, 20000}); x->nops = 1 + skewed(st, 60);
  C.stdio_buf = oneof(st, (const u32[]){0, 64, 1000, 1}); C.p_fshort = oneof(st, (const u32[]){0, 100, 500});
  if (x->async && mode >= 4) mode = 1 + mode % 3;
  x->app = K.kill_proc = proc_new("app");
  if (mode == 1 || mode == 2) K.kill_at_syscall = 1 + skewed(st, 60);
  if (mode == 3) K.kill_at_write = 1 + skewed(st, 30);
  if (mode == 4) { C.p_fwrite_err = oneof(st, (const u32[]){20, 100, 400}); C.p_fopen_err = oneof(st, (const u32[]){0, 50}); C.p_fclose_err = oneof(st, (const u32[]){0, 100, 500}); }
  if (mode == 5) C.disk_quota = skewed(st, 30000);
  if (choose(st, 4) == 3) inode_put(x->path, string(choose(st, 300), 'o')); // an older file of that name
  bool old = inode_get(x->path, false) && !inode_get(x->path, false)->data.empty();
  K.on_file_write = on_write;
  int f = fiber_spawn("app", [x] { stdio_init(x->app); x->async ? app_async(x->app) : app_sync(x->app); }, x->app); x->app->main_fiber = f;
  fiber_join(f); x->killed = x->app->killed;
  K.kill_at_syscall = K.kill_at_write = 0;
  Inode *n = inode_get(x->path, false);
  bool opened = n && n->n_opened_w > 0;
  if (x->killed) probe("process killed before the writer was done");
  // every generation of the file against its model
  if (opened) {
    vector<string> gens = n->generations; if (old && !gens.empty()) gens.erase(gens.begin()); gens.push_back(n->data);
    for (size_t g = 0; g < gens.size(); g++) {
      size_t m = g; // only the last open can have failed before touching the file
      if (gens.size() > x->models.size()) violation("C12", "extra-open", "the file was opened %zu times by %zu opens of the writer", gens.size(), x->models.size());
      const string &d = gens[g];
      if (d.size() > x->models[m].size() || x->models[m].compare(0, d.size(), d)) violation("C12", "not-a-prefix", "content %zu of the file is not a prefix of the stream written:%s", g, w_describe(w_parse(d)).c_str());
      if (x->closed_ok[m] && d != x->certain[m]) violation("C12,C09", "closed-incomplete", "close reported success but the file holds %zu of %zu bytes", d.size(), x->certain[m].size());
    }
  } else for (bool c : x->closed_ok) if (c) violation("C12", "closed-incomplete", "close reported success but there is no file");
  // power cut: a suffix of what the kernel had is lost
  if (opened && choose(st, 2)) { size_t keep = choose(st, (u32)n->data.size() + 1); if (keep < n->data.size()) { fault_fired("power cut loses a suffix of the file"); n->data.resize(keep); } }
  if (opened) {
    NoFaults nf; u32 sr = oneof(st, (const u32[]){0, 500}); C.faults_on = true; C.p_fwrite_err = C.p_fopen_err = C.p_fclose_err = C.p_fshort = 0; C.disk_quota = -1; C.p_short_read = sr; C.stdio_buf = oneof(st, (const u32[]){0, 64, 1});
    x->rd = proc_new("reader"); int rf = fiber_spawn("reader", [x] { stdio_init(x->rd); app_read(x->rd); }, x->rd); fiber_join(rf);
  }
}
