// The library's own writer joined to the library's own reader: results on both sides
// compared with each other and with what the content types allow. Property C16.
#include "common.h"
#include "internal.h"
#include <algorithm>

namespace {
struct S { // one connection (session), as seen from both sides
  ConnRec *c = nullptr; bool w_open = false, w_all = true, w_close = false, w_done = false, w_fault = false, explicit_w = false;
  vector<string> tried; size_t oked = 0; bool all_oked = true;
  bool r_seen = false, r_tried_open = false, r_open = false, r_stop = false, r_close = false, r_done = false, r_cut = false, explicit_r = false; vector<string> got;
  size_t cut_at = SIZE_MAX; bool cut_rst = false; size_t rd = 0; bool r_broken = false; size_t out_cut = SIZE_MAX, outn = 0; size_t w_cut = SIZE_MAX, w_n = 0; bool w_broken = false, w_cut_hit = false;
};
struct PR {
  int tr; bool bidir; vector<string> wl, rl; size_t maxf; bool healthy; Listener *lis; vector<S *> ss; bool w_finished = false; S *cur_r = nullptr, *cur_w = nullptr; End *rend = nullptr, *wend = nullptr; u64 rslow = 0; size_t oversize = SIZE_MAX; Proc *wp = nullptr;
  u32 nsess; int destroyed = 0; bool implicit_open = false;
};
}
static PR *X;
static S *sess_of(ConnRec *c) { for (auto s : X->ss) if (s->c == c) return s; S *s = new S; s->c = c; if (!X->healthy) { int st = ST_FAULT; if (choose(st, 3) == 2) { s->cut_at = skewed(st, 4000); s->cut_rst = choose(st, 2); } if (choose(st, 6) == 5) s->out_cut = choose(st, 40); if (choose(st, 4) == 3) s->w_cut = skewed(st, 4000); } X->ss.push_back(s); return s; }
static void see(const S *s) { if (g_trace) ev("session %d: writer open %d close %d tried %zu ok %zu; reader open %d got %zu stop %d close %d", s->c ? s->c->id : -1, s->w_open, s->w_close, s->tried.size(), s->oked, s->r_open, s->got.size(), s->r_stop, s->r_close); }

// ---- reader side transport
static fstrm_res r_open(void *) {
  PR *x = X; if (x->rend) violation("C13", "double-open", "reader opened its transport again without closing it");
  ConnRec *c = nullptr; while (!(c = peer_accept(x->lis, now_ns() + NS))) if (x->w_finished) return fstrm_res_failure;
  x->cur_r = sess_of(c); x->cur_r->r_seen = true; x->rend = &c->b; EV(260, c->id, 0, "reader transport accepts connection %d", c->id); return fstrm_res_success;
}
static fstrm_res r_read(void *, void *d, size_t n) {
  PR *x = X; S *s = x->cur_r; if (!x->rend) { violation("C13", "io-after-close", "reader read on a closed transport"); return fstrm_res_failure; } if (s->r_broken) return fstrm_res_failure;
  heap_check(d, n, true, "read method"); size_t k = 0;
  while (k < n) {
    if (x->rslow && chance(ST_ENV, 1, 20)) sim_sleep(choose(ST_ENV, 1000) * x->rslow / 1000);
    size_t want = n - k; if (s->cut_at != SIZE_MAX) { if (s->rd >= s->cut_at) { fault_fired("reader's connection breaks"); s->r_broken = s->r_cut = true; peer_close(x->rend, s->cut_rst); return fstrm_res_failure; } want = std::min(want, s->cut_at - s->rd); }
    size_t g = peer_read(x->rend, (char *)d + k, want, NEVER); if (!g) { s->r_broken = true; EV(261, s->rd, 0, "reader transport: end of connection after %zu bytes", s->rd); return !x->implicit_open && k == 0 && choose(ST_ENV, 2) ? fstrm_res_stop : fstrm_res_failure; }
    k += g; s->rd += g;
  }
  return fstrm_res_success;
}
static fstrm_res r_write(void *, const struct iovec *v, int n) {
  PR *x = X; S *s = x->cur_r; if (!x->rend) { violation("C13", "io-after-close", "reader wrote on a closed transport"); return fstrm_res_failure; } if (s->r_broken) return fstrm_res_failure; string b;
  for (int i = 0; i < n; i++) { heap_check(v[i].iov_base, v[i].iov_len, false, "write method"); b.append((const char *)v[i].iov_base, v[i].iov_len); }
  if (s->out_cut != SIZE_MAX && s->outn + b.size() > s->out_cut) { fault_fired("reader's connection breaks while sending"); s->r_cut = s->r_broken = true; peer_write_partial(x->rend, b.substr(0, s->out_cut - s->outn), NEVER); peer_close(x->rend, s->cut_rst); return fstrm_res_failure; }
  s->outn += b.size(); if (!peer_write(x->rend, b.data(), b.size())) { s->r_broken = true; return fstrm_res_failure; } return fstrm_res_success;
}
static fstrm_res r_close(void *) { PR *x = X; if (!x->rend) { violation("C13", "double-close", "reader closed a transport that is not open"); return fstrm_res_failure; } S *s = x->cur_r; if (!s->r_cut) peer_close(x->rend); x->rend = nullptr; return s->r_cut ? fstrm_res_failure : fstrm_res_success; }
// ---- writer side custom transport
static fstrm_res w_open(void *) { PR *x = X; if (x->wend) violation("C13", "double-open", "writer opened its transport again without closing it"); ConnRec *c = peer_connect("unix:/sock", now_ns() + 10 * NS); if (!c) return fstrm_res_failure; x->wend = &c->a; x->cur_w = sess_of(c); return fstrm_res_success; }
static fstrm_res w_read(void *, void *d, size_t n) { PR *x = X; if (!x->wend) { violation("C13", "io-after-close", "writer read on a closed transport"); return fstrm_res_failure; } size_t k = 0; heap_check(d, n, true, "read method"); while (k < n) { size_t g = x->cur_w->w_broken ? 0 : peer_read(x->wend, (char *)d + k, n - k, NEVER); if (!g) return fstrm_res_failure; k += g; } return fstrm_res_success; }
static fstrm_res w_write(void *, const struct iovec *v, int n) {
  PR *x = X; S *s = x->cur_w; if (!x->wend) { violation("C13", "io-after-close", "writer wrote on a closed transport"); return fstrm_res_failure; }
  for (int i = 0; i < n; i++) {
    if (s->w_broken) return fstrm_res_failure; heap_check(v[i].iov_base, v[i].iov_len, false, "write method"); string b((const char *)v[i].iov_base, v[i].iov_len);
    if (s->w_cut != SIZE_MAX && s->w_n + b.size() > s->w_cut) { fault_fired("writer's connection breaks"); s->w_cut_hit = s->w_broken = true; peer_write_partial(x->wend, b.substr(0, s->w_cut - s->w_n), NEVER); peer_close(x->wend, s->cut_rst); return fstrm_res_failure; }
    s->w_n += b.size(); if (!peer_write(x->wend, b.data(), b.size())) { s->w_broken = true; return fstrm_res_failure; }
  }
  return fstrm_res_success;
}
static fstrm_res w_close(void *) { PR *x = X; if (!x->wend) { violation("C13", "double-close", "writer closed a transport that is not open"); return fstrm_res_failure; } if (!x->cur_w->w_cut_hit) peer_close(x->wend); x->wend = nullptr; return x->cur_w->w_cut_hit ? fstrm_res_failure : fstrm_res_success; }
static fstrm_res destroyed(void *) { X->destroyed++; return fstrm_res_success; }

static bool compatible() {
  PR *x = X; if (x->wl.empty() || x->rl.empty()) return true;
  for (size_t i = 0; i < (x->bidir ? x->wl.size() : 1); i++) if (std::find(x->rl.begin(), x->rl.end(), x->wl[i]) != x->rl.end()) return true;
  return false;
}
static void writer_app(Proc *p) {
  PR *x = X; x->wp = p; int st = ST_OPS; struct fstrm_writer_options *wo = nullptr; struct fstrm_writer *w = nullptr;
  if (!x->wl.empty() || choose(ST_CFG, 2)) { wo = fstrm_writer_options_init(); for (auto &c : x->wl) if (fstrm_writer_options_add_content_type(wo, c.data(), c.size()) != fstrm_res_success) violation("C16", "option-rejected", "content type rejected"); }
  if (x->tr == 0) { auto *o = fstrm_unix_writer_options_init(); fstrm_unix_writer_options_set_socket_path(o, "/sock"); w = fstrm_unix_writer_init(o, wo); fstrm_unix_writer_options_destroy(&o); }
  else if (x->tr == 1) { auto *o = fstrm_tcp_writer_options_init(); fstrm_tcp_writer_options_set_socket_address(o, "127.0.0.1"); fstrm_tcp_writer_options_set_socket_port(o, "5353"); w = fstrm_tcp_writer_init(o, wo); fstrm_tcp_writer_options_destroy(&o); }
  else { struct fstrm_rdwr *rw = fstrm_rdwr_init(x); fstrm_rdwr_set_destroy(rw, destroyed); fstrm_rdwr_set_open(rw, w_open); fstrm_rdwr_set_close(rw, w_close); fstrm_rdwr_set_write(rw, w_write); if (x->bidir) fstrm_rdwr_set_read(rw, w_read); w = fstrm_writer_init(wo, &rw); }
  if (wo) fstrm_writer_options_destroy(&wo);
  if (!w) violation("*", "init-failed", "writer init failed");
  u32 id = 0; u32 over_s = choose(ST_CFG, 6), maxlen = (u32)std::min<size_t>(x->maxf, oneof(ST_CFG, (const u32[]){60, 600, 20000}));
  for (u32 si = 0; si < x->nsess; si++) {
    size_t nc = K.conns.size(), na = K.attempts.size(); u64 fe = p->fault_errs; S *s = nullptr; bool expl = si > 0 || choose(st, 2) == 0; bool last_implicit = si + 1 == x->nsess && choose(st, 4) == 3;
    vector<string> early; fstrm_res r = fstrm_res_success;
    auto locate = [&] { if (!s && K.conns.size() > nc) { s = sess_of(K.conns[nc]); s->explicit_w = expl; s->tried = early; early.clear(); } };
    // the session record has to exist before bytes flow: create it when the connection is made
    K.on_connect = [&](ConnRec *c) { (void)c; };
    bool many; u32 nf = draw_count(st, 40, 40, &many), over_at = over_s == si ? choose(st, nf + 1) : UINT32_MAX; bool live = true;
    if (expl) { r = fstrm_writer_open(w); locate(); EV(262, r, si, "writer open returned %d", r); if (s) { s->w_open = r == fstrm_res_success; s->w_all &= s->w_open; } if (r != fstrm_res_success) live = false; }
    else if (!nf) nf = 1;
    for (u32 i = 0; live && i < nf;) {
      u32 k = choose(st, 4) == 3 ? std::min<u32>(nf - i, 1 + choose(st, 200)) : 1; vector<string> v;
      for (u32 j = 0; j < k; j++, i++) v.push_back(pattern(id++, i == over_at ? x->maxf + 1 + choose(st, 100) : draw_len(many ? 20 : maxlen, st)));
      // listed before the call: the reader may see them during it
      locate(); if (s) s->tried.insert(s->tried.end(), v.begin(), v.end()); else { early = v; K.on_connect = [&early, expl](ConnRec *c) { S *q = sess_of(c); q->explicit_w = expl; q->tried = early; }; }
      vector<struct iovec> iov; for (auto &f : v) iov.push_back({(void *)f.data(), f.size()});
      struct iovec *vv = (struct iovec *)sim_malloc(k * sizeof(struct iovec)); for (u32 j = 0; j < k; j++) { vv[j].iov_base = simbuf(v[j]); vv[j].iov_len = v[j].size(); }
      r = k == 1 && choose(st, 2) ? fstrm_writer_write(w, vv[0].iov_base, vv[0].iov_len) : fstrm_writer_writev(w, vv, k);
      K.on_connect = nullptr; if (!s && K.conns.size() > nc) s = sess_of(K.conns[nc]);
      for (u32 j = 0; j < k; j++) sim_free(vv[j].iov_base); sim_free(vv); EV(263, r, k, "write of %u frames returned %d", k, r);
      if (s) { if (r == fstrm_res_success) { s->w_open = true; s->oked += k; } else { s->w_all = s->all_oked = false; } }
      if (r != fstrm_res_success) live = false;
      if (choose(st, 16) == 15) sim_sleep((u64)choose(st, 1000) * MS);
    }
    if (!last_implicit) r = fstrm_writer_close(w); else { r = fstrm_writer_destroy(&w); if (w) violation("C13", "handle-not-cleared", "destroy left the pointer set"); }
    EV(264, r, 0, "writer close returned %d", r);
    if (s) { s->w_close = r == fstrm_res_success; s->w_all &= s->w_close; s->w_done = true; s->w_fault = p->fault_errs != fe; for (size_t i = na; i < K.attempts.size(); i++) if (K.attempts[i].result) s->w_fault = true; }
  }
  if (w) fstrm_writer_destroy(&w);
  x->w_finished = true;
}
static void reader_app(Proc *) {
  PR *x = X; int st = ST_OPS + 1; struct fstrm_reader_options *ro = nullptr;
  if (!x->rl.empty() || x->maxf != 1048576) { ro = fstrm_reader_options_init(); for (auto &c : x->rl) fstrm_reader_options_add_content_type(ro, c.data(), c.size()); if (x->maxf != 1048576) fstrm_reader_options_set_max_frame_size(ro, x->maxf); }
  struct fstrm_rdwr *rw = fstrm_rdwr_init(x); fstrm_rdwr_set_open(rw, r_open); fstrm_rdwr_set_close(rw, r_close); fstrm_rdwr_set_read(rw, r_read); if (x->bidir) fstrm_rdwr_set_write(rw, r_write);
  struct fstrm_reader *r = fstrm_reader_init(ro, &rw); if (ro) fstrm_reader_options_destroy(&ro); if (!r) violation("*", "init-failed", "reader init failed"); bool first = true;
  for (;;) {
    x->cur_r = nullptr; bool expl = !first || choose(st, 2) == 0; first = false; x->implicit_open = !expl; fstrm_res q = fstrm_res_success;
    if (expl) { q = fstrm_reader_open(r); EV(265, q, 0, "reader open returned %d", q); }
    else { const uint8_t *d; size_t l; q = fstrm_reader_read(r, &d, &l); EV(266, q, q ? 0 : l, "reader read returned %d", q); if (q == fstrm_res_success && x->cur_r) x->cur_r->got.push_back(string((const char *)d, l)); }
    S *s = x->cur_r; if (!s) { if (q == fstrm_res_success) violation("C16", "read-without-open", "reader succeeded without a connection"); break; }
    s->explicit_r = expl; s->r_tried_open = true; const struct fstrm_control *cf; 
    s->r_open = q == fstrm_res_success || (!expl && q == fstrm_res_stop && fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &cf) == fstrm_res_success);
    x->implicit_open = false;
    if (s->r_open && q == fstrm_res_success) for (;;) {
      const uint8_t *d = nullptr; size_t l = 0; q = fstrm_reader_read(r, &d, &l); EV(267, q, q ? 0 : l, "reader read returned %d (%zu bytes)", q, q ? 0 : l);
      if (q != fstrm_res_success) break; heap_check(d, l, false, "frame returned by read"); s->got.push_back(string((const char *)d, l));
      size_t i = s->got.size() - 1; if (i >= s->tried.size() || s->got[i] != s->tried[i]) fatal_violation("C16", "wrong-frame", "reader returned %s as frame %zu; the writer %s%s", w_brief(s->got[i]).c_str(), i, i < s->tried.size() ? "wrote " : "wrote no such frame", i < s->tried.size() ? w_brief(s->tried[i]).c_str() : "");
      if (choose(st, 32) == 31) sim_sleep((u64)choose(st, 500) * MS);
    }
    // whether STOP was read or the transport ended: ask the reader
    if (q == fstrm_res_stop && s->r_open) s->r_stop = fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &cf) == fstrm_res_success;
    if (s->r_open || choose(st, 2)) { q = fstrm_reader_close(r); EV(268, q, 0, "reader close returned %d", q); if (!s->r_open && q == fstrm_res_success) violation("C16,C13", "close-of-closed", "close of a reader that failed to open succeeded"); s->r_close = q == fstrm_res_success; }
    if (!s->r_stop && s->r_close) violation("C16,C11", "closed-clean", "reader close reported success although STOP was not read");
    s->r_done = true;
  }
  fstrm_reader_destroy(&r); if (r) violation("C13", "handle-not-cleared", "destroy left the pointer set");
}
void scen_pair() {
  PR *x = X = new PR; int st = ST_CFG; draw_sched_cfg(); C.sync_pct = std::max<u32>(C.sync_pct, 10);
  x->tr = choose(st, 4); x->bidir = x->tr != 3; x->healthy = choose(st, 2); x->nsess = 1 + choose(st, 3);
  auto list = [&](vector<string> &l) { u32 n = choose(st, 16) == 15 ? 20 : choose(st, 4); size_t b = 4; for (u32 i = 0; i < n; i++) { u32 k = choose(st, 10); string c = k == 9 ? string(200, 'c') : k == 8 ? "" : k == 7 ? string("proto:\0x", 8) : strf("proto:%u", choose(st, n > 4 ? 30 : 4)); if ((b += 8 + c.size()) <= 500) l.push_back(c); } };
  list(x->wl); list(x->rl); x->maxf = oneof(st, (const size_t[]){1048576, 512, 600, 3000});
  C.sockbuf = oneof(st, (const u32[]){65536, 60, 1000, 5000}); C.net_delay_max_ns = oneof(st, (const u64[]){0, MS, 300 * MS});
  C.p_short_send = oneof(st, (const u32[]){0, 50, 300, 700}); C.p_eintr = oneof(st, (const u32[]){0, 0, 100}); C.p_short_read = oneof(st, (const u32[]){0, 200, 800}); C.p_stall = oneof(st, (const u32[]){0, 0, 50}); C.stall_max_ns = 100 * MS; x->rslow = oneof(st, (const u64[]){0, MS, 200 * MS});
  if (!x->healthy) { C.p_send_err = oneof(st, (const u32[]){0, 0, 20, 150}); C.p_recv_err = oneof(st, (const u32[]){0, 0, 100}); C.p_connect_err = oneof(st, (const u32[]){0, 100}); C.p_close_err = oneof(st, (const u32[]){0, 100}); }
  x->lis = listen_on(x->tr == 1 ? "tcp:127.0.0.1:5353" : "unix:/sock", x->tr == 1);
  Proc *rp = proc_new("reader"); int rf = fiber_spawn("reader", [rp] { stdio_init(rp); reader_app(rp); }, rp);
  run_app("writer", writer_app); fiber_join(rf);
  bool compat = compatible();
  for (auto s : x->ss) {
    see(s); if (!s->r_seen || !s->w_done) continue;
    bool faulty = s->c->a.injected || s->w_fault || s->r_cut || s->w_cut_hit; size_t over = s->tried.size(); for (size_t i = 0; i < s->tried.size(); i++) if (s->tried[i].size() > x->maxf) { over = i; break; }
    bool oversize = over < s->tried.size();
    if (!compat) {
      if (s->r_open) violation("C16", "incompatible-accepted", "the reader's open succeeded although the content types are incompatible");
      if (x->bidir && s->w_open) violation("C16", "incompatible-accepted", "the writer's open succeeded although the content types are incompatible");
      if (x->bidir && s->w_close && s->explicit_w) {} // closing a writer that is not open
      continue;
    }
    if (s->got.size() > over || s->got.size() > s->tried.size()) fatal_violation("C16", "extra-frames", "reader returned %zu frames, the writer wrote %zu", s->got.size(), s->tried.size());
    for (size_t i = 0; i < s->got.size(); i++) if (s->got[i] != s->tried[i]) violation("C16", "wrong-frame", "frame %zu read differs from the frame written", i);
    if (s->r_stop && (s->got.size() != s->tried.size() || !s->all_oked)) violation("C16", "stop-early", "the reader saw a regular end after %zu of %zu frames", s->got.size(), s->tried.size());
    if (s->w_open && s->w_close && x->bidir && (!s->r_stop || s->got.size() != s->oked)) violation("C16", "unconfirmed-success", "the writer's close succeeded but the reader read %zu of %zu frames%s", s->got.size(), s->oked, s->r_stop ? "" : " and no STOP");
    if (s->w_all && s->w_open && s->r_open && s->r_close && s->got != s->tried) violation("C16", "silent-loss", "both sides reported success but the reader read %zu of %zu frames", s->got.size(), s->tried.size());
    if (faulty) { probe("broken sessions judged"); continue; }
    if (!oversize) {
      if (!s->r_open) violation("C16", "compatible-refused", "the reader's open failed although the content types are compatible and nothing broke");
      if (!s->w_open) violation("C16", "compatible-refused", "the writer's open failed although the content types are compatible and nothing broke");
      if (!s->all_oked) violation("C16", "write-failed", "a write failed although nothing broke");
      if (!s->r_stop || s->got != s->tried) violation("C16", "frames-lost", "the reader read %zu of %zu frames%s although nothing broke", s->got.size(), s->tried.size(), s->r_stop ? "" : " and no STOP");
      if (!s->w_close || !s->r_close) violation("C16", "close-failed", "close failed on the %s side although nothing broke", s->w_close ? "reader" : "writer");
      probe("unbroken sessions judged"); probe_n("frames carried end to end", s->got.size());
    } else {
      if (s->got.size() != over && s->r_open) violation("C16", "frames-lost", "the reader read %zu frames before the oversized frame %zu", s->got.size(), over);
      if (s->r_stop) violation("C16", "stop-early", "regular end after an oversized frame");
      probe("sessions with an oversized frame judged");
    }
  }
}
