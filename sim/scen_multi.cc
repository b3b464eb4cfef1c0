// Several I/O threads, writers and readers at the same time in one process, each on a transport of its own:
// every one behaves as if it were alone. Property C28 (and C01, C02, C03, C08, C11, C12, C16 for the part it plays in them).
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <set>
string gen_stream(int st, bool bidir, const vector<string> &types, u32 maxframe, bool valid_only);
extern u32 g_gen_base;
namespace {
struct Station; struct Pay { Station *s; string d; void *buf; int frees = 0; bool ok = false; };
struct Station {
  int no, kind, tr; bool healthy = true; string ct, path, addr, port, key; MemT *mem = nullptr; Server *srv = nullptr; vector<Pay *> fr; vector<vector<size_t>> byq; // I/O thread: accepted frames of each queue, in order
  string in, out; size_t pos = 0; bool open = false; u32 chunk = 0; size_t rounds = 1; string model; bool bad = false, owned = false; vector<Station *> also; // further I/O threads that the same threads serve
};
}
static vector<Station *> *X;
static u32 g_id;
enum { K_IOTHR, K_WRITER, K_READER, K_ROUND, K_NKINDS };
static const char *const kn[] = {"I/O thread", "writer", "reader", "file round trip"};
static void on_free(void *data, void *fd) { Pay *f = (Pay *)fd; if (data != f->buf) violation("C28,C03", "free-wrong-data", "free callback with another data pointer"); if (f->frees++) violation("C28,C03", "freed-twice", "free callback ran twice"); else { if (memcmp(data, f->d.data(), f->d.size())) violation("C28,C03", "payload-modified", "a payload was changed"); sim_free(data); } }
static struct fstrm_writer *mk(Station *s) {
  struct fstrm_writer_options *wo = fstrm_writer_options_init(); fstrm_writer_options_add_content_type(wo, s->ct.data(), s->ct.size()); struct fstrm_writer *w;
  switch (s->tr) {
    case 0: { auto *o = fstrm_unix_writer_options_init(); fstrm_unix_writer_options_set_socket_path(o, s->path.c_str()); w = fstrm_unix_writer_init(o, wo); fstrm_unix_writer_options_destroy(&o); break; }
    case 1: { auto *o = fstrm_tcp_writer_options_init(); fstrm_tcp_writer_options_set_socket_address(o, s->addr.c_str()); fstrm_tcp_writer_options_set_socket_port(o, s->port.c_str()); w = fstrm_tcp_writer_init(o, wo); fstrm_tcp_writer_options_destroy(&o); break; }
    case 2: { auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, s->path.c_str()); w = fstrm_file_writer_init(o, wo); fstrm_file_options_destroy(&o); break; }
    default: { struct fstrm_rdwr *r = mem_rdwr(s->mem); w = fstrm_writer_init(wo, &r); }
  }
  fstrm_writer_options_destroy(&wo); if (!w) violation("*", "init-failed", "writer init failed"); return w;
}
static Pay *fresh(Station *s, int st, u32 maxlen) { Pay *f = new Pay; f->s = s; f->d = pattern(g_id++, draw_len(maxlen, st)); f->buf = simbuf(f->d); s->fr.push_back(f); return f; }
// one or several I/O threads at a time, served by the same threads: each thread has a queue of every one. `own`: the station's thread is the producer of all queues.
static void run_iothrs(const vector<Station *> &L, int st, bool own) {
  vector<struct fstrm_iothr *> ios; u32 nq = 1 + choose(st, 3); vector<vector<struct fstrm_iothr_queue *>> iq(nq); std::set<struct fstrm_iothr_queue *> qs;
  for (Station *s : L) {
    struct fstrm_writer *w = mk(s); struct fstrm_iothr_options *o = fstrm_iothr_options_init(); bool mpsc = choose(st, 2);
    fstrm_iothr_options_set_num_input_queues(o, nq); fstrm_iothr_options_set_queue_model(o, mpsc ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC); fstrm_iothr_options_set_input_queue_size(o, oneof(st, (const u32[]){2, 8, 64, 512}));
    fstrm_iothr_options_set_output_queue_size(o, oneof(st, (const u32[]){2, 5, 64, 200})); fstrm_iothr_options_set_buffer_hint(o, oneof(st, (const u32[]){1024, 8192}));
    struct fstrm_iothr *io = fstrm_iothr_init(o, &w); fstrm_iothr_options_destroy(&o); if (!io) { violation("*", "init-failed", "iothr init failed"); return; }
    ios.push_back(io); s->byq.resize(nq);
  }
  vector<int> th; u32 n = 1 + skewed(st, 60), maxlen = oneof(st, (const u32[]){60, 400, 4000});
  for (u32 q = 0; q < nq; q++) {
    for (size_t k = 0; k < L.size(); k++) { iq[q].push_back(fstrm_iothr_get_input_queue(ios[k])); if (!iq[q][k] || !qs.insert(iq[q][k]).second) violation("C28,C14", "queue-shared", "input queue %u of station %d is %s", q, L[k]->no, iq[q][k] ? "not its own" : "not available"); }
    int ps = ST_OPS + 1 + (L[0]->no * 5 + q + 1) % 22; vector<struct fstrm_iothr_queue *> mine = iq[q];
    auto produce = [=] {
      for (u32 i = 0, tot = n * (u32)L.size(); i < tot; i++) {
        u32 k = L.size() > 1 ? choose(ps, (u32)L.size()) : 0; Station *s = L[k];
        Pay *f = fresh(s, ps, maxlen); size_t ix = std::find(s->fr.begin(), s->fr.end(), f) - s->fr.begin(); if (choose(ps, 12) == 11) sim_sleep((u64)choose(ps, 2000) * MS);
        for (;;) { fstrm_res r = fstrm_iothr_submit(ios[k], mine[k], f->buf, f->d.size(), on_free, f); if (r == fstrm_res_success) { f->ok = true; s->byq[q].push_back(ix); break; } if (r != fstrm_res_again) { violation("C28", "submit-failed", "submit of a valid frame returned %d", r); return; } sim_sleep(300 * MS); }
      } };
    if (own) produce(); else th.push_back(app_thread("producer", produce));
  }
  for (int t : th) fiber_join(t);
  for (auto &io : ios) fstrm_iothr_destroy(&io);
  for (Station *s : L) for (Pay *f : s->fr) if (f->frees != 1) violation("C28,C03", "not-freed", "free callback of an accepted frame of station %d ran %d times before destroy returned", s->no, f->frees);
}
static void do_iothr(Station *s, int st) {
  vector<Station *> L{s}; L.insert(L.end(), s->also.begin(), s->also.end()); bool own = choose(st, L.size() > 1 ? 3 : 10) == 2;
  if (L.size() > 1) probe(own ? "one thread serves several I/O threads one after the other" : "the same threads serve several I/O threads");
  if (own) for (Station *l : L) run_iothrs({l}, st, true); else run_iothrs(L, st, false);
}
static void do_writer(Station *s, int st) {
  struct fstrm_writer *w = mk(s); u32 n = skewed(st, 40), maxlen = oneof(st, (const u32[]){60, 400, 4000}); bool ok = true; s->byq.resize(1); fstrm_res r = fstrm_res_success;
  if (choose(st, 3)) r = fstrm_writer_open(w); else if (!n) n = 1;
  ok = r == fstrm_res_success;
  for (u32 i = 0; ok && i < n;) {
    u32 k = choose(st, 3) == 2 ? 1 + skewed(st, 300) : 1; vector<struct iovec> v; for (u32 j = 0; j < k; j++, i++) { Pay *f = fresh(s, st, k > 20 ? 20 : maxlen); v.push_back({f->buf, f->d.size()}); s->byq[0].push_back(s->fr.size() - 1); f->ok = true; }
    void *vv = sim_malloc(k * sizeof(struct iovec)); memcpy(vv, v.data(), k * sizeof(struct iovec)); r = fstrm_writer_writev(w, (struct iovec *)vv, k); sim_free(vv); ok = r == fstrm_res_success; for (auto &e : v) sim_free(e.iov_base);
    if (choose(st, 20) == 19) sim_sleep((u64)choose(st, 500) * MS);
  }
  const struct fstrm_control *cc = nullptr; struct fstrm_control *c = nullptr; (void)cc;
  if (ok && s->tr != 2 && s->tr != 4) { const uint8_t *t; size_t l, k = 0; if (fstrm_writer_get_control(w, FSTRM_CONTROL_READY, &c) != fstrm_res_success || fstrm_control_get_num_field_content_type(c, &k) != fstrm_res_success || k != 1 || fstrm_control_get_field_content_type(c, 0, &t, &l) != fstrm_res_success || string((const char *)t, l) != s->ct) violation("C28,C10", "wrong-control", "the READY frame a writer reports is not its own"); }
  fstrm_res cr = fstrm_writer_close(w); EV(601, s->no, cr, "station %d: writes %s, close returned %d", s->no, ok ? "succeeded" : "failed", cr);
  if (s->healthy && (!ok || cr != fstrm_res_success)) violation("C28,C09", "healthy-failed", "%s of station %d returned %d on a transport that did not fail", ok ? "close" : "a write", s->no, ok ? cr : r);
  fstrm_writer_destroy(&w);
}
// ---- reader fed through an application transport
static fstrm_res r_open(void *o) { Station *s = (Station *)o; s->open = true; s->pos = 0; return fstrm_res_success; }
static fstrm_res r_close(void *o) { Station *s = (Station *)o; if (!s->open) violation("C28,C13", "double-close", "transport of station %d closed while not open", s->no); s->open = false; return fstrm_res_success; }
static fstrm_res r_read(void *o, void *d, size_t n) {
  Station *s = (Station *)o; heap_check(d, n, true, "read method"); size_t k = 0; if (!s->open) violation("C28,C13", "io-after-close", "read on a closed transport");
  while (k < n) { size_t g = std::min<size_t>(n - k, s->chunk ? 1 + choose(ST_NET, s->chunk) : n); g = std::min(g, s->in.size() - s->pos); if (!g) return fstrm_res_stop; memcpy((char *)d + k, s->in.data() + s->pos, g); s->pos += g; k += g; yield_point(); if (s->chunk && chance(ST_NET, 1, 10)) sim_sleep(choose(ST_NET, 1000) * US); }
  return fstrm_res_success;
}
static fstrm_res r_write(void *o, const struct iovec *v, int n) { Station *s = (Station *)o; for (int i = 0; i < n; i++) { heap_check(v[i].iov_base, v[i].iov_len, false, "write method"); s->out.append((const char *)v[i].iov_base, v[i].iov_len); yield_point(); } return fstrm_res_success; }
static void read_all(Station *s, int st, struct fstrm_reader *r, const vector<string> &want, bool stop, const char *tags) {
  size_t i = 0; fstrm_res q = fstrm_res_success; if (choose(st, 2)) q = fstrm_reader_open(r);
  if (q != fstrm_res_success) { violation(tags, "healthy-failed", "open of the reader of station %d returned %d on a well-formed stream", s->no, q); return; }
  const struct fstrm_control *c; size_t k = 0; const uint8_t *t; size_t l; if (fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c) != fstrm_res_success || fstrm_control_get_num_field_content_type(c, &k) != fstrm_res_success || k != 1 || fstrm_control_get_field_content_type(c, 0, &t, &l) != fstrm_res_success || string((const char *)t, l) != s->ct) violation(tags, "wrong-control", "the START frame the reader of station %d reports is not its stream's", s->no);
  for (;;) {
    const uint8_t *d = nullptr; size_t n = 0; q = fstrm_reader_read(r, &d, &n); if (q != fstrm_res_success) break; heap_check(d, n, false, "frame returned by read"); yield_point();
    if (i >= want.size() || n != want[i].size() || memcmp(d, want[i].data(), n)) { fatal_violation(tags, "wrong-frame", "reader of station %d returned %s as frame %zu of %zu%s", s->no, w_brief(string((const char *)d, n)).c_str(), i, want.size(), i < want.size() ? (", expected " + w_brief(want[i])).c_str() : ""); }
    i++;
  }
  if (i != want.size() || q != fstrm_res_stop) violation(tags, "frames-missing", "reader of station %d returned %zu of %zu frames and then %d", s->no, i, want.size(), q);
  if (stop && fstrm_reader_close(r) != fstrm_res_success) violation(tags, "healthy-failed", "close of the reader of station %d failed after STOP", s->no);
}
static void do_reader(Station *s, int st) {
  vector<string> want; bool bidir = s->tr != 4; if (bidir) s->in = w_control(CT_READY, {"x-first", s->ct}); s->in += w_control(CT_START, {s->ct}); u32 n = skewed(st, 60); for (u32 i = 0; i < n; i++) { want.push_back(pattern(g_id++, draw_len(choose(st, 8) ? 300 : 6000, st))); s->in += w_data(want.back()); } s->in += w_control(CT_STOP, {});
  struct fstrm_reader_options *ro = fstrm_reader_options_init(); fstrm_reader_options_add_content_type(ro, s->ct.data(), s->ct.size());
  struct fstrm_rdwr *rw = fstrm_rdwr_init(s); fstrm_rdwr_set_open(rw, r_open); fstrm_rdwr_set_close(rw, r_close); fstrm_rdwr_set_read(rw, r_read); if (bidir) fstrm_rdwr_set_write(rw, r_write);
  struct fstrm_reader *r = fstrm_reader_init(ro, &rw); fstrm_reader_options_destroy(&ro); read_all(s, st, r, want, true, "C28,C11,C16"); fstrm_reader_destroy(&r);
  if (bidir && s->out != w_control(CT_ACCEPT, {s->ct}) + w_control(CT_FINISH, {})) violation("C28,C16", "wrong-answers", "the reader of station %d answered with other than its ACCEPT and FINISH:%s", s->no, w_describe(w_parse(s->out)).c_str());
}
static void do_round(Station *s, int st) {
  for (s->rounds = 1 + choose(st, 3); s->rounds; s->rounds--) {
    struct fstrm_writer *w = mk(s); u32 n = skewed(st, 40); vector<string> want; fstrm_res r = fstrm_writer_open(w);
    for (u32 i = 0; i < n && r == fstrm_res_success; i++) { want.push_back(pattern(g_id++, draw_len(choose(st, 8) ? 300 : 6000, st))); void *b = simbuf(want.back()); r = fstrm_writer_write(w, b, want.back().size()); sim_free(b); }
    fstrm_res c = fstrm_writer_close(w); fstrm_writer_destroy(&w); if (r != fstrm_res_success || c != fstrm_res_success) { violation("C28,C12", "healthy-failed", "file writer of station %d failed on a healthy disk (%d, close %d)", s->no, r, c); return; }
    s->model = w_control(CT_START, {s->ct}); for (auto &d : want) s->model += w_data(d); s->model += w_control(CT_STOP, {}); Inode *f = inode_get(s->path, false); if (!f || f->data != s->model) violation("C28,C12", "wrong-file", "the file of station %d does not hold its stream:%s", s->no, f ? w_describe(w_parse(f->data)).c_str() : " none");
    auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, s->path.c_str()); struct fstrm_reader *rd = fstrm_file_reader_init(o, nullptr); fstrm_file_options_destroy(&o); read_all(s, st, rd, want, true, "C28,C12"); fstrm_reader_destroy(&rd);
  }
}
static void judge(Station *s) { // what an I/O thread or a writer has sent
  vector<string> outs; bool bidir = s->tr != 2 && s->tr != 4;
  if (s->srv) for (PeerLog *l : s->srv->logs) outs.push_back(l->c->a.sent); else if (s->tr == 2) { Inode *f = inode_get(s->path, false); if (f) outs.push_back(f->data); } else for (MemSess *m : s->mem->s) outs.push_back(m->out);
  if (s->healthy && outs.size() != 1) violation("C28,C02", "sessions", "station %d opened its healthy transport %zu times", s->no, outs.size());
  std::map<string, std::pair<size_t, size_t>> by; for (size_t q = 0; q < s->byq.size(); q++) for (size_t i = 0; i < s->byq[q].size(); i++) by[s->fr[s->byq[q][i]]->d] = {q, i}; vector<size_t> next(s->byq.size(), 0); size_t total = 0;
  for (auto &b : outs) {
    WStream ws = w_writer_stream(b, bidir); if (!ws.err.empty()) violation("C28,C01,C02,C08", "malformed-stream", "station %d (%s): %s; stream:%s", s->no, kn[s->kind], ws.err.c_str(), w_describe(w_parse(b)).c_str());
    if ((ws.ready && ws.ready_cts != vector<string>{s->ct}) || (ws.start && ws.start_cts != vector<string>{s->ct})) violation("C28,C10", "wrong-content-type", "station %d offered or announced a content type that is not its own", s->no);
    for (auto &d : ws.frames) { auto it = by.find(d); if (it == by.end()) { violation("C28,C01", "foreign-frame", "station %d (%s) sent %s, which is none of its frames", s->no, kn[s->kind], w_brief(d).c_str()); continue; } auto [q, i] = it->second; if (i < next[q] || (s->healthy && i > next[q])) violation("C28,C01", "misplaced-frame", "station %d sent frame %zu of queue %zu after frame %zu", s->no, i, q, next[q]); next[q] = i + 1; total++; }
    if (s->healthy && !ws.stop) violation("C28,C02", "frames-missing", "the output of station %d does not end with STOP", s->no);
  }
  if (s->healthy && total != s->fr.size()) violation("C28,C02", "frames-missing", "station %d sent %zu of %zu frames", s->no, total, s->fr.size());
}
void scen_multi() {
  vector<Station *> *x = X = new vector<Station *>; g_id = 0; int st = ST_CFG; draw_sched_cfg(); C.sync_pct = std::max<u32>(C.sync_pct, 10); u32 n = 2 + choose(st, 3); bool faults = choose(st, 4) == 3;
  C.sockbuf = oneof(st, (const u32[]){65536, 100, 3000}); C.p_short_send = oneof(st, (const u32[]){0, 50, 500}); C.p_short_read = oneof(st, (const u32[]){0, 200}); C.p_eintr = oneof(st, (const u32[]){0, 0, 100}); C.stdio_buf = oneof(st, (const u32[]){0, 64, 1000}); C.net_delay_max_ns = oneof(st, (const u64[]){0, MS, 100 * MS}); C.p_spurious = oneof(st, (const u32[]){0, 0, 200});
  u32 same = choose(st, 3) == 2 ? 1 + choose(st, K_NKINDS) : 0;
  for (u32 i = 0; i < n; i++) {
    Station *s = new Station; s->no = i; s->kind = same ? same - 1 : choose(st, K_NKINDS); s->tr = s->kind == K_ROUND ? 2 : s->kind == K_READER ? 3 + choose(st, 2) : choose(st, 5); s->ct = strf("proto:%u", i) + string(choose(st, 6) == 5 ? 200 : choose(st, 8), 'a' + i); s->healthy = !faults || s->tr == 2 || s->kind == K_READER || choose(st, 2); s->chunk = oneof(st, (const u32[]){0, 3, 40, 1000});
    vector<PeerB> plan; if (!s->healthy) for (u32 k = 1 + choose(st, 3); k; k--) plan.push_back(draw_peer(false, {s->ct}, 2 * NS)); PeerB rest = draw_peer(true, {s->ct}, choose(st, 2) ? 2 * NS : 0); rest.cts.clear();
    s->path = strf("/sock%u", i); if (s->tr == 2) s->path = strf("/out%u.fstrm", i); s->addr = i & 1 ? "::1" : "127.0.0.1"; s->port = strf("%u", 5000 + i); s->key = s->tr == 0 ? "unix:" + s->path : "tcp:" + s->addr + ":" + s->port;
    if (s->kind <= K_WRITER && s->tr <= 1) { s->srv = start_server(s->key, s->tr == 1, plan, rest); s->srv->lis->maxbacklog = 5; }
    if (s->kind <= K_WRITER && s->tr >= 3) { MemT *m = s->mem = new MemT; m->bidir = s->tr == 3; m->plan = plan; m->rest = rest; m->p_delay = oneof(st, (const u32[]){0, 200, 500}); m->delay_max = oneof(st, (const u64[]){MS, 500 * MS}); }
    if (s->kind == K_IOTHR && s->srv) for (auto &b : s->srv->plan) b.cts = {s->ct};
    x->push_back(s);
  }
  for (Station *s : *x) if (s->kind == K_IOTHR && !s->owned) for (Station *t : *x) if (t->no > s->no && t->kind == K_IOTHR && !t->owned && choose(st, 2)) { t->owned = true; s->also.push_back(t); }
  run_app("app", [x](Proc *p) {
    u64 mark = heap_mark(); vector<int> th;
    for (Station *s : *x) if (!s->owned) th.push_back(app_thread("station", [s] { int so = ST_OPS + 1 + s->no * 5 % 22; if (choose(so, 4) == 3) sim_sleep((u64)choose(so, 3000) * MS); switch (s->kind) { case K_IOTHR: do_iothr(s, so); break; case K_WRITER: do_writer(s, so); break; case K_READER: do_reader(s, so); break; default: do_round(s, so); } EV(600, s->no, s->kind, "station %d (%s) done", s->no, kn[s->kind]); }));
    for (int t : th) fiber_join(t);
    NoFaults nf; size_t k; string lk = heap_leaks_since(mark, &k); if (k) violation("C28,C13", "leak", "%zu heap blocks still allocated after all objects were destroyed:%s", k, lk.c_str());
    if (proc_open_fds(p) || proc_open_files(p)) violation("C28,C13", "descriptor-leak", "%d descriptors and %d streams still open after all objects were destroyed", proc_open_fds(p), proc_open_files(p));
    if (p->n_ebadf_close) violation("C28,C13", "double-close", "%llu closes of unopened descriptors", (unsigned long long)p->n_ebadf_close);
  });
  NoFaults nf; for (Station *s : *x) { if (s->srv) for (size_t i = 1; i < s->srv->fibers.size(); i++) fiber_join(s->srv->fibers[i]); if (s->kind <= K_WRITER) judge(s); if (s->mem && (s->mem->is_open || s->mem->destroyed != 1)) violation("C28,C13", "not-destroyed", "the transport of station %d was left open or destroyed %d times", s->no, s->mem->destroyed); }
  probe_n("objects used at the same time", n);
}
