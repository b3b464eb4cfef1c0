// The whole chain: applications with real I/O threads log over a socket to the real fstrm_capture, whose output
// files are then read back with the real reader, fstrm_dump and fstrm_replay (into a scripted server or another
// real fstrm_capture). Capture may be restarted or killed, applications may die, connections may fail. Property C30.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <map>
#include <set>
#include <signal.h>
#include <time.h>
extern "C" int capture_main(int, char **); extern "C" int capture2_main(int, char **); extern "C" int capture3_main(int, char **);
extern "C" int replay_main(int, char **); extern "C" int dump_main(int, char **);
namespace {
struct App; struct Fr { App *a; int prod, seq; string d; void *buf; bool tried = false, acc = false; int frees = 0; u64 t_sub = 0; bool over = false; };
struct App { int no; Proc *p = nullptr; int fib = -1; bool foreign = false, huge = false, killed = false, done = false, busy = true; vector<string> cts; u32 nq = 1, nprod = 1, n = 0; u64 start = 0; vector<Fr *> fr; u32 flush = 1, reopen = 5; };
struct Inst { Proc *p; bool term_sent = false, started = false; };
struct Seg { Inode *ino; size_t g; Inst *i; string name; };
struct Cn { ConnRec *c; App *a = nullptr; Inst *i = nullptr; };
struct E {
  string key, path, addr, port, ct, fname; bool tcp = false, moved = false, local = false; size_t B = 262144; u32 N = 0, split = 0, maxlen = 300; vector<App *> apps; vector<Inst *> inst; vector<Seg> segs; std::map<ConnRec *, Cn *> cn; vector<Cn *> cns;
  vector<string> args; bool ending = false, noisy = false, crash = false, appcrash = false, late = false; u64 restart_delay = 0; u32 kill_n = 0; int kill_how = 0; u64 stop_at = 0; Inode *sent_to = nullptr;
};
}
static E *X;
static void on_free(void *d, void *fd) { Fr *f = (Fr *)fd; if (d != f->buf || f->frees++) violation("C30", "freed-twice", "free callback of a frame ran %s", d != f->buf ? "with another pointer" : "twice"); else sim_free(d); }
static Inst *cur_inst() { return X->inst.empty() ? nullptr : X->inst.back(); }
static bool up() { Inst *i = cur_inst(); return i && !i->p->exited && i->p->n_polls > 0; }
static void launch() {
  E *x = X; static const main_fn mains[] = {capture_main, capture2_main, capture3_main}; if (x->inst.size() >= 2) harness_bug("third capture");
  Inst *i = new Inst; i->p = proc_new("capture"); x->inst.push_back(i); EV(700, x->inst.size(), 0, "capture number %zu starts", x->inst.size());
  K.kill_proc = i->p; proc_run(i->p, mains[x->inst.size() - 1], x->args);
  if (x->inst.size() == 1 && x->kill_n) { if (x->kill_how == 1) K.kill_at_syscall = 60 + x->kill_n; else if (x->kill_how == 2) K.kill_at_write = 1 + x->kill_n % 40; }
}
// ---- an application
static struct fstrm_writer *mk_writer(App *a) {
  E *x = X; struct fstrm_writer_options *wo = nullptr; struct fstrm_writer *w;
  if (a->cts.size() || choose(ST_CFG, 2)) { wo = fstrm_writer_options_init(); for (auto &c : a->cts) fstrm_writer_options_add_content_type(wo, c.data(), c.size()); }
  if (x->tcp) { auto *o = fstrm_tcp_writer_options_init(); fstrm_tcp_writer_options_set_socket_address(o, x->addr.c_str()); fstrm_tcp_writer_options_set_socket_port(o, x->port.c_str()); w = fstrm_tcp_writer_init(o, wo); fstrm_tcp_writer_options_destroy(&o); }
  else { auto *o = fstrm_unix_writer_options_init(); fstrm_unix_writer_options_set_socket_path(o, x->path.c_str()); w = fstrm_unix_writer_init(o, wo); fstrm_unix_writer_options_destroy(&o); }
  if (wo) fstrm_writer_options_destroy(&wo); if (!w) violation("*", "init-failed", "writer init failed"); return w;
}
static u32 next_id;
static void producer(App *a, u32 prod, struct fstrm_iothr *io, struct fstrm_iothr_queue *q, int st) {
  E *x = X; u32 style = choose(st, 4); u32 n = 1 + skewed(st, a->n);
  if (a->huge && prod == 0) n = std::min<u32>(n, 6); if (a->n > 300) { style = 3; n = a->n - choose(st, 200); }
  for (u32 s = 0; s < n; s++) {
    Fr *f = new Fr; f->a = a; f->prod = prod; f->seq = s; size_t l = draw_len((u32)std::max<size_t>(std::min<size_t>(x->maxlen, x->B - 4), 6), st);
    if (x->B <= 4000 && choose(st, 12) == 11) l = x->B - 4 - 2 + choose(st, 4); // around the largest frame capture takes
    if (a->huge && prod == 0) l = choose(st, 3) == 2 ? x->B - 4 - choose(st, 3) : 5000 + skewed(st, 200000);
    f->over = l + 4 > x->B; f->d = pattern(next_id++, l); f->buf = simbuf(f->d); a->fr.push_back(f); f->tried = true;
    for (;;) { f->t_sub = now_ns(); fstrm_res r = fstrm_iothr_submit(io, q, f->buf, l, on_free, f); if (r == fstrm_res_success) { f->acc = true; break; } if (r != fstrm_res_again) { violation("C30", "submit-failed", "submit of a valid frame returned %d", r); return; } sim_sleep((u64)(100 + choose(st, 400)) * MS); }
    if (style == 0 ? choose(st, 8) == 7 : style == 1 ? choose(st, 2) : false) sim_sleep(choose(st, 5) ? (u64)skewed(st, 400) * MS : (u64)choose(st, 4000) * MS);
  }
}
static void app_main(App *a) {
  sim_sleep(a->start); int st = ST_CFG; struct fstrm_writer *w = mk_writer(a); struct fstrm_iothr_options *o = fstrm_iothr_options_init(); bool mpsc = a->nprod > a->nq || choose(st, 2);
  fstrm_iothr_options_set_num_input_queues(o, a->nq); fstrm_iothr_options_set_queue_model(o, mpsc ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC);
  if (choose(st, 2)) fstrm_iothr_options_set_input_queue_size(o, oneof(st, (const u32[]){2, 8, 64, 512, 4096, 16384})); if (choose(st, 2)) fstrm_iothr_options_set_output_queue_size(o, oneof(st, (const u32[]){2, 5, 64, 200, 600, 1024})); if (choose(st, 2)) fstrm_iothr_options_set_buffer_hint(o, oneof(st, (const u32[]){1024, 8192, 65536}));
  if (choose(st, 2)) fstrm_iothr_options_set_queue_notify_threshold(o, oneof(st, (const u32[]){1, 4, 32})); fstrm_iothr_options_set_reopen_interval(o, a->reopen); fstrm_iothr_options_set_flush_timeout(o, a->flush);
  struct fstrm_iothr *io = fstrm_iothr_init(o, &w); fstrm_iothr_options_destroy(&o); if (!io) { violation("*", "init-failed", "iothr init failed"); a->busy = false; a->done = true; return; }
  vector<struct fstrm_iothr_queue *> q; for (u32 i = 0; i < a->nq; i++) q.push_back(choose(st, 2) ? fstrm_iothr_get_input_queue_idx(io, i) : nullptr); for (auto &k : q) if (!k) k = q.size() == 1 ? fstrm_iothr_get_input_queue(io) : fstrm_iothr_get_input_queue_idx(io, &k - &q[0]);
  u32 many = a->nq > 200 ? 1 + choose(st, a->nq - 1) : 0; vector<int> th; std::set<u32> used; for (u32 i = 0; i < a->nprod; i++) { int ps = ST_OPS + (a->no * 6 + i) % 22; u32 k = (many + i * (many ? 128 : 1)) % a->nq; while (!mpsc && used.count(k)) k = (k + 1) % a->nq; used.insert(k); struct fstrm_iothr_queue *iq = q[k]; th.push_back(app_thread("producer", [=] { producer(a, i, io, iq, ps); })); }
  for (int t : th) fiber_join(t); a->busy = false;
  if (X->crash && choose(st, 2)) sim_sleep((u64)choose(st, 8000) * MS);
  EV(701, a->no, 0, "application %d destroys its I/O thread", a->no); fstrm_iothr_destroy(&io); EV(702, a->no, 0, "application %d is done", a->no);
  for (Fr *f : a->fr) if (f->acc && f->frees != 1) violation("C30", "not-freed", "the free callback of an accepted frame ran %d times before destroy returned", f->frees);
  a->done = true;
}
// ---- what was sent, what was recorded
struct Rec { Fr *f; size_t seg; };
static string seg_data(const Seg &s) { return s.ino->generations.size() > s.g ? s.ino->generations[s.g] : s.ino->data; }
static bool clean(Inst *i) { return i->p->exited && !i->p->killed && i->p->exit_code == 0; }
static vector<Rec> scan(std::map<string, Fr *> &by) {
  E *x = X; vector<Rec> r; string start = w_control(CT_START, {x->ct}), stop = w_control(CT_STOP, {});
  for (size_t k = 0; k < x->segs.size(); k++) {
    Seg &s = x->segs[k]; string d = seg_data(s); bool last = k + 1 == x->segs.size() || x->segs[k + 1].i != s.i, need = !last || clean(s.i); size_t o; WItem it; string why;
    if (d.size() < start.size() && !need && start.compare(0, d.size(), d) == 0) continue;
    if (d.compare(0, start.size(), start)) { violation("C30", "bad-file", "output file %zu (%s) does not begin with START for the type", k, s.name.c_str()); continue; }
    for (o = start.size();;) {
      int z = w_one(d, o, it, &why); if (z <= 0) { if (need) violation("C30", "incomplete-file", "output file %zu (%s, %zu bytes) ends without STOP, at offset %zu of it comes %s", k, s.name.c_str(), d.size(), o, z < 0 ? why.c_str() : "half an item or nothing"); break; }
      if (it.ctl) { if (it.type != CT_STOP || it.end != d.size()) violation("C30", "bad-file", "output file %zu (%s) holds %s at offset %zu of %zu", k, s.name.c_str(), ct_name(it.type), o, d.size()); break; }
      auto f = by.find(it.data); if (f == by.end()) { violation("C30", "invented-frame", "output file %zu (%s) holds %s, which no application submitted", k, s.name.c_str(), w_brief(it.data).c_str()); } else r.push_back({f->second, k}); o = it.end;
    }
  }
  return r;
}
static void judge(vector<string> *out) {
  E *x = X; std::map<string, Fr *> by; size_t acc = 0; for (auto a : x->apps) for (auto f : a->fr) { by[f->d] = f; acc += f->acc; }
  vector<Rec> rec = scan(by); std::set<Fr *> have; std::map<Fr *, int> on; vector<WStream> ws; probe_n("frames submitted end to end", acc); probe_n("frames captured end to end", rec.size());
  for (size_t i = 0; i < x->cns.size(); i++) { Cn *c = x->cns[i]; ws.push_back(w_writer_stream(c->c->a.sent, true)); if (!c->a) continue; for (auto &d : ws[i].frames) { auto f = by.find(d); if (f != by.end()) on[f->second] = i; } if (ws[i].partial) for (auto f : c->a->fr) if (!on.count(f)) on[f] = 1000; }
  std::map<std::pair<std::pair<int, int>, int>, int> lastq;
  for (auto &r : rec) {
    Fr *f = r.f; if (f->a->foreign) violation("C30", "foreign-frame", "a frame of application %d, which offers another content type, was captured", f->a->no);
    if (f->over) violation("C30", "oversized-frame", "a frame of %zu bytes was captured with a buffer of %zu", f->d.size(), x->B);
    if (!f->acc && !f->a->killed) violation("C30", "unaccepted-frame", "frame %d of application %d was captured although its submit did not succeed", f->seq, f->a->no);
    if (!have.insert(f).second) violation("C30", "captured-twice", "frame %d of producer %d of application %d was captured twice", f->seq, f->prod, f->a->no);
    auto o = on.find(f); int c = o == on.end() ? -1 : o->second; if (c < 0) violation("C30", "never-sent", "frame %d of application %d was captured but never sent", f->seq, f->a->no);
    int &l = lastq.insert({{{f->a->no, f->prod}, c}, -1}).first->second; if (f->seq < l) violation("C30", "reordered", "frame %d of producer %d of application %d was captured after its frame %d", f->seq, f->prod, f->a->no, l); l = f->seq;
    out->push_back(f->d);
  }
  // a connection that did not fail and was confirmed delivers all that was submitted since it opened
  for (size_t i = 0; i < x->cns.size(); i++) {
    Cn *c = x->cns[i]; WStream &w = ws[i]; if (!c->a || !c->i || c->a->foreign || !clean(c->i)) continue; if (!w.err.empty()) { violation("C30", "bad-stream", "application %d sent a malformed stream: %s", c->a->no, w.err.c_str()); continue; }
    End *e = &c->c->a; string want = w_control(CT_ACCEPT, {x->ct}) + w_control(CT_FINISH, {}); bool fin = e->received >= want.size() && c->c->b.sent.compare(0, want.size(), want) == 0;
    if (!fin || !w.stop || e->err_reported || e->injected) continue;
    u64 t0 = NEVER; { WParse p = w_parse(e->sent); for (auto &it : p.items) if (it.ctl && it.type == CT_START) for (auto &s : e->sent_at) if (s.second >= it.end) { t0 = s.first; break; } }
    probe("confirmed connections judged");
    for (auto f : c->a->fr) if (f->acc && !f->over && (f->t_sub > t0 || (on.count(f) && on[f] == (int)i)) && !have.count(f)) violation("C30", "frame-lost", "frame %d of producer %d of application %d (%zu bytes) was %s but is in none of the %zu output files", f->seq, f->prod, f->a->no, f->d.size(), on.count(f) ? "confirmed with FINISH" : "submitted on a connection that never failed", x->segs.size());
  }
  if (!x->crash && !x->noisy) for (auto a : x->apps) if (!a->killed && !a->foreign && a->done) { // nothing failed
    vector<size_t> mine; for (size_t i = 0; i < x->cns.size(); i++) if (x->cns[i]->a == a) mine.push_back(i);
    if (mine.size() != 1) { if (mine.size() > 1 || !x->late) violation("C30", "reconnected", "nothing failed but application %d made %zu connections", a->no, mine.size()); continue; }
    Cn *c = x->cns[mine[0]]; string want = w_control(CT_ACCEPT, {x->ct}) + w_control(CT_FINISH, {}); if (c->c->a.received < want.size() || !ws[mine[0]].stop) violation("C30", "not-confirmed", "nothing failed but the connection of application %d ended without %s", a->no, ws[mine[0]].stop ? "FINISH" : "STOP");
    if (!x->late) for (auto f : a->fr) if (f->acc && !f->over && !have.count(f)) violation("C30", "frame-lost", "nothing failed but frame %d of producer %d of application %d (%zu bytes) is in none of the %zu output files", f->seq, f->prod, a->no, f->d.size(), x->segs.size());
    probe("applications judged complete");
  }
}
// ---- reading the files again
static void reread(const vector<string> &paths, const vector<vector<string>> &want) {
  E *x = X; run_app("reader", [&](Proc *) {
    for (size_t i = 0; i < paths.size(); i++) {
      auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, paths[i].c_str()); struct fstrm_reader_options *ro = choose(ST_CFG, 2) ? fstrm_reader_options_init() : nullptr; if (ro) fstrm_reader_options_add_content_type(ro, x->ct.data(), x->ct.size());
      struct fstrm_reader *r = fstrm_file_reader_init(o, ro); fstrm_file_options_destroy(&o); if (ro) fstrm_reader_options_destroy(&ro); size_t n = 0; fstrm_res q; const uint8_t *d; size_t l;
      while ((q = fstrm_reader_read(r, &d, &l)) == fstrm_res_success) { if (n >= want[i].size() || want[i][n] != string((const char *)d, l)) violation("C30", "read-back-differs", "the reader returns %s as frame %zu of file %zu", w_brief(string((const char *)d, l)).c_str(), n, i); n++; }
      if (q != fstrm_res_stop || n != want[i].size()) violation("C30", "read-back-differs", "the reader returned %zu of the %zu frames of file %zu and then %d", n, want[i].size(), i, q);
      if (fstrm_reader_close(r) != fstrm_res_success) violation("C30", "read-back-differs", "closing the reader failed"); fstrm_reader_destroy(&r);
    } });
  probe_n("files read back", paths.size());
}
static void redump(const string &path, const vector<string> &want) {
  Proc *p = proc_new("dump"); proc_run(p, dump_main, {"fstrm_dump", path, "/arch/dumped"}); proc_wait(p, now_ns() + 600 * NS); Inode *n = inode_get("/arch/dumped", false);
  if (!p->exited || p->exit_code) violation("C30", "dump-failed", "fstrm_dump on a file written by capture %s %d: %s", p->exited ? "exited" : "did not end", p->exit_code, p->err.c_str());
  WStream w = w_writer_stream(n ? n->data : "", false); if (!w.err.empty() || !w.stop || w.frames != want) violation("C30", "dump-differs", "fstrm_dump copied %zu of the %zu frames of a file written by capture%s", w.frames.size(), want.size(), w.stop ? "" : ", without STOP");
  probe("files dumped");
}
static void rereplay(const vector<string> &paths, const vector<string> &want) {
  E *x = X; int st = ST_CFG; bool tcp = choose(st, 3) == 2, real = choose(st, 2); string addr, port, path, key = tcp ? draw_tcp(st, &addr, &port) : "unix:" + (path = draw_unix(st, "/run/second.sock")); Server *s = nullptr; Proc *cap = nullptr; Inode *second = nullptr; if (K.listeners.count(key)) return;
  if (real) {
    cap = proc_new("capture"); vector<string> a{"fstrm_capture", "-t", x->ct, "-w", "/second/out", "-b", strf("%zu", x->B)}; if (tcp) a.insert(a.end(), {"-a", addr, "-p", port}); else a.insert(a.end(), {"-u", path});
    proc_run(cap, capture3_main, a); u64 dl = now_ns() + 60 * NS; while (!cap->exited && !cap->n_polls && now_ns() < dl) sim_sleep(MS); if (cap->exited || !cap->n_polls) { violation("C30", "second-capture", "a second capture did not start: %s", cap->err.c_str()); return; }
  } else { PeerB pb = draw_peer(true, {x->ct}, 0); s = start_server(key, tcp, {pb}, pb); }
  Proc *p = proc_new("replay"); vector<string> a{"fstrm_replay", "-t", x->ct}; if (tcp) a.insert(a.end(), {"-a", addr, "-p", port}); else a.insert(a.end(), {"-u", path}); for (auto &f : paths) { a.push_back("-r"); a.push_back(f); }
  proc_run(p, replay_main, a); proc_wait(p, now_ns() + 3000 * NS);
  if (!p->exited || p->exit_code) { violation("C30", "replay-failed", "fstrm_replay of %zu files written by capture %s %d: %s", paths.size(), p->exited ? "exited" : "did not end", p->exit_code, p->err.c_str()); }
  if (real) {
    sim_kill(cap, SIGTERM); proc_wait(cap, now_ns() + 600 * NS); second = inode_get("/second/out", false); string all = w_control(CT_START, {x->ct}); for (auto &d : want) all += w_data(d); all += w_control(CT_STOP, {});
    if (!cap->exited || cap->exit_code) violation("C30", "second-capture", "the second capture exited %d", cap->exit_code);
    if (!second || second->data != all) violation("C30", "replay-differs", "%zu frames replayed into another capture; its file holds%s", want.size(), second ? w_describe(w_parse(second->data)).c_str() : " nothing");
    probe("files replayed into a second capture");
  } else {
    WStream w = w_writer_stream(s->logs.empty() ? "" : s->logs[0]->got, true); if (s->logs.size() != 1 || !w.err.empty() || !w.stop || w.frames != want) violation("C30", "replay-differs", "fstrm_replay sent %zu of the %zu frames in the files", w.frames.size(), want.size());
    probe("files replayed to a server");
  }
}
void scen_e2e() {
  E *x = X = new E; int st = ST_CFG; draw_sched_cfg(); C.sync_pct = std::min<u32>(C.sync_pct, 30); next_id = 1; K.real_peers = true;
  x->tcp = choose(st, 3) == 2; x->key = x->tcp ? draw_tcp(st, &x->addr, &x->port) : "unix:" + (x->path = draw_unix(st, "/run/cap.sock"));
  { u32 k = choose(st, 8); x->ct = k == 7 ? string(1 + choose(st, 200), 't') : k == 6 ? "x" : "proto:test"; }
  x->B = oneof(st, (const size_t[]){262144, 262144, 600, 1000, 4000, 20000}); x->maxlen = oneof(st, (const u32[]){60, 300, 1500, 4000}); if (choose(st, 4) == 3) x->N = 1 + choose(st, 3);
  x->moved = choose(st, 2); x->fname = x->moved ? "/data/out.fstrm" : oneof(st, (const char *const[]){"/data/cap-%Y%m%d-%H%M%S.fstrm", "/data/%F-%T"}); if (!x->moved) { x->local = choose(st, 2); if (choose(st, 2)) x->split = oneof(st, (const u32[]){1, 2, 5, 60}); }
  C.net_delay_max_ns = oneof(st, (const u64[]){0, 0, MS, 100 * MS}); C.p_short_read = oneof(st, (const u32[]){0, 0, 200, 700}); C.p_short_send = oneof(st, (const u32[]){0, 0, 300}); C.sockbuf = oneof(st, (const u32[]){65536, 65536, 1000, 8000}); C.p_fshort = oneof(st, (const u32[]){0, 0, 300}); C.stdio_buf = oneof(st, (const u32[]){0, 0, 64, 700});
  if (choose(st, 6) == 5) { C.p_stall = oneof(st, (const u32[]){2, 20}); C.stall_max_ns = oneof(st, (const u64[]){10 * MS, NS}); }
  u32 sock_err = 0; u32 mode = choose(st, 8); x->crash = mode >= 6; x->appcrash = mode == 5; if (choose(st, 6) == 5) { x->noisy = true; C.p_send_err = oneof(st, (const u32[]){3, 30, 100}); C.p_recv_err = oneof(st, (const u32[]){0, 3, 30}); C.p_accept_err = oneof(st, (const u32[]){0, 100}); C.p_connect_err = oneof(st, (const u32[]){0, 100}); sock_err = oneof(st, (const u32[]){0, 100}); }
  u32 na = 1 + choose(st, 3); for (u32 i = 0; i < na; i++) {
    App *a = new App; a->no = i; x->apps.push_back(a); a->foreign = na > 1 && choose(st, 12) == 11; if (a->foreign) a->cts = {"other:type"}; else { u32 k = choose(st, 4); if (k) a->cts = k == 1 ? vector<string>{x->ct} : k == 2 ? vector<string>{"x-first", x->ct} : vector<string>{x->ct, "x-second"}; }
    a->nq = 1 + choose(st, 3); a->nprod = a->nq + (choose(st, 3) == 2 ? 1 + choose(st, 2) : 0); a->n = choose(st, 10) == 9 ? 300 : 40; a->start = choose(st, 2) ? (u64)choose(st, 2000) * MS : 0; a->reopen = oneof(st, (const u32[]){1, 2, 5}); a->flush = oneof(st, (const u32[]){1, 1, 2});
    if (x->maxlen > 300 && a->n > 40) a->n = 60;
    if (x->B == 262144 && choose(st, 40) == 39) { a->huge = true; C.sockbuf = std::max<u32>(C.sockbuf, 65536); C.p_short_send = std::min<u32>(C.p_short_send, 100); C.p_short_read = std::min<u32>(C.p_short_read, 200); probe("applications with frames of up to 256 KiB"); }
    if (choose(st, 60) == 59) { a->nq = 250 + choose(st, 60); probe("applications with over 200 queues"); }
    if (choose(st, 60) == 59) { a->n = 1000 + choose(st, 300); x->maxlen = 60; a->nprod = std::min<u32>(a->nprod, 2); C.sockbuf = std::max<u32>(C.sockbuf, 8000); probe("producers of over 1000 frames"); }
  }
  auto &a = x->args; a = {"fstrm_capture", "-t", x->ct}; if (x->tcp) a.insert(a.end(), {"-a", x->addr, "-p", x->port}); else a.insert(a.end(), {"-u", x->path}); a.insert(a.end(), {"-w", x->fname}); if (x->B != 262144 || choose(st, 2)) a.insert(a.end(), {"-b", strf("%zu", x->B)}); if (x->N) a.insert(a.end(), {"-c", strf("%u", x->N)}); if (!x->moved) a.push_back(x->local ? "--localtime" : "--gmtime"); if (x->split) a.insert(a.end(), {"-s", strf("%u", x->split)}); if (choose(st, 4) == 3) a.push_back("-dddd");
  K.on_file_open_w = [](Inode *n) { E *x = X; Inst *i = cur_inst(); if (i && cur_proc() == i->p) { x->segs.push_back({n, n->generations.size(), i, n->name}); if (x->segs.size() > 1) probe("output files"); } };
  K.on_connect = [](ConnRec *c) { E *x = X; Cn *n = new Cn; n->c = c; for (auto a : x->apps) if (a->p == cur_proc()) n->a = a; x->cn[c] = n; x->cns.push_back(n); };
  K.on_accept = [](ConnRec *c) { E *x = X; for (auto i : x->inst) if (i->p == cur_proc() && x->cn.count(c)) x->cn[c]->i = i; };
  if (mode == 6) { x->kill_how = 1 + choose(st, 2); x->kill_n = 1 + skewed(st, 600); } else if (mode == 7) x->stop_at = 300 * MS + (u64)skewed(st, 8000) * MS; x->restart_delay = (u64)skewed(st, 6000) * MS;
  x->late = choose(st, 6) == 5; if (x->late && !x->tcp && choose(st, 2)) inode_get(x->path, true)->is_socket = true;
  if (!x->late) { launch(); while (!up() && !cur_inst()->p->exited) sim_sleep(MS); if (!up() && !x->crash) { violation("C30", "capture-failed", "capture did not start: %s", cur_inst()->p->err.c_str()); return; } }
  for (auto a : x->apps) { a->p = proc_new("app"); a->p->is_app = true; a->fib = fiber_spawn("app", [a] { stdio_init(a->p); app_main(a); }, a->p); a->p->main_fiber = a->fib; }
  if (!x->late && !x->crash) C.p_socket_err = sock_err; if (x->late) { sim_sleep((u64)skewed(st, 5000) * MS); launch(); }
  // the operator: rotations, restarts, and things that die
  u64 t_begin = now_ns(); u32 nsig = choose(st, 2) ? choose(st, 6) : 0; struct Ev { u64 t; int k; }; vector<Ev> evs; for (u32 i = 0; i < nsig; i++) evs.push_back({t_begin + (u64)skewed(st, 9000) * MS + choose(st, 1000) * US, choose(st, 3) == 2 ? 1 : 0});
  if (x->appcrash) evs.push_back({t_begin + (u64)skewed(st, 5000) * MS + choose(st, 1000) * US, 2}); if (mode == 7) evs.push_back({t_begin + x->stop_at, 3}); if (choose(st, 10) == 9) evs.push_back({t_begin + (u64)choose(st, 5000) * MS, 4});
  std::sort(evs.begin(), evs.end(), [](const Ev &p, const Ev &q) { return p.t < q.t; });
  int op = fiber_spawn("operator", [x, evs, t_begin] {
    u64 sec = 0; size_t i = 0; u64 restart = NEVER;
    while (!x->ending) {
      u64 t = now_ns(); Inst *c = cur_inst();
      if (x->crash && c && c->p->exited && x->inst.size() < 2) { if (restart == NEVER) { restart = t + x->restart_delay; fault_fired(c->p->killed ? "capture is killed" : "capture is stopped and started again"); } else if (t >= restart) { launch(); restart = NEVER; continue; } }
      if (i < evs.size() && t >= evs[i].t) {
        int k = evs[i++].k; 
        if (k == 0 && up() && !c->term_sent) { if (x->moved) { auto it = K.fs.find(x->fname); if (it != K.fs.end()) { Inode *n = it->second; K.fs.erase(it); K.fs[strf("%s.%llu", x->fname.c_str(), (unsigned long long)n->id)] = n; } } sec = t; sim_kill(c->p, SIGUSR1); }
        else if (k == 1 && up() && !c->term_sent) sim_kill(c->p, SIGHUP);
        else if (k == 2) { App *a = x->apps[choose(ST_ENV, x->apps.size())]; if (!a->done) { a->killed = true; fault_fired("application killed"); proc_kill9(a->p); } }
        else if (k == 3 && up() && x->inst.size() < 2) { c->term_sent = true; sim_kill(c->p, SIGTERM); }
        else if (k == 4) { fault_fired("wall clock jump"); real_jump(((i64)choose(ST_ENV, 200) - 100) * (i64)NS + 1); }
        continue;
      }
      u64 next = t + 20 * MS; if (i < evs.size()) next = std::min(next, evs[i].t); sim_sleep(next - t);
    } }, nullptr);
  // everybody is done
  u64 busy_until = now_ns() + 40000 * NS, dl = 0; for (;;) { bool all = true, busy = false; for (auto a : x->apps) if (!a->done && !a->killed) { all = false; busy |= a->busy; } if (all) break; if (!dl && !busy) dl = now_ns() + 2000 * NS; if (now_ns() > busy_until || (dl && now_ns() > dl)) { violation("C30", "not-ending", "an application is still %s after %.0f s", busy ? "submitting" : "in fstrm_iothr_destroy", (now_ns() - t_begin) / 1e9); break; } sim_sleep(20 * MS); }
  x->ending = true; fiber_join(op); K.kill_at_syscall = K.kill_at_write = 0;
  if (choose(st, 2)) sim_sleep((u64)choose(st, 1500) * MS);
  Inst *c = cur_inst(); if (!c) { launch(); c = cur_inst(); } { u64 l = now_ns() + 60 * NS; while (!c->p->exited && !c->p->n_polls && now_ns() < l) sim_sleep(MS); }
  if (!c->p->exited) { int sg = choose(st, 2) ? SIGINT : SIGTERM; c->term_sent = true; sim_kill(c->p, sg); proc_wait(c->p, now_ns() + 600 * NS); }
  for (auto i : x->inst) if (!i->p->exited || (!i->p->killed && i->p->exit_code) || (i->p->killed && !x->crash)) violation("C30", "capture-failed", "capture %s %d: %s", i->p->exited ? i->p->killed ? "was ended by a signal," : "exited" : "does not end", i->p->exit_code, i->p->err.size() > 300 ? i->p->err.c_str() + i->p->err.size() - 300 : i->p->err.c_str());
  vector<string> got; judge(&got);
  // the way back
  C.p_send_err = C.p_recv_err = C.p_accept_err = C.p_connect_err = C.p_socket_err = 0; { size_t b = 0; for (auto &d : got) b += d.size(); if (b > 200000) { C.sockbuf = 65536; C.p_short_read = C.p_short_send = 0; C.net_delay_max_ns = 0; C.p_stall = 0; C.stdio_buf = 0; C.p_fshort = 0; } if (b > 12000000) { probe("too much data to replay"); return; } } K.on_file_open_w = nullptr; K.on_connect = K.on_accept = nullptr; vector<string> paths, all; vector<vector<string>> want;
  for (size_t k = 0; k < x->segs.size(); k++) { string d = seg_data(x->segs[k]); WStream w = w_writer_stream(d, false); if (!w.err.empty() || !w.stop) continue; paths.push_back(strf("/arch/%zu", k)); inode_put(paths.back(), d); want.push_back(w.frames); all.insert(all.end(), w.frames.begin(), w.frames.end()); }
  if (paths.empty()) return;
  u32 back = choose(st, 8); if (back & 1) reread(paths, want); if (back & 2) { u32 i = choose(st, paths.size()); size_t b = 0; for (auto &d : want[i]) b += d.size(); if (b < 400000) redump(paths[i], want[i]); } if (back & 4 && paths.size() <= 60) rereplay(paths, all);
}
