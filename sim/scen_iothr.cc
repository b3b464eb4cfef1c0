// The asynchronous writer (fstrm_iothr): producers, I/O thread, transport, peer.
// Properties C01 - C08.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <set>
#include <unordered_map>

struct Fr { int id, prod, queue, seqno; string payload; void *buf; bool accepted = false; u64 t_sub = 0, t_ret = 0, s_sub = 0, s_ret = 0; int frees = 0; u64 free_seq = 0; int freekind = 0; };
struct QState { int idx; struct fstrm_iothr_queue *q; vector<Fr *> frames; };
struct Out { string kind; string bytes; vector<std::pair<u64, size_t>> at; u64 start_seq = 0, open_seq = 0, t_start = 0; bool errored = false; bool healthy_peer = false; };

namespace {
struct Ctx {
  bool defaults = false, many = false, flap = false; std::set<string> used;
  u32 model, nq, nprod, iqsz, oqsz, bufhint, flush, thresh, reopen; int transport; bool healthy, instant, hold;
  vector<string> cts; vector<Fr *> frames; vector<QState> qs; MemT *mem = nullptr; Server *srv = nullptr; string path; struct fstrm_iothr *io = nullptr; int iofib = -1;
  u64 mark; u64 destroy_start = 0, destroy_end = 0, destroy_seq = 0, io_start = 0; u64 destroy_blocked = 0; vector<std::pair<string, u64>> gens;
  string addr, port, key; vector<Out> outs; vector<u64> file_attempts; u32 giveup = 0;
};
static Ctx *X;
}
static void on_free(void *data, void *fd) {
  Fr *f = (Fr *)fd; 
  if (data != f->buf) violation("C03", "free-wrong-data", "free callback of frame %d called with another data pointer", f->id);
  if (f->frees++) { violation("C03", "freed-twice", "free callback of frame %d ran twice", f->id); return; }
  f->free_seq = gseq(); EV(210, f->id, 0, "free callback for frame %d", f->id);
  if (memcmp(data, f->payload.data(), f->payload.size())) violation("C03", "payload-modified", "payload of frame %d was modified by the library", f->id);
  sim_free(data);
}
// Frames accepted and not yet freed: what the queues and the output buffer may hold, and one in hand per queue.
// What the I/O thread had certainly taken over when it went to sleep fits the output buffer's limits.
static void held_check() {
  Ctx *x = X; size_t held = 0, cap = (size_t)x->nq * (x->iqsz - 1) + x->oqsz + x->nq + 1, taken = 0, bytes = 0, big = 0; u64 w = fiber_blocked_since(x->iofib, "condition variable") ? fiber_woke(x->iofib) : 0;
  for (Fr *f : x->frames) if (f->accepted && f->freekind == 0 && !f->frees) { held++; if (f->s_ret < w) { taken++; bytes += 4 + f->payload.size(); big = std::max(big, 4 + f->payload.size()); } }
  if (held > cap) violation("C25", "holds-too-many", "%zu accepted frames are held; %u queues of %u and %u entries of output allow for %zu", held, x->nq, x->iqsz - 1, x->oqsz, cap);
  if (taken > x->oqsz) violation("C25", "output-queue-overrun", "the I/O thread sleeps on %zu frames it has taken; output_queue_size is %u", taken, x->oqsz);
  if (taken > 1 && bytes - big >= x->bufhint) violation("C25", "not-flushed-at-hint", "the I/O thread sleeps on %zu frames of %zu bytes it has taken; buffer_hint is %u", taken, bytes, x->bufhint);
  if (w && taken) probe("output buffer inspected while the I/O thread sleeps");
}
static void note_submit_ok(Fr *f) { f->accepted = true; X->qs[f->queue].frames.push_back(f); }

static void do_submit(QState &q, int prod, int &seqno, u32 maxlen, bool keep_trying, int st) {
  Ctx *x = X; size_t len = draw_len(maxlen, st);
  Fr *f = new Fr; f->id = x->frames.size(); f->prod = prod; f->queue = q.idx; f->seqno = seqno++; f->payload = pattern(f->id, len);
  if (choose(st, 10) == 9) { u32 l = 1 + choose(st, 4); string s(l, '\0'); for (u32 i = 0; i < l; i++) s[i] = (char)(f->id >> (8 * i)); if (!x->used.count(s)) { f->payload = s; len = l; probe("frame of 1 to 4 bytes"); } }
  x->used.insert(f->payload); f->buf = simbuf(f->payload);
  u32 fk = choose(st, 16); f->freekind = fk == 15 ? 1 : fk == 14 ? 2 : 0;
  x->frames.push_back(f);
  u64 first = now_ns(), blocked0 = x->iofib >= 0 ? fiber_blocked_ns(x->iofib) : 0;
  size_t prog = q.frames.size();
  for (int attempt = 0;; attempt++) {
    // what can be in the queue at most while this call runs
    size_t freed_before = 0; for (Fr *g : q.frames) if (g->free_seq) freed_before++;
    f->t_sub = now_ns(); f->s_sub = gseq();
    EV(211, f->id, q.idx, "producer %d submits frame %d (%zu bytes) to queue %d", prod, f->id, len, q.idx);
    // count it as possibly in the queue from here on: another thread may already see its free
    fstrm_res r = fstrm_iothr_submit(x->io, q.q, f->buf, len, f->freekind == 1 ? nullptr : f->freekind == 2 ? fstrm_free_wrapper : on_free, f->freekind == 0 ? f : nullptr);
    f->t_ret = now_ns(); f->s_ret = gseq(); EV(212, f->id, r, "submit of frame %d returns %d", f->id, r);
    if (f->t_ret > f->t_sub + MS) violation("C04", "submit-waits", "submit took %.3f simulated seconds", (f->t_ret - f->t_sub) / 1e9);
    if (r == fstrm_res_success) {
      note_submit_ok(f); held_check();
      u64 w = fiber_blocked_since(x->iofib, "condition variable"); size_t since = 0; if (w) for (auto g = q.frames.rbegin(); g != q.frames.rend() && (*g)->s_ret >= w; g++) since += (*g)->s_sub >= w;
      if (w && since >= x->iqsz - 1) { if (x->thresh + 2 <= x->iqsz) violation("C04", "full-queue-not-woken", "queue %d was filled with %zu frames while the I/O thread slept, and it still sleeps (threshold %u)", q.idx, since, x->thresh); else probe("queue filled below an unreachable threshold"); }
      return;
    }
    if (f->frees) violation("C03", "freed-not-accepted", "free callback ran although submit returned %d", r);
    if (r != fstrm_res_again) violation("C04", "submit-failed", "submit of a valid frame of %zu bytes returned %d before destroy", len, r);
    if (f->freekind != 1 && !heap_is_live(f->buf)) violation("C03", "freed-not-accepted", "payload freed although submit returned 'again'");
    probe("submit returned again");
    size_t ins = q.frames.size(); // successful so far; plus those in progress by other producers
    size_t inprog = x->model == 0 ? 0 : x->nprod; size_t cap = x->iqsz - 1;
    if (ins + inprog < freed_before + cap)
      violation("C04", "again-not-full", "submit returned 'again' although queue %d held at most %zu of %zu frames (accepted %zu, already freed %zu)", q.idx, ins + inprog - freed_before, cap, ins, freed_before);
    if (!keep_trying && choose(st, 2)) { probe("frame dropped by producer"); sim_free(f->buf); f->buf = nullptr; return; }
    if (attempt > 3000) discard_run("too many retries");
    if (q.frames.size() != prog) { prog = q.frames.size(); first = now_ns(); blocked0 = fiber_blocked_ns(x->iofib); } // another producer got in
    u64 waited = now_ns() - first, blocked = (x->iofib >= 0 ? fiber_blocked_ns(x->iofib) : 0) - blocked0;
    if (waited > blocked + (2 * x->flush + 3) * NS) violation("C04,C07", "queue-stuck", "queue %d stayed full for %.1f s while the I/O thread was blocked in its transport for only %.1f s", q.idx, waited / 1e9, blocked / 1e9);
    sim_sleep(x->flush * NS / 3 + (u64)choose(st, 100) * MS);
  }
}
static void producer(int prod, int qi, u32 nops, int st) {
  Ctx *x = X; QState &q = x->qs[qi]; int seqno = 0; u32 maxlen = oneof(st, (const u32[]){80, 300, 1500, 5000, 70000}); bool keep = choose(st, 3) != 2 || x->healthy;
  u32 style = choose(st, 4); if (x->many) { maxlen = oneof(st, (const u32[]){6, 12, 30}); style = style == 0 ? 4 : 3; } if (x->flap) style = 5;
  for (u32 i = 0; i < nops; i++) {
    u32 k = choose(st, 20);
    if (k == 19) { // invalid submits must have no effect
      static char b[4] = "zz"; u32 w = choose(st, 4); size_t len = w == 0 ? 0 : w == 1 ? (size_t)UINT32_MAX : w == 2 ? 5 : (size_t)UINT32_MAX + 17; Fr *d = new Fr; d->id = -1; d->buf = nullptr;
      u64 t = now_ns();
      fstrm_res r = fstrm_iothr_submit(x->io, q.q, w == 2 ? nullptr : (void *)b, len, [](void *, void *) { violation("C03,C04", "freed-not-accepted", "free callback ran for a submit that was rejected"); }, nullptr);
      if (r != fstrm_res_invalid) violation("C04", "invalid-accepted", "submit of %s with length %zu returned %d instead of 'invalid'", w == 2 ? "NULL" : "data", len, r);
      if (now_ns() > t + MS) violation("C04", "submit-waits", "invalid submit took time");
      continue;
    }
    if (style == 5) sim_sleep((u64)choose(st, 1400) * MS * (x->reopen + 1)); else if (style == 4 ? k == 0 && choose(st, 40) == 0 : style == 0 ? k < 2 : style == 1 ? k < 8 : style == 2 ? k < 14 : false) {
      u64 d = style == 2 ? (u64)choose(st, 1000) * x->flush * NS / 700 : choose(st, 4) == 0 ? (u64)choose(st, 3000) * MS : (u64)skewed(st, 200000) * US;
      sim_sleep(d);
    }
    do_submit(q, prod, seqno, maxlen, keep, st);
  }
}
static struct fstrm_writer *mk_writer(Ctx *x) {
  struct fstrm_writer_options *wo = nullptr; struct fstrm_writer *w = nullptr;
  if (!x->cts.empty() || choose(ST_CFG, 2)) { wo = fstrm_writer_options_init(); for (auto &c : x->cts) { void *b = simbuf(c); fstrm_writer_options_add_content_type(wo, b, c.size()); sim_free(b); } }
  switch (x->transport) {
    case 0: { auto *o = fstrm_unix_writer_options_init(); fstrm_unix_writer_options_set_socket_path(o, x->path.c_str()); w = fstrm_unix_writer_init(o, wo); fstrm_unix_writer_options_destroy(&o); break; }
    case 1: { auto *o = fstrm_tcp_writer_options_init(); fstrm_tcp_writer_options_set_socket_address(o, x->addr.c_str()); fstrm_tcp_writer_options_set_socket_port(o, x->port.c_str()); w = fstrm_tcp_writer_init(o, wo); fstrm_tcp_writer_options_destroy(&o); break; }
    case 2: { auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, x->path.c_str()); w = fstrm_file_writer_init(o, wo); fstrm_file_options_destroy(&o); break; }
    default: { struct fstrm_rdwr *r = mem_rdwr(x->mem); w = fstrm_writer_init(wo, &r); if (r) violation("C06", "rdwr-not-taken", "writer_init left the caller's rdwr pointer set"); }
  }
  if (wo) fstrm_writer_options_destroy(&wo);
  if (!w) violation("*", "init-failed", "writer init failed");
  return w;
}
static void gather(Ctx *x) {
  if (x->transport <= 1) for (ConnRec *c : K.conns) {
    Out o; o.kind = strf("connection %d", c->id); o.bytes = c->a.sent; o.at = c->a.sent_at; o.errored = c->a.err_reported || c->a.rst; 
    for (PeerLog *l : x->srv->logs) if (l->c == c) { o.start_seq = l->start_seq; o.healthy_peer = l->b.healthy(); }
    o.open_seq = c->connect_seq; x->outs.push_back(o);
  } else if (x->transport == 2) {
    Inode *n = inode_get(x->path, false);
    if (n) { for (auto &g : n->generations) { if (g == "old content") continue; Out o; o.kind = "earlier file content"; o.bytes = g; o.errored = true; x->outs.push_back(o); } Out o; o.kind = "file"; o.bytes = n->data == "old content" ? "" : n->data; o.errored = K.disk_errors > 0; o.healthy_peer = true; x->outs.push_back(o); }
  } else for (size_t i = 0; i < x->mem->s.size(); i++) { MemSess *s = x->mem->s[i]; Out o; o.kind = strf("session %zu", i); o.bytes = s->out; o.at = s->at; o.errored = s->broken || s->close_failed; o.start_seq = s->start_seq; o.open_seq = s->open_seq; o.healthy_peer = s->b.healthy(); x->outs.push_back(o); }
}
static void check_outputs(Ctx *x) {
  bool bidir = x->transport <= 1 || (x->transport == 3);
  std::unordered_map<string, Fr *> by; for (Fr *f : x->frames) by[f->payload] = f;
  std::set<int> seen; std::map<std::pair<int, int>, int> last; 
  int complete = 0; vector<WStream> ws;
  for (Out &o : x->outs) {
    WStream w = w_writer_stream(o.bytes, bidir);
    WParse wp = w_parse(o.bytes);
    if (!w.err.empty()) violation("C08,C01,C02", "malformed-stream", "%s: %s; stream:%s", o.kind.c_str(), w.err.c_str(), w_describe(wp).c_str());
    if (w.start) { if (x->cts.empty() ? !w.start_cts.empty() : bidir ? (w.start_cts.size() != 1 || std::find(x->cts.begin(), x->cts.end(), w.start_cts[0]) == x->cts.end()) : (w.start_cts.size() != 1 || w.start_cts[0] != x->cts[0])) violation("C10,C08", "start-content-type", "%s: START carries the wrong content type", o.kind.c_str()); }
    for (auto &d : w.frames) {
      auto it = by.find(d);
      if (it == by.end()) { u32 id = pattern_id(d); violation("C01", "invented-frame", "%s: data frame (%s) is not a submitted payload%s", o.kind.c_str(), w_brief(d).c_str(), id < x->frames.size() ? strf(" (looks like frame %u of %zu bytes)", id, x->frames[id]->payload.size()).c_str() : ""); continue; }
      Fr *f = it->second;
      if (!f->accepted) violation("C01,C03", "unaccepted-frame", "%s: frame %d was written although its submit did not succeed", o.kind.c_str(), f->id);
      if (!seen.insert(f->id).second) violation("C01,C02", "duplicated-frame", "frame %d appears twice (second time in %s)", f->id, o.kind.c_str());
      auto key = std::make_pair(f->prod, f->queue); auto l = last.find(key);
      if (l != last.end() && l->second > f->seqno) violation("C01", "reordered", "%s: frame number %d of producer %d comes after its number %d", o.kind.c_str(), f->seqno, f->prod, l->second);
      last[key] = f->seqno;
    }
    complete += w.stop; ws.push_back(w);
  }
  size_t acc = 0; for (Fr *f : x->frames) acc += f->accepted;
  probe_n("frames accepted", acc); probe_n("frames delivered", seen.size());
  if (x->outs.empty()) { if (x->healthy && acc) violation("C02,C05", "never-opened", "the transport was never opened although it works"); return; }
  if (x->healthy) {
    if (x->outs.size() != 1) violation("C02", "healthy-reconnect", "transport never failed but there were %zu openings", x->outs.size());
    if (!ws[0].stop) violation("C02", "incomplete-stream", "the stream does not end with STOP:%s", w_describe(w_parse(x->outs[0].bytes)).c_str());
    for (Fr *f : x->frames) if (f->accepted && !seen.count(f->id)) violation("C02", "frame-lost", "accepted frame %d (producer %d number %d, %zu bytes) was never written; %zu of %zu written", f->id, f->prod, f->seqno, f->payload.size(), seen.size(), acc);
  }
  // whatever happened before: a connection that never failed got everything submitted after it opened
  for (size_t i = 0; i < x->outs.size(); i++) {
    Out &o = x->outs[i]; if (o.errored || !ws[i].stop || !o.start_seq) continue;
    probe("connection without failure examined"); std::set<string> in(ws[i].frames.begin(), ws[i].frames.end());
    for (Fr *f : x->frames) if (f->accepted && f->s_sub > o.start_seq && !in.count(f->payload)) violation("C07,C02", "lost-on-good-connection", "frame %d, submitted after %s had opened, is not on it although it never failed", f->id, o.kind.c_str());
  }
  // timeliness
  if (x->instant && x->transport != 2) {
    Out &o = x->outs[0]; u64 t_open = 0; std::map<int, u64> when;
    for (size_t k = 0; k < ws[0].frames.size(); k++) { size_t e = ws[0].frame_end[k]; u64 t = 0; for (auto &p : o.at) if (p.second >= e) { t = p.first; break; } if (by.count(ws[0].frames[k])) when[by[ws[0].frames[k]]->id] = t; }
    WParse wp = w_parse(o.bytes); for (auto &it : wp.items) if (it.ctl && it.type == CT_START) for (auto &p : o.at) if (p.second >= it.end) { t_open = p.first; break; }
    for (Fr *f : x->frames) if (f->accepted) {
      u64 from = std::max(f->t_ret, t_open), lim = from + 2 * x->flush * NS + 50 * MS + C.timer_late_us * US * 3;
      auto it = when.find(f->id); u64 t = it == when.end() ? NEVER : it->second;
      probe("flush delay measured");
      if (t > lim) violation("C05", "flushed-late", "frame %d accepted at %.3f s reached the transport at %.3f s; flush_timeout is %u s", f->id, (f->t_ret - start_ns()) / 1e9, t == NEVER ? -1.0 : (t - start_ns()) / 1e9, x->flush);
    }
  }
}
static void check_reopen(Ctx *x) { // C07
  struct A { u64 t, done, closed; bool ok; u64 bl; }; vector<A> a;
  if (x->transport <= 1) {
    for (auto &c : K.attempts) if (c.fiber == x->iofib) a.push_back({c.t, c.t_done ? c.t_done : c.t, c.rec ? (c.rec->a.closed_at ? c.rec->a.closed_at : NEVER) : c.t_done, c.rec != nullptr, c.blocked});
  } else if (x->transport >= 3) {
    size_t si = 0; for (size_t i = 0; i < x->mem->opens.size(); i++) { bool ok = x->mem->opens[i].second; MemSess *s = ok && si < x->mem->s.size() ? x->mem->s[si++] : nullptr; a.push_back({x->mem->opens[i].first, x->mem->open_done[i], s ? (s->closed ? s->t_close : NEVER) : x->mem->open_done[i], ok, 0}); }
  } else return;
  u64 slack = 200 * MS + 4ull * C.timer_late_us * US;
  u64 end = x->destroy_start;
  if (a.size() > 128) probe("more than 128 open attempts"); if (a.size() > 256) probe("more than 256 open attempts");
  if (a.empty()) { if (end > x->io_start + slack + x->flush * NS) violation("C07", "no-open-attempt", "no open attempt within %.3f s of the start", (end - x->io_start) / 1e9); return; }
  if (a[0].t > x->io_start + slack && end > x->io_start + slack) violation("C07", "first-open-late", "first open attempt came %.3f s after the I/O thread was started", (a[0].t - x->io_start) / 1e9);
  for (size_t i = 0; i < a.size(); i++) {
    u64 due = std::max(a[i].t + (u64)x->reopen * NS + NS, std::max(a[i].done, a[i].closed == NEVER ? a[i].done : a[i].closed));
    u64 lim = due + x->flush * NS + slack + ((i + 1 < a.size() ? a[i + 1].bl : x->transport <= 1 ? x->destroy_blocked : a[i].bl) - a[i].bl);
    if (i + 1 < a.size()) {
      probe("reopen spacing measured");
      if (a[i + 1].t + NS < a[i].t + (u64)x->reopen * NS) violation("C07", "reopen-too-soon", "open attempts %zu and %zu are only %.3f s apart; reopen_interval is %u s", i, i + 1, (a[i + 1].t - a[i].t) / 1e9, x->reopen);
      if (a[i].closed == NEVER) violation("C07,C13", "open-while-open", "attempt %zu opened a connection while the previous one was still open", i + 1);
      if (a[i + 1].t > lim && lim < end) violation("C07", "reopen-late", "open attempt %zu came %.3f s after it was due (reopen_interval %u s, flush_timeout %u s)", i + 1, (a[i + 1].t - due) / 1e9, x->reopen, x->flush);
    } else if (a[i].closed != NEVER && a[i].closed < end && lim < end) violation("C07", "reopen-missing", "no open attempt for %.3f s after it was due (reopen_interval %u s, flush_timeout %u s)", (end - due) / 1e9, x->reopen, x->flush);
  }
}
static void body(Proc *p) {
  Ctx *x = X; x->mark = heap_mark();
  struct fstrm_iothr_options *o = nullptr; bool noopt = x->defaults && choose(ST_CFG, 2);
  if (!noopt) o = fstrm_iothr_options_init();
  // each option may be set twice, or be set to a value that must be refused without effect
  auto set = [&](const char *tags, const char *n, fstrm_res (*fn)(struct fstrm_iothr_options *, unsigned), unsigned v, unsigned deflt, std::initializer_list<unsigned> ok, std::initializer_list<unsigned> bad) {
    if (x->defaults) { if (v != deflt) harness_bug("default of %s", n); if (noopt) return; }
    u32 k = choose(ST_CFG, 12);
    if (k == 11 && !x->defaults) { unsigned t = ok.begin()[choose(ST_CFG, ok.size())]; if (fn(o, t) != fstrm_res_success) violation(tags, "option-rejected", "valid %s %u rejected", n, t); }
    if (!x->defaults && (v != deflt || k == 11 || choose(ST_CFG, 2) == 0) && fn(o, v) != fstrm_res_success) violation(tags, "option-rejected", "valid %s %u rejected", n, v);
    if (k == 10 && bad.size()) { unsigned t = bad.begin()[choose(ST_CFG, bad.size())]; if (fn(o, t) == fstrm_res_success) violation(tags, "option-accepted", "invalid %s %u accepted", n, t); probe("invalid option value refused"); }
  };
  set("C02,C05", "buffer_hint", fstrm_iothr_options_set_buffer_hint, x->bufhint, 8192, {1024, 65536, 4000}, {0, 1023, 65537, 0xffffffffu});
  set("C05", "flush_timeout", fstrm_iothr_options_set_flush_timeout, x->flush, 1, {1, 600, 3}, {0, 601, 0xffffffffu});
  set("C04,C15", "input_queue_size", fstrm_iothr_options_set_input_queue_size, x->iqsz, 512, {2, 16384, 32}, {0, 1, 3, 12, 1000, 16383, 32768, 0x80000000u, 0xffffffffu});
  set("C14", "num_input_queues", fstrm_iothr_options_set_num_input_queues, x->nq, 1, {1, 2, 7}, {0});
  set("C02", "output_queue_size", fstrm_iothr_options_set_output_queue_size, x->oqsz, 64, {2, 1024, 3}, {0, 1, 1025, 0xffffffffu});
  set("C04", "queue_notify_threshold", fstrm_iothr_options_set_queue_notify_threshold, x->thresh, 32, {1, 5, 0xffffffffu}, {0});
  set("C07", "reopen_interval", fstrm_iothr_options_set_reopen_interval, x->reopen, 5, {1, 600, 4}, {0, 601, 0xffffffffu});
  set("C04,C15", "queue_model", [](struct fstrm_iothr_options *oo, unsigned v) { return fstrm_iothr_options_set_queue_model(oo, (fstrm_iothr_queue_model)v); }, x->model, 0, {0, 1}, {2, 3, 0xffffffffu});
  struct fstrm_writer *w = mk_writer(x);
  x->io_start = now_ns();
  C.no_clocks = oneof(ST_CFG, (const u32[]){0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3});
  if (choose(ST_CFG, 30) == 29) { // no clock at all
    u32 keep = C.no_clocks; C.no_clocks = 7; u64 m = heap_mark(); struct fstrm_writer *w0 = w; struct fstrm_iothr *io = fstrm_iothr_init(o, &w); C.no_clocks = keep;
    if (io) { fstrm_iothr_destroy(&io); discard_run("works without a monotonic clock"); }
    if (w != w0) violation("C13", "writer-taken", "fstrm_iothr_init failed but took the writer from the caller");
    size_t n; string lk = heap_leaks_since(m, &n); if (n) violation("C13", "leak", "%zu heap blocks still allocated after fstrm_iothr_init failed:%s", n, lk.c_str());
    probe("I/O thread that cannot be created"); if (w != w0) return;
  }
  auto elsewhere = [&](const char *n, std::function<void()> f) { if (choose(ST_CFG, 5) == 4) { probe("created or destroyed by a thread of its own"); fiber_join(app_thread(n, f)); } else f(); };
  elsewhere("opener", [&] { x->io = fstrm_iothr_init(o, &w); });
  if (!x->io) violation("*", "init-failed", "iothr init failed");
  if (w) violation("C06", "writer-not-taken", "iothr_init left the caller's writer pointer set");
  x->iofib = fiber_find("iothr");
  if (!noopt) { fstrm_iothr_options_destroy(&o); if (o) violation("C06,C13", "handle-not-cleared", "options destroy left the caller's pointer set"); }
  bool byidx = choose(ST_CFG, 2);
  for (u32 i = 0; i < x->nq; i++) { QState q; q.idx = i; q.q = byidx ? fstrm_iothr_get_input_queue_idx(x->io, i) : fstrm_iothr_get_input_queue(x->io); if (!q.q) violation("C14", "no-queue", "input queue %u of %u not available", i, x->nq); x->qs.push_back(q); }
  vector<int> th; u32 total = 3 + skewed(ST_CFG, x->transport == 2 ? 150 : 120); if (x->flap) total = 100 + choose(ST_CFG, 300); if (x->many) { total = 150 + choose(ST_CFG, 2200); probe("hundreds of small frames"); }
  for (u32 i = 0; i < x->nprod; i++) { int qi = i % x->nq; u32 n = 1 + total / (x->flap ? 1 : x->nprod); int st = ST_OPS + (i % 20); th.push_back(app_thread("producer", [i, qi, n, st] { producer(i, qi, n, st); })); }
  for (int t : th) fiber_join(t);
  u32 wait = choose(ST_CFG, 6);
  if (x->hold) {}
  else if (wait == 1) sim_sleep((u64)choose(ST_CFG, 1000) * x->flush * NS / 400);
  else if (wait == 2) sim_sleep(x->flush * NS + choose(ST_CFG, 3) * MS - MS);
  else if (wait == 3 && !x->healthy) sim_sleep((u64)choose(ST_CFG, 1000) * (x->reopen + x->flush + 2) * NS / 300);
  if (!x->healthy && choose(ST_CFG, 2)) { // faults stop; a working transport must be used again
    C.faults_on = false; if (x->mem) { x->mem->open_fails.clear(); x->mem->plan.clear(); } if (x->srv) x->srv->plan.clear(), x->srv->lis->refusing = false;
    sim_sleep((u64)(2 * x->reopen + 4 * x->flush + 12) * NS);
    u32 n = 1 + choose(ST_CFG, 6); int sq = 1000000; for (u32 i = 0; i < n; i++) { do_submit(x->qs[0], 0, sq, 200, true, ST_OPS); if (choose(ST_CFG, 3) == 2) sim_sleep(x->flush * NS / 2); }
    probe("submission after faults stopped");
  }
  held_check();
  x->destroy_start = now_ns(); x->destroy_seq = gseq(); u64 bl0 = x->destroy_blocked = fiber_blocked_ns(x->iofib);
  EV(213, 0, 0, "fstrm_iothr_destroy called");
  g_must_end = now_ns() + (2 * (u64)x->flush + 600) * NS;
  elsewhere("closer", [&] { fstrm_iothr_destroy(&x->io); }); g_must_end = NEVER;
  x->destroy_end = now_ns(); EV(214, 0, 0, "fstrm_iothr_destroy returned");
  u64 bl = fiber_blocked_ns(x->iofib) - bl0, took = x->destroy_end - x->destroy_start;
  if (took > bl + x->flush * NS + 300 * MS + 4ull * C.timer_late_us * US) violation("C06", "destroy-slow", "destroy took %.3f s; transport blocked %.3f s, flush_timeout %u s", took / 1e9, bl / 1e9, x->flush);
  if (!fiber_done(x->iofib)) violation("C06", "thread-running", "the I/O thread is still running after destroy");
  if (x->io) violation("C06", "handle-not-cleared", "destroy left the caller's pointer set");
  NoFaults nf;
  for (Fr *f : x->frames) if (f->accepted) {
    if (f->freekind == 0 && f->frees != 1) violation("C03", "not-freed", "free callback of accepted frame %d ran %d times before destroy returned", f->id, f->frees);
    if (f->freekind == 2 && heap_is_live(f->buf)) violation("C03", "not-freed", "payload of accepted frame %d was not freed", f->id);
    if (f->freekind == 1) { if (!heap_is_live(f->buf)) violation("C03", "freed-unasked", "payload without free callback was freed"); if (memcmp(f->buf, f->payload.data(), f->payload.size())) violation("C03", "payload-modified", "payload changed"); sim_free(f->buf); }
  }
  size_t n; string lk = heap_leaks_since(x->mark, &n); if (n) violation("C06,C13", "leak", "%zu heap blocks still allocated after destroy:%s", n, lk.c_str());
  if (proc_open_fds(p) || proc_open_files(p)) violation("C06,C13", "descriptor-leak", "%d descriptors and %d streams still open after destroy", proc_open_fds(p), proc_open_files(p));
  if (p->n_ebadf_close) violation("C06,C13", "double-close", "%llu closes of unopened descriptors", (unsigned long long)p->n_ebadf_close);
  if (x->mem) {
    if (x->mem->batch_frames > x->oqsz) violation("C25", "batch-too-long", "%zu frames were handed to the transport in one write; output_queue_size is %u", x->mem->batch_frames, x->oqsz);
    if (x->mem->batch_bytes >= x->bufhint) violation("C25", "batch-too-big", "a write went on after %zu bytes; buffer_hint is %u", x->mem->batch_bytes, x->bufhint);
    if (x->mem->batch_frames > 1) probe("batched writes measured");
    if (x->mem->is_open) violation("C06,C13", "not-closed", "custom transport was left open");
    if (x->mem->has_destroy && x->mem->destroyed != 1) violation("C06,C13", "not-destroyed", "custom transport destroyed %d times", x->mem->destroyed);
  }
}
void scen_iothr() {
  Ctx *x = X = new Ctx; int st = ST_CFG;
  // bias the exploration towards what the property of this check needs
  x->healthy = choose(st, 10) < (prop_is("C07") ? 2u : prop_is("C02") || prop_is("C05") ? 9u : 5u);
  x->instant = x->healthy && (prop_is("C05") || choose(st, 4) == 3);
  x->hold = x->healthy && !x->instant && choose(st, 5) == 4;
  draw_sched_cfg();
  x->transport = choose(st, x->instant ? 4 : 5); if (x->instant && x->transport == 2) x->transport = 4;
  x->model = choose(st, 2); x->nprod = 1 + choose(st, 4); if (choose(st, 8) == 7) x->nprod += 2;
  x->nq = x->model ? 1 + choose(st, std::min<u32>(3, x->nprod)) : x->nprod; if (choose(st, 6) == 5) x->nq += choose(st, 4) ? 1 + choose(st, 2) : 3 + choose(st, 20);
  x->iqsz = oneof(st, (const u32[]){2, 4, 8, 16, 64, 512}); x->oqsz = oneof(st, (const u32[]){2, 3, 5, 64, 200, 1024}); x->bufhint = oneof(st, (const u32[]){1024, 1025, 2048, 8192, 65536});
  x->flush = oneof(st, (const u32[]){1, 1, 2, 5}); x->reopen = oneof(st, (const u32[]){1, 2, 5, 7});
  switch (choose(st, 24)) { case 23: x->flush = 600; break; case 22: x->reopen = 600; break; case 21: x->flush = x->reopen = 60; break; case 20: x->iqsz = 16384; break; case 19: x->iqsz = 1024; break; } x->thresh = choose(st, 3) ? 1 + choose(st, x->iqsz) : 32;
  if (x->flush >= 60) C.time_budget = 1000000 * NS;
  if (choose(st, 12) == 11) { x->defaults = true; x->model = 0; x->nq = x->nprod = 1; x->iqsz = 512; x->oqsz = 64; x->bufhint = 8192; x->flush = 1; x->reopen = 5; x->thresh = 32; }
  if (!x->defaults && choose(st, prop_is("C25") ? 8 : 30) == 7) { x->many = true; x->iqsz = oneof(st, (const u32[]){16, 512, 1024, 16384}); x->oqsz = oneof(st, (const u32[]){128, 129, 130, 200, 256, 257, 500, 1024}); x->bufhint = oneof(st, (const u32[]){65536, 65536, 8192}); }
  switch (choose(st, 12)) {
  case 11: set_start_time((u64)choose(st, 5000) * MS); probe("started within 5 s of boot"); break;
  case 10: { // uptimes at which narrow or float arithmetic on seconds, milliseconds or microseconds goes wrong
    u64 b = oneof(st, (const u64[]){(1ull << 31) * US, (1ull << 32) * US, (1ull << 31) * MS, (1ull << 32) * MS, (1ull << 24) * NS, 315360000ull * NS}); u64 before = choose(st, 3) ? (u64)skewed(st, 8000) * MS + choose(st, 1000) * US : 0;
    set_start_time(b - before); probe("started at an uptime where a counter wraps"); break; }
  }
  if (choose(st, 6) == 5) for (u32 i = 0, n = 1 + choose(st, 3); i < n; i++) at_time(now_ns() + (u64)skewed(st, 20000) * MS, [] { fault_fired("wall clock jump"); i64 s = (i64)oneof(ST_ENV, (const u32[]){1, 10, 3600, 1000000}); real_jump((choose(ST_ENV, 2) ? s : -s) * (i64)NS + (i64)choose(ST_ENV, 1000) * (i64)MS); });
  u32 nct = choose(st, 16) == 15 ? 12 : choose(st, 4); for (u32 i = 0; i < nct; i++) x->cts.push_back(strf("proto:%u", i));
  C.sockbuf = oneof(st, (const u32[]){65536, 100, 1000, 5000, 40000});
  if (!x->instant) {
    C.p_short_send = oneof(st, (const u32[]){0, 0, 50, 300, 700}); C.p_eintr = 0; C.p_spurious = oneof(st, (const u32[]){0, 0, 100, 400}); C.p_short_read = oneof(st, (const u32[]){0, 200});
    C.p_stall = oneof(st, (const u32[]){0, 0, 10, 100}); C.stall_max_ns = oneof(st, (const u64[]){MS, 100 * MS, 3 * NS}); C.net_delay_max_ns = oneof(st, (const u64[]){0, 0, MS, 300 * MS}); C.timer_late_us = oneof(st, (const u32[]){0, 0, 100, 20000});
    if (choose(st, 3) == 2) C.p_eintr = 100;
  } else { C.sockbuf = 1 << 20; C.p_spurious = oneof(st, (const u32[]){0, 0, 300, 900}); C.timer_late_us = oneof(st, (const u32[]){0, 0, 1000}); }
  x->path = x->transport == 0 ? draw_unix(st, "/sock") : "/out.fstrm"; x->key = x->transport == 1 ? draw_tcp(st, &x->addr, &x->port) : "unix:" + x->path;
  u64 slow = x->instant ? 0 : oneof(st, (const u64[]){0, 2 * NS, 20 * NS});
  vector<PeerB> plan; u32 nbad = x->healthy ? 0 : choose(st, 5); if (!x->healthy && !x->defaults && choose(st, prop_is("C07") ? 40 : 150) == 7) { x->flap = true; nbad = oneof(st, (const u32[]){260, 130, 300}); slow = 0; x->flush = 1; x->reopen = 1 + choose(st, 3); probe("hundreds of failed sessions"); }
  for (u32 i = 0; i < nbad; i++) plan.push_back(draw_peer(choose(st, 4) == 3, x->cts, slow));
  PeerB rest = draw_peer(true, x->cts, slow); if (x->instant) { rest.chunk = 65536; rest.chunk_delay = 0; rest.stall_ns = 0; rest.reply_delay = 0; rest.finish_delay = 0; rest.reply_split = 0; }
  if (x->hold) { rest.reply_delay = (1 + choose(st, 20)) * NS; rest.stall_ns = 0; }
  if (!x->healthy) {
    C.p_send_err = oneof(st, (const u32[]){0, 0, 20, 100}); C.p_recv_err = oneof(st, (const u32[]){0, 0, 50}); C.p_connect_err = oneof(st, (const u32[]){0, 100, 500}); C.p_socket_err = oneof(st, (const u32[]){0, 0, 100}); C.p_close_err = oneof(st, (const u32[]){0, 100});
    C.p_fopen_err = oneof(st, (const u32[]){0, 300}); C.p_fwrite_err = oneof(st, (const u32[]){0, 0, 50, 300}); C.p_fclose_err = oneof(st, (const u32[]){0, 100}); C.p_fshort = oneof(st, (const u32[]){0, 300}); C.disk_quota = choose(st, 4) == 3 ? (i64)skewed(st, 20000) : -1;
  }
  if (x->transport <= 1) {
    string key = x->key;
    u32 dead = x->healthy ? 0 : choose(st, 3); if (x->flap && dead) dead = 2;
    if (dead == 2) { at_time(now_ns() + (u64)choose(st, x->flap ? 900000 : 20000) * MS, [x, key, plan, rest] { x->srv->lis->refusing = false; EV(215, 0, 0, "server starts accepting"); }); }
    x->srv = start_server(key, x->transport == 1, plan, rest); if (dead == 2) x->srv->lis->refusing = true;
    x->srv->lis->maxbacklog = 1 + choose(st, 5); if (!x->instant && choose(st, 6) == 5) x->srv->accept_delay = (u64)choose(st, 3000) * MS;
  } else if (x->transport >= 3) {
    MemT *m = x->mem = new MemT; m->bidir = x->transport == 3; m->plan = plan; m->rest = rest; m->has_destroy = choose(st, 4) != 3; m->sigpipe = choose(st, 2);
    if (!x->instant) { m->p_delay = oneof(st, (const u32[]){0, 100, 500}); m->delay_max = oneof(st, (const u64[]){MS, 500 * MS, 8 * NS}); if (x->hold) { m->p_delay = 1000; m->delay_max = 20 * NS; } }
    if (!x->healthy) { u32 n = x->flap ? 200 + choose(st, 100) : choose(st, 4); for (u32 i = 0; i < n; i++) m->open_fails.push_back(x->flap ? choose(st, 8) != 7 : choose(st, 2)); m->p_write_fail = oneof(st, (const u32[]){0, 0, 50, 300}); m->p_read_fail = oneof(st, (const u32[]){0, 0, 100}); m->p_close_fail = oneof(st, (const u32[]){0, 200}); }
  } else if (x->transport == 2) { C.stdio_buf = oneof(st, (const u32[]){0, 64, 1000}); if (!x->healthy && choose(st, 3) == 2) inode_put("/out.fstrm", "old content"); }
  run_app("app", [](Proc *p) { body(p); });
  if (x->srv) { // let the peer drain what is in flight
    NoFaults nf; for (size_t i = 1; i < x->srv->fibers.size(); i++) fiber_join(x->srv->fibers[i]);
  }
  gather(x); check_outputs(x); check_reopen(x);
}
