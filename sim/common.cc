#include "common.h"
#include "internal.h"
#include <algorithm>
#include <signal.h>
extern "C" int sim_fflush(FILE *);

// The application as the host of the library (C29): descriptors, signal dispositions and masks of its own, programs it starts.
struct Embed { SigAct sig[65]; FileP std[3]; u64 mask; bool stop = false; int fib = -1; };
static void h_own(int) {}
static u64 embed_mask() { u64 m = 0; if (choose(ST_SPARE, 2)) m = ((u64)choose(ST_SPARE, 1u << 31) << 32 | choose(ST_SPARE, 1u << 31)) & ~1ull; fiber_sigmask(fiber_self()) = m; return m; }
static void embed_mask_check(u64 m) { u64 n = fiber_sigmask(fiber_self()); if (n != m) violation("C29", "signal-mask", "the library changed the signal mask of an application thread: %llx, was %llx", (unsigned long long)n, (unsigned long long)m); }
static void host_fiber_fn(Proc *p, Embed *e) {
  struct Own { int fd; FileP f; string *sink; }; vector<Own> own;
  auto drop = [&](size_t i) { auto it = p->fds.find(own[i].fd); if (it == p->fds.end() || it->second != own[i].f) violation("C29", "host-descriptor-closed", "descriptor %d of the application was closed or replaced", own[i].fd); else p->fds.erase(it); if (!own[i].sink->empty()) violation("C29", "host-descriptor-written", "%zu bytes were written to descriptor %d of the application", own[i].sink->size(), own[i].fd); EV(46, own[i].fd, 0, "the application closes descriptor %d", own[i].fd); own.erase(own.begin() + i); };
  for (u32 i = 0, n = 10 + choose(ST_SPARE, 60); i < n && !e->stop; i++) {
    switch (choose(ST_SPARE, 4)) { case 0: yield_point(); break; case 1: fiber_block(K.newsock, now_ns() + 2 * NS, false, "host thread"); break; case 2: sim_sleep((u64)choose(ST_SPARE, 1000) * US); break; case 3: sim_sleep(skewed(ST_SPARE, 1000) * MS); break; }
    switch (choose(ST_SPARE, 3)) {
      case 0: { Own o; o.sink = new string; o.fd = fd_alloc_host(&o.f, o.sink); own.push_back(o); probe("application opens a descriptor of its own"); break; }
      case 1: if (own.size()) drop(choose(ST_SPARE, own.size())); break;
      case 2: { int k = 0; for (auto &x : p->fds) k += x.second->kind == FK_SOCK || x.second->kind == FK_SOCK_NEW; if (k) probe("application starts a program while the library has sockets"); proc_exec_check(p); break; }
    }
  }
  while (own.size()) drop(0);
}
static Embed *embed_start(Proc *p) {
  Embed *e = new Embed; e->mask = embed_mask(); K.no_sock_cloexec = choose(ST_SPARE, 4) == 3;
  for (int s = 1; s < 32; s++) switch (choose(ST_SPARE, 4)) { case 1: p->sig[s].h = SIG_IGN; break; case 2: p->sig[s].h = h_own; break; }
  for (int s = 0; s < 65; s++) e->sig[s] = p->sig[s];
  for (int i = 0; i < 3; i++) e->std[i] = p->fds[i];
  p->embed = e; K.host_fiber = e->fib = fiber_spawn("host", [p, e] { host_fiber_fn(p, e); }, p); return e;
}
static void embed_end(Proc *p, Embed *e) {
  embed_mask_check(e->mask); e->stop = true; fiber_join(e->fib);
  for (int s = 1; s < 65; s++) if (p->sig[s].h != e->sig[s].h) violation("C29", "signal-disposition", "the library changed what signal %d does", s);
  sim_fflush(nullptr);
  for (int i = 0; i < 3; i++) { auto it = p->fds.find(i); if (it == p->fds.end() || it->second != e->std[i]) violation("C29", "standard-stream", "standard descriptor %d was closed or replaced", i); }
  if (p->out.size() || p->err.size()) violation("C29", "standard-stream", "the library wrote to a standard stream: %.100s", (p->out + p->err).c_str());
}
void run_app(const char *name, std::function<void(Proc *)> fn) {
  Proc *p = proc_new(name); p->is_app = true;
  int f = fiber_spawn(name, [p, fn] { stdio_init(p); Embed *e = prop_is("C29") ? embed_start(p) : nullptr; fn(p); if (e) embed_end(p, e); }, p);
  fiber_join(f);
}
int app_thread(const char *name, std::function<void()> fn) {
  Proc *p = cur_proc(); if (!p->embed) return fiber_spawn(name, [fn] { fn(); thread_ends(); }, p);
  return fiber_spawn(name, [fn] { u64 m = embed_mask(); fn(); embed_mask_check(m); thread_ends(); }, p);
}
void *simbuf(const string &s) { void *p = sim_malloc(s.size()); memcpy(p, s.data(), s.size()); return p; }
string pattern(u32 id, size_t len) {
  string s = be32(id ^ 0xa5c30000u); s.resize(len);
  u32 x = id * 2654435761u + (u32)len;
  for (size_t i = 4; i < len; i++) { x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); }
  return s;
}
u32 pattern_id(const string &p) { return p.size() < 4 ? ~0u : rd32(p, 0) ^ 0xa5c30000u; }
size_t draw_len(u32 maxlen, int st) { u32 k = choose(st, 10); return k < 7 ? 5 + choose(st, std::min<u32>(maxlen - 4, 60)) : 5 + skewed(st, maxlen - 5); }

u32 draw_count(int st, u32 usual, u32 one_in, bool *many) { // how many frames (or calls): now and then more than a counter of 8 bits can hold
  *many = choose(st, one_in) == one_in - 1; if (!*many) return skewed(st, usual);
  probe("streams of hundreds of frames"); return oneof(st, (const u32[]){257, 130, 300, 513, 700, 1026, 2050}) - choose(st, 4);
}

PeerB draw_peer(bool healthy, const vector<string> &cts, u64 slow_max) {
  PeerB b; b.cts = cts; int st = ST_CFG;
  b.accept_list = choose(st, 4) != 3; b.extra_cts = choose(st, 3) == 2; b.full_accept = choose(st, 8) == 7;
  switch (choose(st, 4)) { case 0: break; case 1: b.chunk = 1 + skewed(st, 4000); break; case 2: b.chunk_delay = skewed(st, 1000000) * 1000ull; b.chunk = 1 + skewed(st, 20000); break; case 3: b.reply_split = 1 + choose(st, 12); break; }
  if (slow_max) {
    if (choose(st, 3) == 2) { b.stall_at = skewed(st, 20000); b.stall_ns = (u64)choose(st, 1000) * (slow_max / 1000); }
    if (choose(st, 4) == 3) b.reply_delay = (u64)choose(st, 1000) * (slow_max / 1000);
    if (choose(st, 4) == 3) b.finish_delay = (u64)choose(st, 1000) * (slow_max / 1000);
    if (b.chunk_delay > slow_max / 50) b.chunk_delay = slow_max / 50;
    b.linger = choose(st, 3) == 2; b.linger_ns = (u64)choose(st, 1000) * MS;
  } else { b.chunk_delay = 0; b.linger_ns = 0; }
  if (!healthy) switch (choose(st, 5)) {
    case 0: case 1: b.cut_at = skewed(st, 5000); b.cut_rst = choose(st, 2); break;
    case 2: b.reply = 1 + choose(st, REPLY_NKINDS - 1); break;
    case 3: b.finish = false; b.finish_kind = choose(st, 4); break;
    case 4: b.cut_at = skewed(st, 400); b.cut_rst = choose(st, 2); break;
  }
  return b;
}
string peer_reply(const PeerB &b, const vector<string> &ready, vector<string> *acc) {
  vector<string> l;
  switch (b.reply) {
    case REPLY_OK:
      if (b.accept_list) { if (b.extra_cts) l.push_back("x-other"); for (auto &c : ready) if (b.cts.empty() || std::find(b.cts.begin(), b.cts.end(), c) != b.cts.end()) l.push_back(c); if (b.full_accept) { w_pad(l, 512); probe("ACCEPT of the maximal length"); } }
      if (acc) *acc = l; return w_control(CT_ACCEPT, l);
    case REPLY_WRONG_TYPE: { static const u32 t[] = {CT_READY, CT_FINISH, CT_START, CT_STOP}; return w_control(t[choose(ST_CFG, 4)], {}); }
    case REPLY_GARBAGE: { string g = w_control(CT_ACCEPT, b.cts); u32 n = 1 + choose(ST_CFG, 4); for (u32 i = 0; i < n; i++) g[4 + choose(ST_CFG, g.size() - 4)] ^= 1 << choose(ST_CFG, 8); return g; }
    case REPLY_NO_COMMON: return w_control(CT_ACCEPT, {"y-unwanted"});
    case REPLY_PARTIAL: { string g = w_control(CT_ACCEPT, ready); return g.substr(0, choose(ST_CFG, g.size())); }
    case REPLY_DATA: return w_data("not a control frame");
    default: return "";
  }
}
void serve_conn(ConnRec *c, PeerLog *L) {
  L->c = c; PeerB &b = L->b; End *e = &c->b; bool ready = false, stalled = false; size_t off = 0; vector<char> tmp(65536);
  bool silent = false;
  for (;;) {
    if (b.stall_ns && !stalled && L->got.size() >= b.stall_at) { stalled = true; fault_fired("peer stops reading for a while"); sim_sleep(b.stall_ns); }
    if (L->got.size() > 20000) { b.chunk = 65536; b.chunk_delay = 0; } size_t want = std::min(b.chunk, tmp.size()); if (b.cut_at != SIZE_MAX) { if (L->got.size() >= b.cut_at) { fault_fired(b.cut_rst ? "peer resets the connection" : "peer closes the connection"); L->cut = true; peer_close(e, b.cut_rst); return; } want = std::min(want, b.cut_at - L->got.size()); }
    if (!want) want = 1;
    bool late = false; size_t n = peer_read(e, tmp.data(), want, silent ? now_ns() + 30 * NS : NEVER, &late); // a peer that has given up on the stream hangs up in the end
    if (late) { L->cut = true; peer_close(e); return; }
    if (!n) { L->eof = true; break; }
    L->got.append(tmp.data(), n); if (g_trace) ev("peer got %zu bytes, now %zu", n, L->got.size());
    if (b.chunk_delay) sim_sleep(b.chunk_delay);
    WItem it; string why;
    while (!silent) {
      int k = w_one(L->got, off, it, &why); if (k < 0) { L->bad = why; silent = true; EV(220, off, 0, "peer sees malformed data at %zu: %s", off, why.c_str()); break; } if (k == 0) break;
      off = it.end; if (g_trace) ev("peer parsed %s up to %zu, silent %d", it.ctl ? ct_name(it.type) : "data", off, silent);
      if (it.ctl && it.type == CT_READY && !ready) {
        ready = true;
        if (b.reply_delay) { fault_fired("peer answers late"); sim_sleep(b.reply_delay); }
        if (b.reply != REPLY_OK) fault_fired("bad handshake answer");
        if (b.reply == REPLY_CLOSE) { L->cut = true; peer_close(e, b.cut_rst); return; }
        if (b.reply == REPLY_SILENT) { sim_sleep(5 * NS); L->cut = true; peer_close(e); return; }
        vector<string> acc; string r = peer_reply(b, it.cts, &acc);
        if (b.reply == REPLY_OK) { L->accept_seq = gseq(); L->accept_cts = acc; L->sent_accept = true; }
        size_t sp = b.reply_split ? b.reply_split : r.size();
        for (size_t i = 0; i < r.size(); i += sp) { string part = r.substr(i, sp); if (!peer_write(e, part.data(), part.size())) break; if (b.reply_split) sim_sleep(US); }
        if (b.reply == REPLY_PARTIAL) { L->cut = true; peer_close(e, b.cut_rst); return; }
        if (b.reply != REPLY_OK) silent = true;
      } else if (it.ctl && it.type == CT_START) { L->start_seq = gseq(); L->start_time = now_ns(); }
      else if (it.ctl && it.type == CT_STOP) {
        L->got_stop = true; L->stop_seq = gseq();
        if (b.finish_delay) sim_sleep(b.finish_delay);
        if (b.finish) { string f = w_control(CT_FINISH, {}); L->sent_finish = peer_write(e, f.data(), f.size()); }
        else {
          fault_fired("peer ends without FINISH");
          if (b.finish_kind == 1) { string f = w_control(CT_ACCEPT, {}); peer_write(e, f.data(), f.size()); }
          if (b.finish_kind == 2) { string f = w_control(CT_FINISH, {}); peer_write_partial(e, f.substr(0, choose(ST_CFG, f.size())), NEVER); }
          if (b.finish_kind == 3) { sim_sleep(2 * NS); }
          L->cut = true; peer_close(e); return;
        }
      }
    }
  }
  if (b.linger) sim_sleep(b.linger_ns);
  peer_close(e);
}
string draw_tcp(int st, string *addr, string *port) {
  *addr = oneof(st, (const char *const[]){"127.0.0.1", "127.0.0.1", "::1", "2001:db8::53", "10.1.2.3"}); *port = oneof(st, (const char *const[]){"5353", "5353", "5353", "1", "65535", "32768"}); return K.want_addr = "tcp:" + *addr + ":" + *port;
}
string draw_unix(int st, const string &base) { string p = base; if (choose(st, 10) == 9) p += string(107 - p.size(), 'p'); K.want_addr = "unix:" + p; return p; }
Server *start_server(const string &key, bool tcp, const vector<PeerB> &plan, const PeerB &rest) {
  Server *s = new Server; s->plan = plan; s->rest = rest; s->lis = listen_on(key, tcp);
  s->fibers.push_back(fiber_spawn("server", [s] {
    for (int i = 0;; i++) {
      ConnRec *c = peer_accept(s->lis, NEVER); if (!c) return;
      if (s->accept_delay) sim_sleep(s->accept_delay);
      PeerLog *l = new PeerLog; l->b = i < (int)s->plan.size() ? s->plan[i] : s->rest; l->c = c; s->logs.push_back(l);
      s->fibers.push_back(fiber_spawn("peer", [c, l] { serve_conn(c, l); }, nullptr));
    }
  }, nullptr));
  return s;
}

// ------------------------------------------------------------------ custom transport
static void mem_delay(MemT *m) { yield_point(); TransportScope ts; if (m->p_delay && C.faults_on && chance(ST_FAULT, m->p_delay, 1000)) { fault_fired("custom transport slow"); sim_sleep((u64)choose(ST_FAULT, 1000) * m->delay_max / 1000); } stall_point(); }
static void mem_check(MemT *m, const char *op) { if (m->destroyed) violation("C06,C13", "io-after-destroy", "transport method '%s' called after destroy", op); }
fstrm_res mem_op_open(void *o) {
  MemT *m = (MemT *)o; mem_check(m, "open"); size_t i = m->opens.size(); m->opens.push_back({now_ns(), false}); m->open_done.push_back(0);
  EV(200, i, 0, "custom transport open");
  mem_delay(m);
  m->open_done[i] = now_ns();
  if (m->is_open) violation("C13,C06", "double-open", "transport opened again without being closed");
  if (i < m->open_fails.size() && m->open_fails[i]) { fault_fired("custom transport open fails"); m->any_fail = true; return fstrm_res_failure; }
  MemSess *s = new MemSess; s->b = m->s.size() < m->plan.size() ? m->plan[m->s.size()] : m->rest; s->open_seq = gseq(); s->t_open = now_ns(); m->s.push_back(s); m->is_open = true; m->n_ok_open++;
  m->opens[i].second = true; m->open_done[i] = now_ns();
  return fstrm_res_success;
}
fstrm_res mem_op_close(void *o) {
  MemT *m = (MemT *)o; mem_check(m, "close"); EV(201, m->is_open, 0, "custom transport close");
  mem_delay(m);
  if (!m->is_open) { violation("C13,C06", "double-close", "transport closed %s", m->s.empty() ? "before it was opened" : "twice"); return fstrm_res_failure; }
  m->is_open = false; m->n_close++; MemSess *s = m->s.back(); s->closed = true; s->close_seq = gseq(); s->t_close = now_ns();
  if (m->p_close_fail && fault(m->p_close_fail, "custom transport close fails")) { s->close_failed = true; return fstrm_res_failure; }
  return s->broken ? fstrm_res_failure : fstrm_res_success;
}
static void mem_break(MemT *m, MemSess *s) { s->broken = true; m->any_fail = true; if (!s->err_seq) s->err_seq = gseq(); }
fstrm_res mem_op_write(void *o, const struct iovec *iov, int n) {
  MemT *m = (MemT *)o; mem_check(m, "write");
  heap_check(iov, n * sizeof *iov, false, "write method");
  if (!m->is_open) return fstrm_res_failure;
  mem_delay(m);
  MemSess *s = m->s.back(); if (s->broken) { if (m->sigpipe) raise_sigpipe("C07,C29"); return fstrm_res_failure; }
  bool fail = fault(m->p_write_fail, "custom transport write fails"); size_t tot = 0; for (int i = 0; i < n; i++) tot += iov[i].iov_len;
  size_t lim = fail ? choose(ST_FAULT, tot + 1) : tot; if (s->b.cut_at != SIZE_MAX && s->out.size() + lim > s->b.cut_at) { fault_fired("custom transport breaks"); lim = s->b.cut_at > s->out.size() ? s->b.cut_at - s->out.size() : 0; fail = true; }
  for (int i = 0; i < n && lim; i++) {
    size_t k = std::min(lim, iov[i].iov_len); heap_check(iov[i].iov_base, iov[i].iov_len, false, "write method");
    s->out.append((const char *)iov[i].iov_base, k); lim -= k;
    if (i % 7 == 3) mem_delay(m); else mem_point();
    if (k && i < n) heap_check(iov[i].iov_base, k, false, "write method");
  }
  hash_event(203, s->out.size());
  s->at.push_back({now_ns(), s->out.size()});
  if (fail) { mem_break(m, s); if (m->sigpipe) raise_sigpipe("C07,C29"); return fstrm_res_failure; }
  if (g_trace) ev("custom transport write of %d iovecs, now %zu bytes", n, s->out.size());
  WItem it; size_t nf = 0, nb = 0, last = 0;
  while (w_one(s->out, s->scanned, it) == 1) {
    if (!it.ctl) { nf++; nb += last; last = it.end - s->scanned; }
    s->scanned = it.end;
    if (it.ctl && it.type == CT_READY && m->bidir) { if (s->b.reply == REPLY_OK) s->sent_accept = true; vector<string> a; s->in += peer_reply(s->b, it.cts, &a); s->accept_cts = a; }
    if (it.ctl && it.type == CT_START) s->start_seq = gseq();
    if (it.ctl && it.type == CT_STOP) { s->got_stop = true; if (m->bidir && s->b.finish) { s->in += w_control(CT_FINISH, {}); s->sent_finish = true; } }
  }
  m->batch_frames = std::max(m->batch_frames, nf); m->batch_bytes = std::max(m->batch_bytes, nb);
  return fstrm_res_success;
}
fstrm_res mem_op_read(void *o, void *d, size_t n) {
  MemT *m = (MemT *)o; mem_check(m, "read"); heap_check(d, n, true, "read method");
  if (!m->is_open) return fstrm_res_failure;
  mem_delay(m);
  MemSess *s = m->s.back(); if (s->broken) return fstrm_res_failure;
  if (fault(m->p_read_fail, "custom transport read fails")) { mem_break(m, s); return fstrm_res_failure; }
  if (s->in.size() - s->inpos < n) { s->inpos = s->in.size(); mem_break(m, s); return fstrm_res_stop; }
  memcpy(d, s->in.data() + s->inpos, n); s->inpos += n; return fstrm_res_success;
}
fstrm_res mem_op_destroy(void *o) { MemT *m = (MemT *)o; EV(204, 0, 0, "custom transport destroy"); if (m->destroyed++) violation("C13,C06", "double-destroy", "transport destroyed twice"); return fstrm_res_success; }
struct fstrm_rdwr *mem_rdwr(MemT *m) {
  struct fstrm_rdwr *r = fstrm_rdwr_init(m);
  if (m->has_destroy) fstrm_rdwr_set_destroy(r, mem_op_destroy);
  fstrm_rdwr_set_open(r, mem_op_open); fstrm_rdwr_set_close(r, mem_op_close); fstrm_rdwr_set_write(r, mem_op_write); if (m->bidir) fstrm_rdwr_set_read(r, mem_op_read);
  return r;
}
