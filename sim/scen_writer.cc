// The synchronous writer (fstrm_writer over Unix socket, TCP socket, file and custom
// transports), driven by random API call sequences against an executable model of what
// may be on each connection. Properties C08, C09, C10, C13.
#include "common.h"
#include "internal.h"
#include <algorithm>

namespace {
enum St { OPENING, OPENED, CLOSED };
struct W {
  int tr; bool bidir; Proc *p; vector<string> cts; bool too_long_ready = false, border_ready = false;
  struct fstrm_writer *w = nullptr; MemT *mem = nullptr; Server *srv = nullptr; string path, addr, port, key; u64 mark = 0; bool closed_ok = false;
  St st = OPENING; bool broken = false, unsure = false; string model; int ops = 0; size_t frames_ok = 0;
  vector<string> frozen;
};
struct Err { u64 hard, soft; };
}
static W *X;
static size_t n_streams() {
  if (X->mem) return X->mem->s.size();
  if (X->tr == 2) { Inode *n = inode_get(X->path, false); return n ? n->n_opened_w : 0; }
  return K.conns.size();
}
static string stream(size_t i) {
  if (X->mem) return X->mem->s[i]->out;
  if (X->tr == 2) { Inode *n = inode_get(X->path, false); return i < n->generations.size() ? n->generations[i] : n->data; }
  return K.conns[i]->a.sent;
}
static string reply_bytes(size_t i) {
  if (X->mem) return X->mem->s[i]->in;
  if (X->tr == 2) return "";
  return K.conns[i]->b.sent;
}
static Err errs() {
  Err e{0, 0};
  if (X->mem) { for (auto &o : X->mem->opens) e.hard += !o.second; for (auto s : X->mem->s) e.hard += s->broken + s->close_failed; return e; }
  e.hard = X->p->fault_errs;
  for (auto &a : K.attempts) { if (a.result == EINTR) e.soft++; else if (a.result > 0) e.hard++; }
  for (auto c : K.conns) e.hard += c->a.err_reported;
  return e;
}
static int open_things() { return X->mem ? X->mem->is_open : X->tr == 2 ? std::max(proc_open_fds(X->p), proc_open_files(X->p)) : proc_open_fds(X->p); }

// What the peer answered: does it allow a START, and with which content type?
static bool negotiated(size_t i, string *start, WParse *rp) {
  vector<string> l;
  if (!X->bidir) { if (!X->cts.empty()) l.push_back(X->cts[0]); *start = w_control(CT_START, l); return true; }
  *rp = w_parse(reply_bytes(i));
  if (rp->items.empty() || !rp->items[0].ctl || rp->items[0].type != CT_ACCEPT) return false;
  auto &acc = rp->items[0].cts;
  if (X->cts.empty()) { *start = w_control(CT_START, {}); return true; }
  for (auto &c : X->cts) if (acc.empty() || std::find(acc.begin(), acc.end(), c) != acc.end()) { *start = w_control(CT_START, {c}); return true; }
  return false;
}
// a and b agree as far as the shorter one goes
static bool is_prefix(const string &a, const string &of) { return a.size() <= of.size() && of.compare(0, a.size(), a) == 0; }
static void vbytes(const char *tags, const char *cls, const char *op, const string &got, const string &want, bool must_all) {
  if (must_all ? got == want : is_prefix(got, want)) return;
  size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
  violation(tags, cls, "%s: bytes sent differ from what the call had to send at offset %zu (sent %zu, expected %s%zu); stream:%s", op, d, got.size(), must_all ? "" : "a prefix of ", want.size(), w_describe(w_parse(got)).c_str());
}

// One API call and everything that can be said about it.
//  opens: the call may open the transport (from state OPENING; explicit: also from CLOSED)
static fstrm_res call(const char *op, bool opens, bool reopens, const string &payload, bool is_close, std::function<fstrm_res()> fn) {
  W *x = X; x->ops++;
  size_t n0 = n_streams(); string cur0 = n0 ? stream(n0 - 1) : ""; Err e0 = errs(); bool file = x->tr == 2;
  bool may_open = (x->st == OPENING && opens) || (x->st != OPENED && reopens) || (x->unsure && opens);
  bool active = x->st == OPENED && !x->broken && !x->unsure;
  EV(230, n0, payload.size(), "call %s (%zu payload bytes)", op, payload.size());
  fstrm_res r = fn();
  EV(231, r, 0, "%s returned %d", op, r);
  Err e1 = errs(); bool hard = e1.hard != e0.hard, excuse = hard || e1.soft != e0.soft;
  size_t n1 = n_streams(); bool fresh = n1 > n0;
  if (n1 > n0 + 1) violation("C10,C13", "extra-connections", "%s made %zu connections", op, n1 - n0);
  // whatever is not in use any more does not change
  for (size_t i = 0; i < x->frozen.size(); i++) if (stream(i) != x->frozen[i]) violation("C09,C08", "write-after-end", "%s sent bytes on connection %zu which had failed or been closed", op, i);
  if (fresh && !may_open) violation("C13,C09", "unexpected-open", "%s opened the transport again (writer state: %s%s)", op, x->st == OPENED ? "open" : x->st == CLOSED ? "closed" : "not opened", x->broken ? ", failed" : "");
  string hs, start; WParse rp; bool neg = false; size_t ci = n1 ? n1 - 1 : 0; bool hs_done = false;
  if (fresh) {
    while (x->frozen.size() < n1 - 1) x->frozen.push_back(stream(x->frozen.size()));
    neg = negotiated(ci, &start, &rp); string s = stream(ci);
    if (x->bidir) hs = w_control(CT_READY, x->cts);
    if (!neg && s.size() > hs.size()) violation("C10", "sent-without-accept", "%s: %zu bytes after READY were sent although the peer's answer (%s) does not allow to start; sent:%s", op, s.size() - hs.size(), rp.items.empty() ? rp.bad ? rp.why.c_str() : "incomplete" : w_describe(rp).c_str(), w_describe(w_parse(s)).c_str());
    if (neg) hs += start;
    if (x->too_long_ready && x->bidir && !s.empty()) violation("C10,C08", "oversized-ready", "READY frame over the control frame limit was sent");
    hs_done = neg && s.size() >= hs.size();
    vbytes("C08,C10", "handshake-bytes", op, s, hs + payload, r == fstrm_res_success && !file);
    x->model = r == fstrm_res_success ? hs + payload : "";
  } else if (n1) {
    string s = stream(ci);
    if (file && active) { vbytes("C08,C12", "file-bytes", op, s, x->model + payload, false); if (r == fstrm_res_success) x->model += payload; }
    else {
      if (s.compare(0, cur0.size(), cur0)) violation("C08", "bytes-changed", "bytes sent earlier changed");
      string delta = s.substr(cur0.size());
      if (!active && !(n1 && x->unsure && may_open)) { if (!delta.empty()) violation("C09,C08", "write-after-failure", "%s sent %zu bytes on a connection that had %s", op, delta.size(), x->st == CLOSED ? "been closed" : "failed"); }
      else if (active) { vbytes("C08,C09", "call-bytes", op, delta, payload, r == fstrm_res_success); if (r == fstrm_res_success) x->model += payload; }
    }
  }
  if (r == fstrm_res_success) {
    if (hard) violation("C09", "failure-hidden", "%s reported success although the transport failed", op);
    if (may_open && !fresh && !x->unsure) violation("C09,C10", "success-without-open", "%s reported success without opening the transport", op);
    if (fresh && !neg) violation("C10", "opened-without-accept", "%s succeeded although the peer did not accept", op);
    if (!may_open && !active && !(reopens && x->st == OPENED)) violation("C09", "success-on-dead", "%s succeeded on a writer that %s", op, x->st == CLOSED ? "was closed" : x->broken ? "had failed" : "was not open");
    if (is_close && x->bidir) {
      WParse q = w_parse(reply_bytes(ci));
      if (q.items.size() < 2 || !q.items[1].ctl || q.items[1].type != CT_FINISH) violation("C09", "close-without-finish", "close reported success although the peer sent no FINISH (answer:%s)", w_describe(q).c_str());
    }
    if (is_close && file) vbytes("C12,C09", "file-incomplete", op, stream(ci), x->model, true);
  } else if (r != fstrm_res_invalid) {
    bool justified = excuse || x->unsure || (!may_open && !active);
    if (!justified && may_open) { if (x->bidir && (!fresh || !neg || x->too_long_ready || x->border_ready)) justified = x->too_long_ready || x->border_ready || (fresh && !neg); }
    if (!justified && is_close && x->bidir && active) { WParse q = w_parse(reply_bytes(ci)); justified = q.items.size() < 2 || !q.items[1].ctl || q.items[1].type != CT_FINISH; }
    if (!justified) violation("C09,C10", "spurious-failure", "%s failed although the transport worked and the peer %s", op, is_close ? "confirmed" : "accepted");
  }
  // state after the call
  x->closed_ok = is_close && r == fstrm_res_success ? true : fresh ? false : x->closed_ok;
  if (is_close) {
    if (x->st == OPENED || x->unsure) { if (!x->unsure) x->st = CLOSED; x->broken = false; while (x->frozen.size() < n1) x->frozen.push_back(stream(x->frozen.size())); if (open_things()) violation("C13", "not-closed", "close returned %d but the transport is still open", r); }
  } else if (r == fstrm_res_success) { if (may_open) { x->broken = x->unsure && !fresh; x->st = OPENED; x->unsure = false; } if (opens && !reopens) x->frames_ok++; }
  else if (r != fstrm_res_invalid) {
    if (active) x->broken = true;
    else if (may_open) {
      if (reopens) { if (open_things()) violation("C13", "open-leaves-open", "open failed but left the transport open"); while (x->frozen.size() < n1) x->frozen.push_back(stream(x->frozen.size())); }
      else if (hs_done || (file && fresh)) x->unsure = true;
      else if (fresh) { if (open_things()) violation("C13", "open-leaves-open", "implicit open failed but left the transport open"); while (x->frozen.size() < n1) x->frozen.push_back(stream(x->frozen.size())); }
    }
  }
  if (x->st != OPENED && !x->unsure && open_things()) violation("C13", "left-open", "%s: %d descriptors open on a writer that is not open", op, open_things());
  return r;
}
static fstrm_res do_writev(const vector<string> &pl) {
  string bytes; size_t n = pl.size(); struct iovec *v = (struct iovec *)sim_malloc(n * sizeof *v); vector<void *> bufs; bool bad = false;
  for (size_t i = 0; i < n; i++) { bufs.push_back(simbuf(pl[i])); v[i].iov_base = bufs[i]; v[i].iov_len = pl[i].size(); bad |= pl[i].empty(); bytes += w_data(pl[i]); }
  if (bad) bytes.clear();
  bool single = n == 1 && choose(ST_OPS, 2);
  fstrm_res r = call(single ? "fstrm_writer_write" : "fstrm_writer_writev", true, false, bytes, false, [&] { return single ? fstrm_writer_write(X->w, bufs[0], pl[0].size()) : fstrm_writer_writev(X->w, v, n); });
  if (bad && r == fstrm_res_success) violation("C08,C09", "empty-frame-accepted", "a write with a zero length data frame, which cannot be represented, reported success");
  for (size_t i = 0; i < n; i++) { if (memcmp(bufs[i], pl[i].data(), pl[i].size())) violation("C08", "payload-modified", "payload modified by write"); if (v[i].iov_base != bufs[i] || v[i].iov_len != pl[i].size()) violation("C08", "iov-modified", "the caller's iovec was modified by write"); sim_free(bufs[i]); }
  sim_free(v); return r;
}
static void get_control(int st) {
  static const fstrm_control_type t[] = {FSTRM_CONTROL_ACCEPT, FSTRM_CONTROL_START, FSTRM_CONTROL_READY, FSTRM_CONTROL_FINISH, FSTRM_CONTROL_STOP};
  fstrm_control_type ty = t[choose(st, 5)]; struct fstrm_control *c = (struct fstrm_control *)0x10; W *x = X; St s0 = x->st; bool was = x->st == OPENED && !x->unsure;
  bool expect = ty == FSTRM_CONTROL_START || (x->bidir && (ty == FSTRM_CONTROL_ACCEPT || ty == FSTRM_CONTROL_READY));
  if (x->st == CLOSED && !x->unsure && x->closed_ok && x->bidir && ty == FSTRM_CONTROL_FINISH) {
    size_t n0 = n_streams(); string before = stream(n0 - 1); fstrm_res r = fstrm_writer_get_control(x->w, ty, &c); fstrm_control_type got;
    if (n_streams() != n0 || stream(n0 - 1) != before) violation("C09", "get-control-io", "get_control on a closed writer caused I/O");
    if (r != fstrm_res_success || !c || c == (void *)0x10 || fstrm_control_get_type(c, &got) != fstrm_res_success || got != ty) violation("C09", "no-control", "get_control does not return the FINISH frame after a successful close");
    return; }
  if (x->unsure || (!was && x->st != OPENING)) return;
  size_t n0 = n_streams();
  // like open as far as the transport is concerned, but may fail for a frame that does not exist
  fstrm_res r; bool asked = false; bool will_open = x->st == OPENING || x->unsure;
  if (will_open && !expect) { // open first so that the outcome is not mixed up with that of the opening
    call("fstrm_writer_open", true, true, "", false, [&] { return fstrm_writer_open(x->w); }); if (x->st != OPENED) return; n0 = n_streams(); was = true; will_open = false; }
  if (will_open) r = call("fstrm_writer_get_control", true, true, "", false, [&] { return fstrm_writer_get_control(x->w, ty, &c); });
  else { string before = n0 ? stream(n0 - 1) : ""; r = fstrm_writer_get_control(x->w, ty, &c); if (n_streams() != n0 || (n0 && stream(n0 - 1) != before)) violation("C09", "get-control-io", "get_control on an open writer caused I/O"); }
  (void)asked; (void)s0;
  EV(232, r, ty, "get_control(%s) = %d", ct_name(ty), r);
  if (r != fstrm_res_success) { if (expect && x->st == OPENED && !x->broken) violation("C09,C10", "no-control", "get_control(%s) failed on an open writer", ct_name(ty)); return; }
  if (!c || c == (void *)0x10) violation("C09", "null-control", "get_control(%s) reported success without returning a frame", ct_name(ty));
  if (!expect || x->st != OPENED || x->broken) return; // a FINISH frame of an earlier connection
  fstrm_control_type got; if (fstrm_control_get_type(c, &got) != fstrm_res_success || got != ty) violation("C09,C10", "wrong-control", "get_control(%s) returned another frame", ct_name(ty));
  size_t ci = n_streams() - 1; vector<string> want; if (ty == FSTRM_CONTROL_ACCEPT) { WParse q = w_parse(reply_bytes(ci)); want = q.items[0].cts; } else if (ty == FSTRM_CONTROL_READY) want = x->cts; else { string start; WParse q; negotiated(ci, &start, &q); WParse sp = w_parse(start); want = sp.items[0].cts; }
  size_t n = 0; fstrm_control_get_num_field_content_type(c, &n); if (n != want.size()) violation("C10", "wrong-control", "%s frame has %zu content types, %zu expected", ct_name(ty), n, want.size());
  for (size_t i = 0; i < n; i++) { const uint8_t *d; size_t l; if (fstrm_control_get_field_content_type(c, i, &d, &l) != fstrm_res_success || string((const char *)d, l) != want[i]) violation("C10", "wrong-control", "%s frame has a wrong content type", ct_name(ty)); }
}
static void mk() {
  W *x = X; struct fstrm_writer_options *wo = nullptr;
  if (!x->cts.empty() || choose(ST_CFG, 2)) {
    wo = fstrm_writer_options_init();
    for (auto &c : x->cts) { void *b = simbuf(c); if (fstrm_writer_options_add_content_type(wo, b, c.size()) != fstrm_res_success) violation("C10", "option-rejected", "content type of %zu bytes rejected", c.size()); memset(b, 'x', c.size()); sim_free(b); }
    if (choose(ST_CFG, 8) == 7) { string big(257 + choose(ST_CFG, 300), 'b'); if (fstrm_writer_options_add_content_type(wo, big.data(), big.size()) == fstrm_res_success) violation("C10", "long-content-type", "content type of %zu bytes accepted", big.size()); }
  }
  switch (x->tr) {
    case 0: { auto *o = fstrm_unix_writer_options_init(); if (choose(ST_CFG, 4) == 3) fstrm_unix_writer_options_set_socket_path(o, choose(ST_CFG, 2) ? "/other" : NULL); fstrm_unix_writer_options_set_socket_path(o, x->path.c_str()); x->w = fstrm_unix_writer_init(o, wo); fstrm_unix_writer_options_destroy(&o); break; }
    case 1: { auto *o = fstrm_tcp_writer_options_init(); if (choose(ST_CFG, 4) == 3) { fstrm_tcp_writer_options_set_socket_address(o, "192.0.2.7"); fstrm_tcp_writer_options_set_socket_port(o, "1"); } fstrm_tcp_writer_options_set_socket_address(o, x->addr.c_str()); fstrm_tcp_writer_options_set_socket_port(o, x->port.c_str()); x->w = fstrm_tcp_writer_init(o, wo); fstrm_tcp_writer_options_destroy(&o); break; }
    case 2: { auto *o = fstrm_file_options_init(); if (choose(ST_CFG, 4) == 3) fstrm_file_options_set_file_path(o, choose(ST_CFG, 2) ? "/other" : NULL); fstrm_file_options_set_file_path(o, x->path.c_str()); x->w = fstrm_file_writer_init(o, wo); fstrm_file_options_destroy(&o); break; }
    default: { struct fstrm_rdwr *r = mem_rdwr(x->mem); x->w = fstrm_writer_init(wo, &r); if (x->w && r) violation("C13", "transport-not-taken", "writer_init left the caller's transport pointer set"); }
  }
  if (wo) fstrm_writer_options_destroy(&wo);
  if (!x->w) violation("*", "init-failed", "writer init failed");
}
// Creating a writer or reader from options or transports that cannot work: NULL, nothing leaked, the transport stays with the caller.
static void failing_inits() {
  int st = ST_CFG; u64 mark = heap_mark(); struct fstrm_writer *w = (struct fstrm_writer *)0x10; string what; MemT m;
  switch (choose(st, 6)) {
    case 0: case 1: {
      static const char *const bad[][2] = {{nullptr, "53"}, {"127.0.0.1", nullptr}, {nullptr, nullptr}, {"300.1.1.1", "53"}, {"localhost.invalid", "53"}, {"", "53"}, {"127.0.0.1", "65536"}, {"127.0.0.1", "99999999999999999999"}, {"127.0.0.1", "domain"}, {"::1", "53x"}, {"::g", "53"}, {"::1", "65536"}};
      auto &b = bad[choose(st, 12)]; auto *o = fstrm_tcp_writer_options_init(); if (b[0] || choose(st, 2)) fstrm_tcp_writer_options_set_socket_address(o, b[0]); if (b[1] || choose(st, 2)) fstrm_tcp_writer_options_set_socket_port(o, b[1]);
      w = fstrm_tcp_writer_init(o, nullptr); fstrm_tcp_writer_options_destroy(&o); what = strf("TCP writer to address %s port %s", b[0] ? b[0] : "(not set)", b[1] ? b[1] : "(not set)"); break; }
    case 2: { auto *o = fstrm_unix_writer_options_init(); string p(108 + skewed(st, 200), '/'); bool set = choose(st, 3); if (set) fstrm_unix_writer_options_set_socket_path(o, p.c_str()); w = fstrm_unix_writer_init(o, nullptr); fstrm_unix_writer_options_destroy(&o); what = set ? "Unix writer with a path that does not fit" : "Unix writer without a path"; break; }
    case 3: { auto *o = fstrm_file_options_init(); w = fstrm_file_writer_init(o, nullptr); fstrm_file_options_destroy(&o); what = "file writer without a path"; break; }
    default: {
      bool rd = choose(st, 2); struct fstrm_rdwr *r = fstrm_rdwr_init(&m), *r0 = r; fstrm_rdwr_set_destroy(r, mem_op_destroy);
      if (rd) { auto *o = fstrm_file_options_init(); if (fstrm_file_reader_init(o, nullptr)) violation("C13", "bad-init-accepted", "file reader without a path was created"); fstrm_file_options_destroy(&o); w = (struct fstrm_writer *)fstrm_reader_init(nullptr, &r); } else w = fstrm_writer_init(nullptr, &r);
      what = rd ? "reader on a transport without read method" : "writer on a transport without write method";
      if (!w) { if (r != r0) violation("C13", "transport-taken", "creating a %s failed but took the transport from the caller", what.c_str()); else { if (m.destroyed) violation("C13", "transport-taken", "creating a %s failed but destroyed the transport", what.c_str()); fstrm_rdwr_destroy(&r); if (m.destroyed != 1 || r) violation("C13", "not-destroyed", "the transport was destroyed %d times", m.destroyed); } } } }
  if (w) { violation("C13", "bad-init-accepted", "a %s was created", what.c_str()); return; }
  struct fstrm_writer *nw = nullptr; fstrm_writer_destroy(&nw); struct fstrm_reader *nr = nullptr; fstrm_reader_destroy(&nr); struct fstrm_rdwr *nrw = nullptr; fstrm_rdwr_destroy(&nrw);
  size_t n; string lk = heap_leaks_since(mark, &n); if (n) violation("C13", "leak", "%zu heap blocks still allocated after creating a %s failed:%s", n, what.c_str(), lk.c_str());
  probe("writer or reader that cannot be created");
}
// The transport interface on its own: fstrm_rdwr_* over application methods.
static void rdwr_body(Proc *) {
  W *x = X; MemT *m = x->mem; u64 mark = heap_mark(); int st = ST_OPS; struct fstrm_rdwr *r; bool has_read = m->bidir, has_write = true, has_open = true, has_close = true;
  u32 k = choose(ST_CFG, 12); if (k == 0) has_open = false; if (k == 1) has_write = false; if (k == 2) has_close = false;
  r = fstrm_rdwr_init(m); if (m->has_destroy) fstrm_rdwr_set_destroy(r, mem_op_destroy); if (has_open) fstrm_rdwr_set_open(r, mem_op_open); if (has_close) fstrm_rdwr_set_close(r, mem_op_close); if (has_read) fstrm_rdwr_set_read(r, mem_op_read); if (has_write) fstrm_rdwr_set_write(r, mem_op_write);
  u32 nops = 1 + skewed(ST_CFG, 30), id = 0;
  for (u32 i = 0; i < nops; i++) {
    bool was = m->is_open; size_t no = m->opens.size(); int nc = m->n_close; fstrm_res res; MemSess *s = m->s.empty() ? nullptr : m->s.back(); bool broken = s && s->broken; size_t len0 = s ? s->out.size() : 0, in0 = s ? s->inpos : 0; x->ops++;
    switch (choose(st, 6)) {
      case 0: case 1: if (was) break; // opening twice is the caller's mistake
        res = fstrm_rdwr_open(r); if (m->opens.size() != no + has_open) violation("C13", "extra-connections", "fstrm_rdwr_open called the open method %zu times", m->opens.size() - no);
        if ((res == fstrm_res_success) != m->is_open) violation("C13,C09", "wrong-result", "fstrm_rdwr_open returned %d, the open method %s", res, m->is_open ? "succeeded" : has_open ? "failed" : "is missing"); break;
      case 2: case 3: { if (was && !has_close) break; // nothing to clean up with
        string p = choose(st, 3) == 0 ? w_control(CT_READY, {}) : w_data(pattern(id++, draw_len(300, st))); u32 cut = choose(st, p.size()); char *b = (char *)simbuf(p); struct iovec v[2] = {{b, cut}, {b + cut, p.size() - cut}}; res = fstrm_rdwr_write(r, v, 2); if (memcmp(b, p.data(), p.size())) violation("C08", "payload-modified", "payload modified by write"); sim_free(b);
        if (!was) { if (res == fstrm_res_success) violation("C09", "success-on-dead", "fstrm_rdwr_write succeeded on a transport that is not open"); break; }
        if (res == fstrm_res_success) { if (!has_write || s->broken || s->out.size() != len0 + p.size() || s->out.compare(len0, p.size(), p)) violation("C09,C08", "failure-hidden", "fstrm_rdwr_write reported success but %s", has_write ? s->broken ? "the transport failed" : "wrote something else" : "there is no write method"); if (!m->is_open) violation("C13", "unexpected-close", "a successful write closed the transport"); }
        else { if (has_write && !s->broken && !broken) violation("C09", "spurious-failure", "fstrm_rdwr_write failed although the write method succeeded"); if (has_write && (m->is_open || m->n_close != nc + 1)) violation("C13", "not-closed", "the transport was closed %d times after a write that failed", m->n_close - nc); }
        break; }
      case 4: { if (was && !has_close) break; size_t n = 1 + choose(st, 12); char *b = (char *)sim_malloc(n); res = fstrm_rdwr_read(r, b, n);
        if (!was || !has_read) { if (res == fstrm_res_success) violation("C09", "success-on-dead", "fstrm_rdwr_read succeeded %s", was ? "without a read method" : "on a transport that is not open"); }
        else if (res == fstrm_res_success) { if (s->broken || s->inpos != in0 + n || memcmp(b, s->in.data() + in0, n)) violation("C09", "failure-hidden", "fstrm_rdwr_read reported success but %s", s->broken ? "the transport failed" : "returned something else"); if (!m->is_open) violation("C13", "unexpected-close", "a successful read closed the transport"); }
        else { if (!s->broken && !broken) violation("C09", "spurious-failure", "fstrm_rdwr_read failed although the read method succeeded"); if (m->is_open || m->n_close != nc + 1) violation("C13", "not-closed", "the transport was closed %d times after a read that failed", m->n_close - nc); }
        sim_free(b); break; }
      default: res = fstrm_rdwr_close(r); if (!has_close) { if (was && res == fstrm_res_success) violation("C09", "failure-hidden", "fstrm_rdwr_close succeeded without a close method"); break; }
        if (m->n_close != nc + was) violation("C13", "double-close", "fstrm_rdwr_close called the close method %d times on %s transport", m->n_close - nc, was ? "an open" : "a closed");
        if (was && (res == fstrm_res_success) != !(s->close_failed || s->broken)) violation("C09", "wrong-result", "fstrm_rdwr_close returned %d, the close method %s", res, s->close_failed || s->broken ? "failed" : "succeeded");
    }
  }
  fstrm_rdwr_close(r); bool left = m->is_open; fstrm_rdwr_destroy(&r); if (r) violation("C13", "handle-not-cleared", "destroy left the pointer set");
  if (left && has_close) violation("C13", "not-closed", "fstrm_rdwr_close left the transport open");
  if (m->has_destroy && m->destroyed != 1) violation("C13", "not-destroyed", "custom transport destroyed %d times", m->destroyed);
  size_t n; string lk = heap_leaks_since(mark, &n); if (n) violation("C13", "leak", "%zu heap blocks still allocated after destroy:%s", n, lk.c_str());
  probe("run of the transport interface on its own");
}
static void scen_rdwr() {
  W *x = X; int st = ST_CFG; MemT *m = x->mem = new MemT; m->bidir = x->bidir; m->has_destroy = choose(st, 4) != 3; m->rest = draw_peer(true, {}, 0);
  if (choose(st, 3)) { u32 n = choose(st, 4); for (u32 i = 0; i < n; i++) m->open_fails.push_back(choose(st, 2)); m->p_write_fail = oneof(st, (const u32[]){0, 50, 300}); m->p_read_fail = oneof(st, (const u32[]){0, 100}); m->p_close_fail = oneof(st, (const u32[]){0, 200}); }
  run_app("app", rdwr_body);
}
static void body(Proc *p) {
  W *x = X; x->p = p; int st = ST_OPS; x->mark = heap_mark();
  u32 fi = choose(ST_CFG, 12); if (fi == 10) failing_inits();
  mk();
  bool many; u32 nops = 1 + draw_count(ST_CFG, 40, 60, &many); u32 maxlen = oneof(ST_CFG, (const u32[]){60, 300, 3000, 40000}); if (many) maxlen = 12; u32 style = choose(ST_CFG, 3); u32 id = 0;
  for (u32 i = 0; i < nops; i++) {
    u32 k = choose(st, 32);
    if (style == 1 && k >= 24) k = 3; if (style == 2 && k >= 4 && k < 20) k += 8;
    if (k < 14) { do_writev({pattern(id, draw_len(maxlen, st))}); id++; }
    else if (k < 20) { u32 n = many ? 2 : oneof(st, (const u32[]){2, 3, 5, 17, 63, 64, 65, 127, 128, 129, 130, 200, 256, 257, 300, 600}); vector<string> v; for (u32 j = 0; j < n; j++) v.push_back(pattern(id++, draw_len(n > 30 ? 60 : maxlen, st))); do_writev(v); }
    else if (k < 22) { call("fstrm_writer_open", true, true, "", false, [&] { return fstrm_writer_open(x->w); }); }
    else if (k < 25) { call("fstrm_writer_close", false, false, w_control(CT_STOP, {}), true, [&] { return fstrm_writer_close(x->w); }); }
    else if (k < 27) { call("fstrm_writer_close", false, false, w_control(CT_STOP, {}), true, [&] { return fstrm_writer_close(x->w); }); call("fstrm_writer_open", true, true, "", false, [&] { return fstrm_writer_open(x->w); }); }
    else if (k < 29) get_control(st);
    else if (k == 29) { vector<string> v; u32 n = 1 + choose(st, 4), z = choose(st, n); for (u32 j = 0; j < n; j++) v.push_back(j == z ? "" : pattern(id++, 8)); probe("write of an empty frame attempted"); do_writev(v); }
    else if (k == 30) { if (x->st == OPENED && !x->unsure && !x->broken && choose(st, 2)) { call("fstrm_writer_writev (no frames)", true, false, "", false, [&] { return fstrm_writer_writev(X->w, nullptr, 0); }); } else if (x->st == OPENED && !x->unsure && !x->broken) { struct iovec v{(void *)"x", (size_t)UINT32_MAX + 1 + 5}; fstrm_res r = call("fstrm_writer_writev", true, false, "", false, [&] { return fstrm_writer_writev(x->w, &v, 1); }); if (r == fstrm_res_success) violation("C08,C09", "huge-frame-accepted", "write of a frame over 4 GiB reported success"); } }
    else { sim_sleep((u64)choose(st, 2000) * MS); }
  }
  bool implicit = choose(ST_CFG, 2);
  if (!implicit) call("fstrm_writer_close", false, false, w_control(CT_STOP, {}), true, [&] { return fstrm_writer_close(x->w); });
  if (x->st == OPENED) call("fstrm_writer_destroy", false, false, w_control(CT_STOP, {}), true, [&] { return fstrm_writer_destroy(&x->w); });
  else { size_t n0 = n_streams(); fstrm_writer_destroy(&x->w); if (n_streams() != n0) violation("C13", "unexpected-open", "destroy opened the transport"); for (size_t i = 0; i < x->frozen.size(); i++) if (stream(i) != x->frozen[i]) violation("C09,C08", "write-after-end", "destroy sent bytes on a connection that had ended"); }
  if (fi == 11) failing_inits();
  if (x->w) violation("C13", "handle-not-cleared", "destroy left the pointer set");
  size_t n; string lk = heap_leaks_since(x->mark, &n); if (n) violation("C13", "leak", "%zu heap blocks still allocated after destroy:%s", n, lk.c_str());
  if (open_things()) violation("C13", "descriptor-leak", "%d descriptors still open after destroy", open_things());
  if (p->n_ebadf_close) violation("C13", "double-close", "%llu closes of unopened descriptors", (unsigned long long)p->n_ebadf_close);
  if (x->mem && x->mem->has_destroy && x->mem->destroyed != 1) violation("C13", "not-destroyed", "custom transport destroyed %d times", x->mem->destroyed);
}
void scen_writer() {
  W *x = X = new W; int st = ST_CFG; draw_sched_cfg();
  x->tr = choose(st, 5); x->bidir = x->tr <= 1 || x->tr == 3; x->path = x->tr == 0 ? draw_unix(st, "/sock") : "/out.fstrm"; x->key = x->tr == 1 ? draw_tcp(st, &x->addr, &x->port) : "unix:" + x->path;
  if (x->tr >= 3 && choose(st, 8) == 7) { scen_rdwr(); return; }
  bool healthy = choose(st, 3) == 2;
  u32 nct = oneof(st, (const u32[]){0, 1, 1, 2, 3, 4, 1, 20}); size_t bodylen = 4;
  for (u32 i = 0; i < nct; i++) { string c; switch (nct > 4 ? 7 : choose(st, 8)) { case 0: c = string(256, 'a' + i); break; case 1: c = ""; break; case 2: c = string(choose(st, 200), (char)i); break; case 3: c = i ? x->cts[choose(st, i)] : "proto:x"; break; case 4: c = strf("proto:%u", 0) + string(choose(st, 3), '!'); break; default: c = strf("proto:%u", i); } x->cts.push_back(c); bodylen += 8 + c.size(); }
  x->too_long_ready = bodylen > 512; x->border_ready = bodylen > 504 && bodylen <= 512;
  C.sockbuf = oneof(st, (const u32[]){65536, 100, 1000, 5000});
  C.p_short_send = oneof(st, (const u32[]){0, 50, 300, 700}); C.p_eintr = oneof(st, (const u32[]){0, 0, 100, 400}); C.p_short_read = oneof(st, (const u32[]){0, 200, 800}); C.net_delay_max_ns = oneof(st, (const u64[]){0, MS, 300 * MS});
  C.p_stall = oneof(st, (const u32[]){0, 0, 50}); C.stall_max_ns = 100 * MS;
  vector<PeerB> plan; PeerB rest;
  vector<string> known; for (u32 i = 0; i < x->cts.size(); i++) if (choose(st, 2)) known.push_back(x->cts[i]);
  if (known.empty()) known = x->cts;
  u32 nbad = healthy ? 0 : 1 + choose(st, 5); u64 slow = oneof(st, (const u64[]){0, 2 * NS, 20 * NS});
  for (u32 i = 0; i < nbad; i++) plan.push_back(draw_peer(choose(st, 3) == 2, choose(st, 2) ? known : x->cts, slow));
  rest = draw_peer(true, choose(st, 2) ? known : x->cts, slow);
  if (!healthy) {
    C.p_send_err = oneof(st, (const u32[]){0, 0, 20, 150}); C.p_recv_err = oneof(st, (const u32[]){0, 0, 100}); C.p_connect_err = oneof(st, (const u32[]){0, 100, 400}); C.p_socket_err = oneof(st, (const u32[]){0, 0, 100}); C.p_close_err = oneof(st, (const u32[]){0, 200});
    C.p_fopen_err = oneof(st, (const u32[]){0, 200}); C.p_fwrite_err = oneof(st, (const u32[]){0, 0, 50, 300}); C.p_fclose_err = oneof(st, (const u32[]){0, 200}); C.p_fshort = oneof(st, (const u32[]){0, 300}); C.disk_quota = choose(st, 4) == 3 ? (i64)skewed(st, 20000) : -1;
  }
  if (x->tr <= 1) { x->srv = start_server(x->key, x->tr == 1, plan, rest); if (!healthy && choose(st, 8) == 7) { x->srv->lis->refusing = true; at_time(now_ns() + (u64)choose(st, 3000) * MS, [x] { x->srv->lis->refusing = false; }); } }
  else if (x->mem = x->tr >= 3 ? new MemT : nullptr) {
    MemT *m = x->mem; m->bidir = x->tr == 3; m->plan = plan; m->rest = rest; m->has_destroy = choose(st, 4) != 3;
    if (!healthy) { u32 n = choose(st, 4); for (u32 i = 0; i < n; i++) m->open_fails.push_back(choose(st, 2)); m->p_write_fail = oneof(st, (const u32[]){0, 0, 50, 300}); m->p_read_fail = oneof(st, (const u32[]){0, 0, 100}); m->p_close_fail = oneof(st, (const u32[]){0, 200}); }
  } else { C.stdio_buf = oneof(st, (const u32[]){0, 64, 1000}); }
  run_app("app", body);
  if (x->srv) { NoFaults nf; for (size_t i = 1; i < x->srv->fibers.size(); i++) fiber_join(x->srv->fibers[i]); }
  bool any = false;
  for (size_t i = 0; i < n_streams(); i++) {
    string s = stream(i); WStream ws = w_writer_stream(s, x->bidir); any |= !ws.frames.empty();
    if (!ws.err.empty()) violation("C08", "malformed-stream", "connection %zu: %s; stream:%s", i, ws.err.c_str(), w_describe(w_parse(s)).c_str());
  }
  probe_n("writer calls", x->ops); probe_n("write calls that succeeded", x->frames_ok); if (any) probe("run with data on the wire");
}
