// The reader (fstrm_reader over files and custom transports) fed with well-formed,
// truncated and corrupted streams, by random API call sequences. Properties C11, C13.
#include "common.h"
#include "internal.h"
#include <algorithm>

string gen_stream(int st, bool bidir, const vector<string> &types, u32 maxframe, bool valid_only); // below
u32 g_gen_base;
namespace {
enum St { OPENING, OPENED, ENDED, FAILED, CLOSED, MAYBE }; // MAYBE: an implicit opening failed, or a read right after it
struct Sess { string in, out; size_t pos = 0, fail_read_at = SIZE_MAX, fail_write_at = SIZE_MAX; bool eof_is_stop = true, closed = false, broken = false, close_fail = false; };
struct R {
  int tr; bool bidir; Proc *p; vector<string> cts; size_t maxf = 1048576; bool default_opts = false; string path = "/in.fstrm"; u64 mark = 0;
  struct fstrm_reader *r = nullptr; vector<Sess *> ss; bool is_open = false; int destroyed = 0; bool has_destroy = true; vector<bool> open_fails; size_t nopen = 0; u64 hard = 0, read_errs = 0; bool healthy;
  St st = OPENING; string feed; size_t off = 0; vector<string> accept_want; bool refuse = false; vector<string> start_cts; bool stop_read = false; const uint8_t *lastp = nullptr; string lastd; u32 nsess = 0; size_t got = 0;
};
}
static R *X;
// ---- custom transport
static fstrm_res t_open(void *) {
  R *x = X; if (x->destroyed) violation("C13", "io-after-destroy", "open after destroy"); EV(240, x->nopen, 0, "custom transport open");
  if (x->is_open) violation("C13", "double-open", "transport opened again without being closed");
  size_t i = x->nopen++; if (i < x->open_fails.size() && x->open_fails[i]) { fault_fired("custom transport open fails"); x->hard++; return fstrm_res_failure; }
  Sess *s = new Sess; s->in = x->feed; x->ss.push_back(s);
  if (!x->healthy) { int st = ST_FAULT; if (choose(st, 4) == 3) s->fail_read_at = choose(st, s->in.size() + 1); if (choose(st, 8) == 7) s->fail_write_at = choose(st, 40); s->close_fail = choose(st, 6) == 5; }
  s->eof_is_stop = choose(ST_ENV, 2) == 0; x->is_open = true; return fstrm_res_success;
}
static fstrm_res t_close(void *) {
  R *x = X; EV(241, 0, 0, "custom transport close"); if (x->destroyed) violation("C13", "io-after-destroy", "close after destroy");
  if (!x->is_open) { violation("C13", "double-close", "transport closed while not open"); return fstrm_res_failure; }
  x->is_open = false; Sess *s = x->ss.back(); s->closed = true; if (s->close_fail) { x->hard++; fault_fired("custom transport close fails"); return fstrm_res_failure; } return fstrm_res_success;
}
static fstrm_res t_read(void *, void *d, size_t n) {
  R *x = X; if (!x->is_open) { violation("C13", "io-after-close", "read on a closed transport"); return fstrm_res_failure; } heap_check(d, n, true, "read method"); yield_point();
  Sess *s = x->ss.back(); if (s->broken) return fstrm_res_failure;
  if (s->pos + n > s->fail_read_at) { fault_fired("custom transport read fails"); x->hard++; x->read_errs++; s->broken = true; return fstrm_res_failure; }
  if (s->in.size() - s->pos < n) { s->broken = true; size_t k = s->in.size() - s->pos; memcpy(d, s->in.data() + s->pos, k); s->pos += k; return s->eof_is_stop ? fstrm_res_stop : fstrm_res_failure; }
  memcpy(d, s->in.data() + s->pos, n); s->pos += n; if (g_trace) ev("custom transport read %zu, at %zu", n, s->pos); return fstrm_res_success;
}
static fstrm_res t_write(void *, const struct iovec *v, int n) {
  R *x = X; if (!x->is_open) { violation("C13", "io-after-close", "write on a closed transport"); return fstrm_res_failure; } yield_point();
  Sess *s = x->ss.back(); if (s->broken) return fstrm_res_failure;
  for (int i = 0; i < n; i++) { heap_check(v[i].iov_base, v[i].iov_len, false, "write method"); s->out.append((const char *)v[i].iov_base, v[i].iov_len); }
  if (s->out.size() > s->fail_write_at) { s->out.resize(s->fail_write_at); fault_fired("custom transport write fails"); x->hard++; s->broken = true; return fstrm_res_failure; }
  return fstrm_res_success;
}
static fstrm_res t_destroy(void *) { if (X->destroyed++) violation("C13", "double-destroy", "transport destroyed twice"); return fstrm_res_success; }

// A control frame that is sound but for one thing.
string bad_control(int st, u32 type, const vector<string> &cts) {
  auto wrap = [&](const string &b) { return be32(0) + be32(b.size()) + b; }; auto field = [](u32 t, const string &v) { return be32(t) + be32(v.size()) + v; };
  string b = be32(type), one = cts.empty() ? "t" : cts[0]; for (auto &c : cts) b += field(1, c);
  switch (choose(st, 8)) {
    case 0: case 1: if (type == CT_STOP || type == CT_FINISH) return wrap(b + field(1, one)); if (type == CT_START) return wrap(be32(type) + field(1, one) + field(1, choose(st, 2) ? one : "second")); return wrap(b + field(1, string(257, 'l')));
    case 2: return wrap(b + field(1, string(257 + choose(st, 200 - std::min<u32>(b.size(), 190)), 'l')));       // content type too long
    case 3: { u32 n = 1 + choose(st, 20); return wrap(b + be32(1) + be32(n + 1 + choose(st, 200)) + string(n, 'o')); } // field overruns the frame
    case 4: return wrap(b + field(choose(st, 2) ? 0 : 2 + choose(st, 3), one));                                     // unknown field
    case 5: return wrap(b + string(1 + choose(st, 7), '\0'));                                                       // stray bytes
    case 6: return wrap(b + be32(1) + be32(0xffffffffu - choose(st, 9)) + one);                                     // hostile length
    default: return be32(0) + be32(3 - choose(st, 4)) + b;                                                          // shorter than its type
  }
}
// ---- stream generator: a well-formed stream, then damaged in up to a few places
string gen_stream(int st, bool bidir, const vector<string> &types, u32 maxframe, bool valid_only) {
  vector<string> it; vector<string> rl;
  auto pick = [&]() -> vector<string> { vector<string> v; u32 k = choose(st, 8); if (k == 7) return v; if (k == 6) { v.push_back("z-other"); return v; } if (!types.empty()) v.push_back(types[choose(st, types.size())]); else if (k == 5) v.push_back("any"); return v; };
  if (bidir) { u32 n = choose(st, 16) == 15 ? 16 + skewed(st, 30) : choose(st, 4); size_t len = 4; for (u32 i = 0; i < n; i++) { auto v = pick(); if (!v.empty()) { if (i >= 16 && len + 8 + v[0].size() > 512) break; len += 8 + v[0].size(); rl.push_back(v[0]); } } if (choose(st, 10) == 9) w_pad(rl, valid_only || choose(st, 3) ? 512 : 513 + choose(st, 20)); it.push_back(w_control(CT_READY, rl)); }
  it.push_back(w_control(CT_START, pick()));
  bool many; u32 n = draw_count(st, 40, 50, &many);
  for (u32 i = 0; i < n; i++) {
    u32 k = choose(st, 40); if (many && (k < 39 || choose(st, 40))) { it.push_back(w_data(pattern(g_gen_base + i, 5 + choose(st, 12)))); continue; }
    if (k == 39 && !valid_only) it.push_back(w_control(1 + choose(st, 5), choose(st, 2) ? vector<string>{"mid"} : vector<string>{}));
    else if (k == 38 && !valid_only) it.push_back(be32(0) + be32(4) + be32(6 + choose(st, 1000)));
    else if (k >= 35) { u32 big = maxframe > 4096 ? 4096 : maxframe; it.push_back(w_data(pattern(g_gen_base + 1000 + i, big - (k == 35) + (k == 37 && !valid_only)))); }
    else it.push_back(w_data(k == 34 ? string(1 + choose(st, 4), (char)choose(st, 256)) : pattern(g_gen_base + i, draw_len(std::min<u32>(maxframe, 3000), st))));
  }
  it.push_back(w_control(CT_STOP, {}));
  if (choose(st, 4) == 3) { u32 k = choose(st, 4); if (k == 0) it.push_back(w_data("after the end")); else if (k == 1) it.push_back(w_control(CT_START, {})); else if (k == 2) it.push_back("\1\2\3"); else it.push_back(w_control(CT_STOP, {})); }
  u32 nm = valid_only ? 0 : choose(st, 4);
  for (u32 m = 0; m < nm; m++) {
    u32 k = choose(st, 9); if (it.empty()) break; u32 j = choose(st, it.size()); string &s = it[j];
    switch (k) {
      case 0: it.erase(it.begin() + j); break;                                      // item lost
      case 1: { string d = s; it.insert(it.begin() + j, d); break; }                // item doubled
      case 2: if (!s.empty()) s[choose(st, s.size())] ^= 1 << choose(st, 8); break; // bit flip anywhere
      case 3: if (!s.empty()) s[choose(st, std::min<u32>(s.size(), 16))] ^= 1 << choose(st, 8); break; // ... in the header
      case 4: s.resize(choose(st, s.size() + 1)); break;                            // bytes lost inside
      case 5: if (s.size() >= 8) { static const u32 l[] = {0, 3, 4, 511, 512, 513, 0xffffffffu, 0x7fffffffu, 1048577, 2000000}; u32 v = oneof(st, l); string b = be32(v); memcpy(&s[choose(st, 2) * 4], b.data(), 4); } break; // hostile lengths
      case 6: { it.resize(j); break; }                                              // ends early, at a frame boundary
      case 7: { s.resize(choose(st, s.size() + 1)); it.resize(j + 1); break; }      // ends early, inside a frame
      case 8: { u32 w = choose(st, 3); if (w == 2) it.insert(it.begin() + j, bad_control(st, 1 + choose(st, 5), {})); else { u32 q = w == 0 ? (bidir && it.size() > 1 ? choose(st, 2) : 0) : 0; if (w == 1) for (u32 i = 0; i < it.size(); i++) if (it[i] == w_control(CT_STOP, {})) { q = i; break; } WItem wi; if (w_one(it[q], 0, wi) == 1 && wi.ctl) it[q] = bad_control(st, wi.type, wi.cts); } break; } // a control frame with one fault
    }
  }
  string r; for (auto &s : it) r += s; return r;
}
static bool unknown_ctl(const string &s, size_t o, size_t *end) { // complete control frame of an unknown type
  if (s.size() - o < 12 || rd32(s, o)) return false; u32 l = rd32(s, o + 4), t = rd32(s, o + 8); if (l < 4 || l > 512 || s.size() - o - 8 < l || (t >= 1 && t <= 5)) return false; *end = o + 8 + l; return true;
}
static int open_things() { return X->tr ? X->is_open : std::max(proc_open_fds(X->p), proc_open_files(X->p)); }
static u64 hard() { return X->hard + X->p->fault_errs; }

static void new_feed() {
  R *x = X; int st = ST_OPS; x->feed = gen_stream(st, x->bidir, x->cts, x->maxf, choose(st, 4) == 3); x->nsess++;
  if (x->tr == 0) { if (choose(st, 20) == 19 && !x->healthy) { K.fs.erase(x->path); x->hard++; x->feed.clear(); } else inode_put(x->path, x->feed); }
}
// what opening has to find: true if it must succeed; sets off behind the handshake
static bool open_expect(bool *border) {
  R *x = X; size_t o = 0; WItem it; const string &s = x->feed; x->accept_want.clear(); x->refuse = false; *border = false;
  if (x->bidir) {
    if (w_one(s, o, it) != 1 || !it.ctl || it.type != CT_READY) return false;
    size_t b = 4; for (auto &c : x->cts) if (it.cts.empty() || std::find(it.cts.begin(), it.cts.end(), c) != it.cts.end()) { x->accept_want.push_back(c); b += 8 + c.size(); }
    if (!x->cts.empty() && x->accept_want.empty()) { x->refuse = true; return false; } // nothing in common; an ACCEPT without content types would mean any
    if (b > 512) return false; if (b > 504) *border = true;
    o = it.end;
  }
  if (w_one(s, o, it) != 1 || !it.ctl || it.type != CT_START) return false;
  if (!x->cts.empty() && !it.cts.empty() && std::find(x->cts.begin(), x->cts.end(), it.cts[0]) == x->cts.end()) return false;
  x->start_cts = it.cts; x->off = it.end; return true;
}
static void after_open(const char *op, bool ok, u64 h0, bool implicit, size_t ss0) { // bookkeeping common to explicit and implicit opening
  R *x = X; bool border; bool must = open_expect(&border); bool hd = hard() != h0;
  if (ok && !must) violation("C11,C16", "bad-handshake-accepted", "%s succeeded on a stream that does not begin with an acceptable handshake:%s", op, w_describe(w_parse(x->feed)).c_str());
  if (!ok && must && !hd && !border) violation("C11", "good-handshake-refused", "%s failed on a stream with an acceptable handshake:%s", op, w_describe(w_parse(x->feed)).c_str());
  if (ok && hd && !implicit) violation("C11", "failure-hidden", "%s reported success although the transport failed", op);
  if (x->bidir && x->tr && x->ss.size() > ss0) {
    Sess *s = x->ss.back(); string a = x->refuse ? "" : w_control(CT_ACCEPT, x->accept_want); WItem it; bool ready = w_one(x->feed, 0, it) == 1 && it.ctl && it.type == CT_READY;
    if (!ready && !s->out.empty()) violation("C16,C11", "accept-without-ready", "%s answered something that is not a READY frame", op);
    if (ok ? s->out != a : a.compare(0, s->out.size(), s->out)) violation("C16", "wrong-accept", "%s sent%s instead of%s", op, w_describe(w_parse(s->out)).c_str(), w_describe(w_parse(a)).c_str());
  }
  x->stop_read = false;
  if (ok) { x->st = OPENED; if (!implicit && open_things() != 1) violation("C13", "not-open", "opened, but %d transports are open", open_things()); }
  else if (open_things()) violation("C13", "open-leaves-open", "%s failed but left the transport open", op);
}
static void do_open() {
  R *x = X; u64 h0 = hard(); size_t ss0 = x->ss.size(); St s0 = x->st; size_t n0 = x->tr ? x->nopen : x->p->n_open;
  if (s0 != OPENED && s0 != ENDED && choose(ST_OPS, 2)) new_feed();
  EV(250, s0, 0, "call fstrm_reader_open");
  fstrm_res r = fstrm_reader_open(x->r); EV(251, r, 0, "fstrm_reader_open returned %d", r);
  size_t n1 = x->tr ? x->nopen : x->p->n_open;
  if (s0 == OPENED || s0 == ENDED) { if (n1 != n0) violation("C13", "double-open", "open on a reader that is already open opened the transport again"); if (r == fstrm_res_success && s0 == ENDED) violation("C11", "reopened-at-end", "open reported success on a reader that has read STOP and was not closed"); return; }
  if ((s0 == FAILED || s0 == MAYBE) && r != fstrm_res_success && n1 == n0) return; // refusing is fine
  after_open("fstrm_reader_open", r == fstrm_res_success, h0, false, ss0);
}
static void do_read() {
  R *x = X; u64 e0 = x->read_errs, h0 = hard(); size_t ss0 = x->ss.size(); St s0 = x->st; const uint8_t *d = nullptr; size_t len = 0;
  if (x->lastp && s0 != CLOSED) { heap_check(x->lastp, x->lastd.size(), false, "frame returned by the last read"); if (memcmp(x->lastp, x->lastd.data(), x->lastd.size())) violation("C11", "frame-changed", "the frame returned by the last read changed before the next read"); }
  x->lastp = nullptr;
  if (s0 == OPENING && choose(ST_OPS, 4) == 3) new_feed();
  EV(252, s0, 0, "call fstrm_reader_read"); size_t n0 = x->tr ? x->nopen : x->p->n_open;
  fstrm_res r = fstrm_reader_read(x->r, &d, &len); bool hd = hard() != h0; EV(253, r, len, "fstrm_reader_read returned %d (%zu bytes)", r, r ? 0 : len);
  size_t n1 = x->tr ? x->nopen : x->p->n_open;
  if (s0 == MAYBE && n1 != n0) s0 = OPENING;
  if (s0 != OPENING && n1 != n0) violation("C13,C11", "unexpected-open", "read opened the transport again");
  if (s0 == OPENING) {
    bool border; bool must = open_expect(&border);
    if (!must || (r != fstrm_res_success && open_things() == 0 && (hd || border))) { // opening failed - or something soon after it, in which case the reader is in the failed state
      after_open("fstrm_reader_read", false, r == fstrm_res_success ? h0 : h0 - 1, true, ss0); if (r == fstrm_res_success) violation("C11", "read-without-handshake", "read returned a frame from a stream that does not begin with an acceptable handshake:%s", w_describe(w_parse(x->feed)).c_str());
      if (must) x->st = MAYBE; return; }
    after_open("fstrm_reader_read", true, h0, true, ss0);
  }
  if (s0 != OPENING && s0 != OPENED) { if (r == fstrm_res_success) violation("C11", "success-after-end", "read returned a frame after the end of the stream had been reported"); return; }
  // the next thing in the stream
  WItem it; string why; bool tolerated = false; enum { FRAME, STOP, BAD } want = BAD; string what;
  for (;;) {
    int k = w_one(x->feed, x->off, it, &why); size_t e;
    if (k == 0) { what = "the stream ends"; break; }
    if (k < 0) { if (unknown_ctl(x->feed, x->off, &e)) { x->off = e; tolerated = true; continue; } what = why; if (x->feed.size() - x->off >= 8 && !rd32(x->feed, x->off) && x->feed.size() - x->off - 8 < rd32(x->feed, x->off + 4)) what = "the stream ends"; break; }
    if (!it.ctl) { if (it.data.size() > x->maxf) { what = "frame over max_frame_size"; break; } want = FRAME; break; }
    if (it.type == CT_STOP) { want = STOP; break; }
    x->off = it.end; tolerated = true;
  }
  if (r == fstrm_res_success) {
    if (want != FRAME) violation("C11", want == STOP ? "frame-after-stop" : "invented-frame", "read returned a frame of %zu bytes where %s", len, want == STOP ? "STOP was next" : what.c_str());
    if (!d && len) violation("C11", "invented-frame", "read returned success without a frame");
    heap_check(d, len, false, "frame returned by read");
    string g((const char *)d, len); if (g != it.data) violation("C11", "wrong-frame", "read returned %s, the stream has %s", w_brief(g).c_str(), w_brief(it.data).c_str());
    x->lastp = d; x->lastd = g; x->off = it.end; x->st = OPENED; x->got++; return;
  }
  if (want == FRAME && !tolerated && !hd) violation("C11", "frame-withheld", "read returned %d where the stream has a complete frame of %zu bytes", r, it.data.size());
  if (want == STOP && !tolerated && !hd && r != fstrm_res_stop) violation("C11", "stop-not-reported", "read returned %d at STOP", r);
  if (want == STOP && r == fstrm_res_stop) {
    // a transport failure can look like an end of the stream as well
    const struct fstrm_control *c = nullptr; if (fstrm_reader_get_control(x->r, FSTRM_CONTROL_STOP, &c) == fstrm_res_success) x->stop_read = true;
    else if (x->read_errs != e0) violation("C11", "error-as-end", "read reported a regular end although the transport reported an error");
    else if (!hd && !tolerated) violation("C11", "stop-not-reported", "STOP was read but get_control does not report it");
    x->st = x->stop_read ? ENDED : FAILED; x->off = it.end; return; }
  if (want == BAD && r == fstrm_res_stop && what != "the stream ends" && !tolerated && !hd) violation("C11", "error-as-end", "read reported a regular end where the stream is malformed (%s)", what.c_str());
  if (r == fstrm_res_stop && x->read_errs != e0) violation("C11", "error-as-end", "read reported a regular end although the transport reported an error");
  probe("read ended in failure"); x->st = FAILED;
}
static void do_close(bool destroy = false) {
  R *x = X; u64 h0 = hard(); St s0 = x->st; Sess *s = x->tr && !x->ss.empty() ? x->ss.back() : nullptr; string out0 = s ? s->out : "";
  EV(254, s0, 0, "call fstrm_reader_%s", destroy ? "destroy" : "close"); fstrm_res r = destroy ? fstrm_reader_destroy(&x->r) : fstrm_reader_close(x->r); EV(255, r, 0, "fstrm_reader_%s returned %d", destroy ? "destroy" : "close", r);
  bool ok0 = s0 == OPENED || s0 == ENDED; x->lastp = nullptr;
  if (!ok0 && r == fstrm_res_success) violation("C13,C11", "close-of-closed", "close reported success on a reader that is not open");
  if (open_things() && (ok0 || s0 == FAILED || s0 == MAYBE)) violation("C13", "not-closed", "close left the transport open");
  if (ok0) {
    string fin = x->bidir ? w_control(CT_FINISH, {}) : ""; string dlt = s ? s->out.substr(out0.size()) : "";
    if (x->bidir && (r == fstrm_res_success ? dlt != fin : fin.compare(0, dlt.size(), dlt))) violation("C16", "wrong-finish", "close sent%s", w_describe(w_parse(dlt)).c_str());
    if (r == fstrm_res_success && hard() != h0) violation("C11", "failure-hidden", "close reported success although the transport failed");
    if (r != fstrm_res_success && hard() == h0 && !(s && s->broken)) violation("C11,C16", "close-failed", "close failed without a reason");
    x->st = CLOSED;
  } else if (s && s->out != out0) violation("C16", "wrong-finish", "close of a reader that is not open sent something");
}
static void do_get_control() {
  R *x = X; static const fstrm_control_type t[] = {FSTRM_CONTROL_START, FSTRM_CONTROL_STOP, FSTRM_CONTROL_READY, FSTRM_CONTROL_ACCEPT, FSTRM_CONTROL_FINISH}; fstrm_control_type ty = oneof(ST_OPS, t);
  if (x->st == MAYBE) return;
  if (x->st == OPENING) { do_open(); if (x->st != OPENED) return; }
  const struct fstrm_control *c = (const struct fstrm_control *)0x10; fstrm_res r = fstrm_reader_get_control(x->r, ty, &c); EV(256, r, ty, "get_control(%s) = %d", ct_name(ty), r);
  bool live = x->st == OPENED || x->st == ENDED;
  if (r == fstrm_res_success) {
    if (!c || c == (void *)0x10) violation("C11", "null-control", "get_control(%s) reported success without returning a frame", ct_name(ty));
    if (ty == FSTRM_CONTROL_FINISH) violation("C11", "wrong-control", "get_control(FINISH) succeeded");
    if (ty == FSTRM_CONTROL_STOP && !x->stop_read && x->st != CLOSED) violation("C11", "stop-claimed", "get_control reports a STOP frame although none was read");
    fstrm_control_type g; if (ty != FSTRM_CONTROL_FINISH && live) {
      if (fstrm_control_get_type(c, &g) != fstrm_res_success || g != ty) violation("C11", "wrong-control", "get_control(%s) returned another frame", ct_name(ty));
      vector<string> want; if (ty == FSTRM_CONTROL_START) want = x->start_cts; else if (ty == FSTRM_CONTROL_ACCEPT) want = x->accept_want; else if (ty == FSTRM_CONTROL_READY) { WItem it; w_one(x->feed, 0, it); want = it.cts; }
      size_t n = 0; fstrm_control_get_num_field_content_type(c, &n); if (n != want.size()) violation("C11", "wrong-control", "%s frame has %zu content types, %zu expected", ct_name(ty), n, want.size());
      for (size_t i = 0; i < n; i++) { const uint8_t *d; size_t l; if (fstrm_control_get_field_content_type(c, i, &d, &l) != fstrm_res_success || string((const char *)d, l) != want[i]) violation("C11", "wrong-control", "%s frame has a wrong content type", ct_name(ty)); }
    }
  } else if (live && (ty == FSTRM_CONTROL_START || (ty == FSTRM_CONTROL_STOP && x->stop_read) || (x->bidir && (ty == FSTRM_CONTROL_READY || ty == FSTRM_CONTROL_ACCEPT)))) violation("C11", "no-control", "get_control(%s) failed", ct_name(ty));
}
static void body(Proc *p) {
  R *x = X; x->p = p; int st = ST_OPS; x->mark = heap_mark(); new_feed();
  struct fstrm_reader_options *ro = nullptr;
  if (!x->default_opts) {
    ro = fstrm_reader_options_init(); for (auto &c : x->cts) { void *b = simbuf(c); if (fstrm_reader_options_add_content_type(ro, b, c.size()) != fstrm_res_success) violation("C11", "option-rejected", "content type rejected"); memset(b, 'x', c.size()); sim_free(b); }
    if (x->maxf != 1048576 && fstrm_reader_options_set_max_frame_size(ro, x->maxf) != fstrm_res_success) violation("C11", "option-rejected", "max_frame_size %zu rejected", x->maxf);
    if (choose(ST_CFG, 4) == 3) { if (fstrm_reader_options_set_max_frame_size(ro, choose(ST_CFG, 512)) == fstrm_res_success || fstrm_reader_options_set_max_frame_size(ro, UINT32_MAX) == fstrm_res_success) violation("C11", "option-accepted", "invalid max_frame_size accepted"); string big(257 + choose(ST_CFG, 300), 'b'); if (fstrm_reader_options_add_content_type(ro, big.data(), big.size()) == fstrm_res_success) violation("C11", "option-accepted", "content type of %zu bytes accepted", big.size()); }
  }
  if (x->tr == 0) { auto *o = fstrm_file_options_init(); fstrm_file_options_set_file_path(o, x->path.c_str()); x->r = fstrm_file_reader_init(o, ro); fstrm_file_options_destroy(&o); }
  else { struct fstrm_rdwr *rw = fstrm_rdwr_init(x); if (x->has_destroy) fstrm_rdwr_set_destroy(rw, t_destroy); fstrm_rdwr_set_open(rw, t_open); fstrm_rdwr_set_close(rw, t_close); fstrm_rdwr_set_read(rw, t_read); if (x->bidir) fstrm_rdwr_set_write(rw, t_write); x->r = fstrm_reader_init(ro, &rw); if (x->r && rw) violation("C13", "transport-not-taken", "reader_init left the caller's transport pointer set"); }
  if (ro) fstrm_reader_options_destroy(&ro);
  if (!x->r) violation("*", "init-failed", "reader init failed");
  size_t live0 = heap_live_bytes(), lim = live0 + 3 * std::max<size_t>(x->maxf, 512) + 16384; heap_peak(true);
  u32 nops = 1 + skewed(ST_CFG, 60);
  for (u32 i = 0; i < nops; i++) {
    u32 k = choose(st, 32);
    if (k < 24) { do_read(); } else if (k < 26) do_open(); else if (k < 27) do_close(); else if (k < 29) { do_close(); do_open(); } else do_get_control();
    if (heap_peak() > lim) violation("C25", "reader-memory", "the reader held %zu bytes of memory more than after its creation; max_frame_size is %zu", heap_peak() - live0, x->maxf);
    if (x->st == FAILED && open_things()) probe("transport still open after a failed read");
    if (k == 0) { u32 n = choose(st, 60) * (x->feed.size() > 4000 ? 40 : 1); for (u32 j = 0; j < n && x->st == OPENED; j++) do_read(); }
  }
  if (choose(ST_CFG, 2)) do_close();
  if (x->lastp) { heap_check(x->lastp, x->lastd.size(), false, "frame returned by the last read"); if (memcmp(x->lastp, x->lastd.data(), x->lastd.size())) violation("C11", "frame-changed", "frame changed"); }
  do_close(true); if (x->r) violation("C13", "handle-not-cleared", "destroy left the pointer set");
  size_t n; string lk = heap_leaks_since(x->mark, &n); if (n) violation("C13", "leak", "%zu heap blocks still allocated after destroy:%s", n, lk.c_str());
  if (open_things()) violation("C13", "descriptor-leak", "the transport is still open after destroy");
  if (p->n_ebadf_close) violation("C13", "double-close", "%llu closes of unopened descriptors", (unsigned long long)p->n_ebadf_close);
  if (x->tr && x->has_destroy && x->destroyed != 1) violation("C13", "not-destroyed", "custom transport destroyed %d times", x->destroyed);
  probe_n("frames read and compared", x->got); probe_n("streams fed", x->nsess);
}
void scen_reader() {
  R *x = X = new R; K.on_read_err = [](Inode *, size_t) { X->read_errs++; }; int st = ST_CFG; draw_sched_cfg(); C.sync_pct = 0; C.gap_mean = 0;
  x->tr = choose(st, 3); x->bidir = x->tr == 2; x->healthy = choose(st, 2);
  x->default_opts = choose(st, 6) == 5;
  if (!x->default_opts) { u32 n = choose(st, 16) == 15 ? 12 + skewed(st, 290) : choose(st, 4); for (u32 i = 0; i < n; i++) { u32 k = n > 4 ? 0 : choose(st, 6); x->cts.push_back(k == 5 ? string(256, 'l') : k == 4 ? "" : strf("proto:%u", i)); } x->maxf = oneof(st, (const size_t[]){1048576, 512, 513, 600, 1000, 3000}); }
  C.p_short_read = oneof(st, (const u32[]){0, 200, 800}); C.stdio_buf = oneof(st, (const u32[]){0, 16, 64, 1000}); x->has_destroy = choose(st, 4) != 3;
  if (!x->healthy) { C.p_fread_err = oneof(st, (const u32[]){0, 0, 30, 200}); C.p_fopen_err = oneof(st, (const u32[]){0, 0, 200}); u32 n = choose(st, 3); for (u32 i = 0; i < n; i++) x->open_fails.push_back(choose(st, 2)); }
  run_app("app", body);
}
