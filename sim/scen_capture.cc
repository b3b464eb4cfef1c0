// fstrm_capture: the real program with the real libevent and stdio, simulated clients
// (well-behaved, broken, slow, vanishing), signals, clock jumps and disk faults.
// Properties C17, C18, C19, C20, C21.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <map>
#include <set>
#include <signal.h>
#include <time.h>
extern "C" int capture_main(int, char **);
string gen_stream(int st, bool bidir, const vector<string> &types, u32 maxframe, bool valid_only);
string bad_control(int st, u32 type, const vector<string> &cts);
extern u32 g_gen_base;

namespace {
// What a byte stream sent by one client entitles it to.
struct Ref {
  vector<string> fr; vector<size_t> end; size_t accept_off = SIZE_MAX, finish_off = SIZE_MAX; // bytes after which ACCEPT / FINISH is due
  size_t may = SIZE_MAX, must = SIZE_MAX; string why; size_t skipped = 0;                   // protocol violation: earliest / latest offset at which it shows
};
struct Cl {
  int id = 0, kind = 0; string S; size_t wait_at = SIZE_MAX, cut = SIZE_MAX; bool cut_rst = false, half_close = false, hold = false; int frag = 0; u64 gap = 0, start = 0, linger = 0; u32 chunk = 1; vector<size_t> items;
  ConnRec *c = nullptr; Ref r; bool good = false, done = false, sent_all = false; string got; u64 silent = 0; bool reads = true; size_t gb = 0;
  // monitor state
  u64 must_since = 0, acc_since = 0, fin_since = 0, stuck_since = 0, gone_since = 0, done_since = 0; size_t last_recv = 0;
  vector<std::pair<size_t, i64>> recv; // (bytes received so far, wall clock)
};
struct Seg { Inode *ino; size_t g; u64 t; i64 real; string name; };
struct Opn { u64 t; };
struct Hup { u64 t; vector<size_t> n; };
struct CP {
  Proc *p = nullptr; string ct; size_t B = 262144; u32 N = 0; bool tcp = false; string key, addr, port, path; int out = 0; string fname; bool local = false; u32 split = 0; vector<Cl *> cl; vector<Seg> segs; bool stalled = false, dbg = false, longrun = false; u64 t_term = 0; bool term_sent = false; int term_sig = 0;
  vector<u64> usr1; size_t usr1_used = 0; vector<Hup> hups; bool stop = false; u64 wait_since = 0; bool killed = false; std::map<string, std::pair<int, int>> owner; std::set<string> dup; bool disk_faulty = false;
  u32 churn = 0, crowd = 0, maxopen = 0, served = 0, c_open = 0, c_acc = 0, c_peak = 0, o_open = 0; std::set<ConnRec *> churned; bool churn_done = true, crowd_done = true; size_t base_blocks = 0; u64 quiet_since = 0;
};
}
static CP *X;
static Ref reference(const string &S, const string &ct, size_t B) {
  Ref r; size_t o = 0; int st = 0;
  auto viol = [&](size_t may, size_t must, const char *why) { r.may = may; r.must = must; r.why = why; };
  while (o + 4 <= S.size()) {
    u64 L = rd32(S, o);
    if (L) {
      if (st == 3) break;
      u64 tot = 4 + L;
      if (st != 2) { viol(o + 4, std::min<u64>(o + tot, o + std::max<size_t>(B, 4)), st == 0 ? "data before the handshake" : "data before START"); break; }
      if (tot > B) { r.skipped++; if (o + tot > S.size()) break; o += tot; continue; }
      if (o + tot > S.size()) break;
      r.fr.push_back(S.substr(o, tot)); o += tot; r.end.push_back(o);
    } else {
      if (o + 8 > S.size()) break;
      u64 cl = rd32(S, o + 4), tot = 8 + cl; if (st == 3) break;
      if (cl < 4 || cl > 512) { viol(o + 8, o + 8, "control frame length out of range"); break; }
      if (tot > B) { viol(o + 8, std::min<u64>(o + tot, o + B), "control frame over the buffer size"); break; }
      if (o + tot > S.size()) { if (S.size() >= o + 12) r.may = o + 12; break; }
      WItem it; string why; if (w_one(S, o, it, &why) < 0) { viol(o + 8, o + tot, "malformed control frame"); break; }
      bool match = it.cts.empty() || std::find(it.cts.begin(), it.cts.end(), ct) != it.cts.end();
      if (st == 0 && it.type == CT_READY && match) { st = 1; r.accept_off = o + tot; }
      else if (st == 1 && it.type == CT_START && match) st = 2;
      else if (st == 2 && it.type == CT_STOP) { st = 3; r.finish_off = o + tot; }
      else { viol(o + 12, o + tot, st == 0 && it.type == CT_READY ? "no common content type in READY" : st == 1 && it.type == CT_START ? "wrong content type in START" : "control frame out of place"); break; }
      o += tot;
    }
  }
  return r;
}
static string reply_upto(const Ref &r, const string &ct, size_t n) { string s; if (r.accept_off <= n) s += w_control(CT_ACCEPT, {ct}); if (r.finish_off <= n) s += w_control(CT_FINISH, {}); return s; }
static string seg_data(const Seg &s) { return s.ino->generations.size() > s.g ? s.ino->generations[s.g] : s.ino->data; }
static bool alive() { return !X->p->exited; }
static bool running() { return alive() && X->p->n_polls > 0; }

// ---- clients
static void build(Cl *c, int st) {
  CP *x = X; vector<string> it; u32 kind = choose(st, 16); bool many_ok = true;
  c->kind = kind < 8 ? 0 : kind < 10 ? 1 : kind < 12 ? 2 : kind == 12 ? 3 : kind == 13 ? 4 : kind == 14 ? 5 : 6;
  bool bigctl = x->B < 520 && c->kind >= 2 && choose(st, 2); // control frames that do not fit into the read buffer
  if (x->B < 520 && !bigctl) { if (c->kind == 2 || c->kind == 3) c->kind = 0; many_ok = false; }
  auto add = [&](const string &s) { c->items.push_back(c->S.size()); c->S += s; };
  if (c->kind == 2) { g_gen_base = 100000 * (c->id + 1); string s = gen_stream(st, true, {x->ct}, (u32)std::min<size_t>(x->B, 4000), false); g_gen_base = 0; c->S = s; c->good = false; }
  else {
    vector<string> rl; u32 n = many_ok ? choose(st, 5) : 1; bool has = false;
    if (c->kind == 5 && choose(st, 2)) { rl.push_back(x->ct.substr(0, x->ct.size() - 1)); if (choose(st, 2)) rl.push_back(x->ct + "x"); }
    else { for (u32 i = 0; i < n; i++) { if (choose(st, 2) || (i + 1 == n && !has)) { rl.push_back(x->ct); has = true; } else rl.push_back(strf("other:%u", choose(st, 9))); }
      if (!rl.empty() && many_ok && choose(st, 12) == 11) { size_t used = 4; for (auto &s : rl) used += 8 + s.size(); while (used + 8 + 4 < 512) { size_t k = std::min<size_t>(256, 512 - used - 8); if (choose(st, 2)) k = std::min<size_t>(k, 40); rl.insert(rl.begin(), string(k, 'f')); used += 8 + k; } } } // fill up to the limit
    u32 badc = c->kind == 3 && choose(st, 3) == 2 ? 1 + choose(st, 3) : 0;
    add(badc == 1 ? bad_control(st, CT_READY, rl) : w_control(CT_READY, rl)); c->wait_at = choose(st, 3) ? c->S.size() : SIZE_MAX;
    if (c->kind == 3 && choose(st, 4) == 3) add(w_data(pattern(50000 * (c->id + 1), 20)));
    bool wrong_start = c->kind == 5 && rl.size() && std::find(rl.begin(), rl.end(), x->ct) != rl.end();
    if (badc == 2) add(bad_control(st, CT_START, {x->ct})); else
    add(w_control(CT_START, wrong_start ? vector<string>{x->ct + "?"} : choose(st, 4) == 3 ? vector<string>{} : vector<string>{x->ct}));
    bool many; u32 nf = draw_count(st, 60, prop_is("C17") || prop_is("C19") ? 40 : 120, &many); size_t maxl = std::min<size_t>(x->B - 4, many ? 20 : 3000); bool over = choose(st, 3) == 2 && x->B <= 20000; bool huge = x->B == 262144 && choose(st, 24) == 23;
    for (u32 i = 0; i < nf; i++) {
      u32 k = choose(st, 24); u32 pid = 100000 * (c->id + 1) + i; size_t l;
      if (over && k >= 20) { static const int d[] = {-1, 0, 1, 2, 5, 4000}; l = x->B - 4 + d[choose(st, 6)]; if (k == 23) l = std::min<size_t>(l * (1 + choose(st, 3)), 30000); }
      else if (huge && i == 0) l = x->B - 4 - (choose(st, 3)) + 1; else if (k == 19) l = 1 + choose(st, 4); else l = draw_len((u32)std::max<size_t>(maxl, 6), st);
      if (l < 5) add(w_data(string(l, (char)('a' + c->id)))); else add(w_data(pattern(pid, l)));
    }
    if (prop_is("C25") && x->B <= 20000 && choose(st, 2)) add(w_data(pattern(100000 * (c->id + 1) + nf, 60000 + skewed(st, 200000))));
    if (c->kind == 3 && !badc) {
      u32 k = choose(st, 6);
      if (k == 0) add(be32(0xfffffffc + choose(st, 4)) + string(choose(st, 2000), 'z'));
      else if (k == 1) add(be32(0x7fffffff + choose(st, 2)) + string(choose(st, 2000), 'z'));
      else if (k == 2) add(be32(0) + be32(508 + choose(st, 10)) + be32(CT_STOP) + string(choose(st, 600), 0));
      else if (k == 3) add(w_control(CT_READY, {x->ct}));
      else if (k == 4) add(w_control(CT_START, {x->ct}));
      else add(be32(0) + be32(choose(st, 4)));
    }
    if (badc == 3) add(bad_control(st, CT_STOP, {}));
    if (c->kind != 6 || choose(st, 2)) add(w_control(CT_STOP, {}));
    if (c->kind == 3 && choose(st, 2)) { u32 m = 1 + choose(st, 3); for (u32 i = 0; i < m; i++) add(choose(st, 4) ? w_data(pattern(60000 * (c->id + 1) + i, 30)) : w_control(CT_STOP, {})); }
    if (c->kind == 4) { c->S.resize(choose(st, std::min<size_t>(c->S.size(), 60))); c->silent = (u64)choose(st, 20) * NS; c->hold = choose(st, 2); }
    c->good = (c->kind == 0 || c->kind == 1 || c->kind == 6) && !bigctl;
    if (c->kind == 1) { c->cut = choose(st, c->S.size() + 1); c->cut_rst = choose(st, 2); }
    if (c->kind == 6) c->hold = true;
    if (c->kind == 0) c->half_close = choose(st, 10) == 9;
  }
  c->frag = choose(st, 5); c->chunk = 1 + skewed(st, 5000); c->gap = oneof(st, (const u64[]){0, 0, MS, 30 * MS, 700 * MS});
  if (c->S.size() / c->chunk > 300) c->chunk = c->S.size() / 300 + 1;
  c->start = choose(st, 3) ? (u64)choose(st, x->longrun ? 300000 : 3000) * MS : 0; c->linger = choose(st, 3) == 2 ? (u64)choose(st, 1000) * MS : 0; c->reads = choose(st, 8) != 7;
  c->r = reference(c->S, x->ct, x->B); if (c->r.may != SIZE_MAX && !strncmp(c->r.why.c_str(), "control frame over", 18)) probe("control frames larger than the read buffer");
  if (!x->disk_faulty && x->B > 600 && c->S.size() > 60000) c->gap = std::min<u64>(c->gap, MS);
}
static void client(Cl *c) {
  CP *x = X; int st = ST_OPS + 1 + c->id; sim_sleep(c->start);
  while (alive() && !x->term_sent) { c->c = peer_connect(x->key, now_ns() + NS); if (c->c) break; sim_sleep(100 * MS); }
  if (!c->c) { c->done = true; return; }
  End *e = &c->c->a; string S = c->S.substr(0, c->cut); size_t o = 0, ni = 0; char buf[512]; bool waited = false, dead = false;
  auto rd = [&](u64 dl) { bool late; size_t n = peer_read(e, buf, sizeof buf, dl, &late); if (n) c->got.append(buf, n); return n; };
  while (o < S.size() && !dead) {
    if (!waited && c->wait_at != SIZE_MAX && o >= c->wait_at) { waited = true; string want = w_control(CT_ACCEPT, {x->ct}); u64 dl = now_ns() + 300 * NS; while (c->got.size() < want.size() && now_ns() < dl) if (!rd(dl)) break; if (c->got.size() < want.size()) { dead = true; break; } }
    size_t k = S.size() - o;
    switch (c->frag) { case 0: break; case 1: { while (ni < c->items.size() && c->items[ni] <= o) ni++; if (ni < c->items.size()) k = c->items[ni] - o; break; } case 2: case 3: k = 1 + choose(st, c->chunk); break; case 4: k = o < 200 ? 1 : 1 + choose(st, c->chunk); break; }
    k = std::min(k, S.size() - o); if (!waited && c->wait_at != SIZE_MAX && o < c->wait_at) k = std::min(k, c->wait_at - o);
    size_t d = peer_write_partial(e, S.substr(o, k), NEVER); o += d; if (d < k) { dead = true; break; }
    if (c->gap && choose(st, 3) == 0) sim_sleep(choose(st, 1000) * c->gap / 1000);
  }
  c->sent_all = o == c->S.size();
  if (c->cut != SIZE_MAX && !dead) { fault_fired(c->cut_rst ? "client resets the connection" : "client closes the connection without STOP"); c->done = true; peer_close(e, c->cut_rst); return; }
  if (c->half_close && !dead) { fault_fired("client half-closes the connection"); end_shut_wr(e); }
  if (c->silent && !dead) { fault_fired("client falls silent"); sim_sleep(c->silent); }
  u64 dl = c->hold ? NEVER : now_ns() + 60 * NS;
  if (c->reads || c->hold) while (rd(dl)) {} else { while (now_ns() < dl && !e->eof_rx && !e->rst && !e->peer->closed) sim_sleep(50 * MS); }
  if (c->linger) sim_sleep(c->linger);
  c->done = true; peer_close(e);
}
// ---- checks while running
static void monitor() {
  CP *x = X; const u64 LIM = 2 * NS;
  while (alive() && !x->stop) {
    sim_sleep(100 * MS); if (!running() || x->term_sent || x->stalled) continue; u64 t = now_ns();
    u32 open = 0; ConnRec *waiting = nullptr;
    for (auto c : K.conns) { if (c->accepted && !c->b.closed) open++; if (!c->accepted && !c->b.closed && !waiting) waiting = c; }
    if (waiting && (!x->N || open < x->N)) { if (!x->wait_since) x->wait_since = t; else if (t - x->wait_since > LIM) violation("C20", "client-not-served", "connection %d has waited %.1f s to be accepted although %u of %s slots are in use", waiting->id, (t - x->wait_since) / 1e9, open, x->N ? strf("%u", x->N).c_str() : "unlimited"); } else x->wait_since = 0;
    for (auto c : x->cl) {
      if (!c->c || !c->c->accepted || c->c->b.closed) continue; End *b = &c->c->b;
      auto since = [&](u64 &s, bool cond) { if (!cond) { s = 0; return false; } if (!s) s = t; return t - s > LIM; };
      if (since(c->done_since, b->received >= c->r.finish_off && b->sent.size() >= reply_upto(c->r, x->ct, b->received).size() && !b->peer->inflight)) violation("C18,C20", "finished-kept", "client %d got FINISH and is still connected %.1f s later", c->id, (t - c->done_since) / 1e9);
      bool mv = b->received != c->last_recv; c->last_recv = b->received; if (mv) c->stuck_since = 0;
      if (since(c->stuck_since, !b->rx.empty() && !mv)) violation("C17,C18", "stopped-reading", "client %d: %zu bytes have been waiting for %.1f s, %zu bytes read so far", c->id, b->rx.size(), (t - c->stuck_since) / 1e9, b->received);
      if (since(c->must_since, b->received >= c->r.must)) violation("C18", "violator-kept", "client %d broke the protocol (%s) and is still connected %.1f s later", c->id, c->r.why.c_str(), (t - c->must_since) / 1e9);
      if (since(c->gone_since, ((b->eof_rx && b->rx.empty()) || b->err_reported) && !b->peer->shut_wr)) violation("C20,C18", "dead-connection-kept", "client %d is gone but its connection is still open %.1f s later", c->id, (t - c->gone_since) / 1e9);
      string want = reply_upto(c->r, x->ct, b->received); bool room = b->peer->rx.size() + b->peer->inflight < b->peer->cap;
      if (since(c->acc_since, b->sent.size() < want.size() && room && b->received < c->r.may)) violation("C17,C18", "no-answer", "client %d: %s is overdue by %.1f s", c->id, b->sent.size() < w_control(CT_ACCEPT, {x->ct}).size() ? "ACCEPT" : "FINISH", (t - c->acc_since) / 1e9);
    }
    for (size_t i = 0; i < x->usr1.size(); i++) if (x->out != 2 && t > x->usr1[i] + NS && x->usr1_used == 0 && i == 0) { bool any = false; for (auto &s : x->segs) if (s.t >= x->usr1[i]) any = true; if (!any) violation("C19", "not-rotated", "no new output file %.1f s after SIGUSR1", (t - x->usr1[i]) / 1e9); }
    if (x->out != 2 && !x->usr1.empty() && t > x->usr1.back() + NS) { bool any = false; for (auto &s : x->segs) if (s.t >= x->usr1.back()) any = true; if (!any) violation("C19", "not-rotated", "no new output file %.1f s after SIGUSR1", (t - x->usr1.back()) / 1e9); }
  }
}
// every byte that is in the output, as a list of frames in order
struct OutScan { vector<string> fr; vector<int> seg; string tail; };
static OutScan scan_output(bool partial_ok, const char *when) {
  CP *x = X; OutScan r; string start = w_control(CT_START, {x->ct}), stop = w_control(CT_STOP, {}); size_t ns = x->out == 2 ? 1 : x->segs.size();
  for (size_t i = 0; i < ns; i++) {
    string d = x->out == 2 ? x->p->out : seg_data(x->segs[i]); bool last = i + 1 == ns; bool need = !last || !partial_ok; string nm = x->out == 2 ? "stdout" : x->segs[i].name; size_t o = 0; bool stopped = false;
    const char *tags = last ? "C17,C18,C21" : "C17,C18,C19";
    if (d.size() < start.size() ? (need || start.compare(0, d.size(), d) != 0) : d.compare(0, start.size(), start) != 0) violation(tags, "bad-output-start", "%s: output %zu (%s, %zu bytes) does not begin with the START frame for the configured type", when, i, nm.c_str(), d.size());
    if (d.size() < start.size()) continue;
    o = start.size();
    while (o < d.size()) {
      if (d.compare(o, stop.size(), stop) == 0) { o += stop.size(); if (o != d.size()) violation(tags, "bytes-after-stop", "%s: output %zu (%s): %zu bytes after STOP", when, i, nm.c_str(), d.size() - o); stopped = true; break; }
      u64 L = d.size() - o >= 4 ? rd32(d, o) : 0;
      if (d.size() - o < 4 || L == 0 || d.size() - o - 4 < L) {
        if (need) violation(tags, "incomplete-output", "%s: output %zu (%s) is not a complete stream: %zu stray bytes at offset %zu instead of STOP", when, i, nm.c_str(), d.size() - o, o);
        r.tail = d.substr(o); if (L == 0 && r.tail.size() >= 4 && stop.compare(0, r.tail.size(), r.tail) != 0) violation(tags, "foreign-control-frame", "%s: output %zu (%s) holds a control frame other than STOP at offset %zu", when, i, nm.c_str(), o); break;
      }
      r.fr.push_back(d.substr(o, 4 + L)); r.seg.push_back(i); o += 4 + L;
    }
    if (need && !stopped) violation(tags, "incomplete-output", "%s: output %zu (%s) ends without STOP", when, i, nm.c_str());
  }
  return r;
}
static void index_owners() { CP *x = X; for (auto c : x->cl) for (size_t i = 0; i < c->r.fr.size(); i++) { auto &f = c->r.fr[i]; if (x->owner.count(f)) x->dup.insert(f); x->owner[f] = {c->id, (int)i}; } }
static void send_sig(int s) { CP *x = X; if (!running()) return; sim_kill(x->p, s); }
static void do_hup() {
  CP *x = X; if (!running() || x->term_sent) return; Hup h; h.t = now_ns(); for (auto c : x->cl) { size_t n = 0; if (c->c) while (n < c->r.end.size() && c->r.end[n] <= c->c->b.received) n++; h.n.push_back(n); }
  send_sig(SIGHUP); x->hups.push_back(h); size_t k = x->hups.size() - 1;
  at_time(now_ns() + 500 * MS, [k] {
    CP *x = X; if (!alive() || x->term_sent || x->stalled || x->killed) return;
    OutScan o = scan_output(true, "after SIGHUP"); std::set<string> have(o.fr.begin(), o.fr.end());
    for (auto c : x->cl) if (!c->c || !c->c->b.write_oom) for (size_t i = 0; i < x->hups[k].n[c->id]; i++) if (!have.count(c->r.fr[i])) violation("C19,C17", "not-flushed", "frame %zu of client %d was received before SIGHUP but is not in the output half a second later", i, c->id);
    probe("SIGHUP flushes judged");
  });
}
static string name_at(i64 real) { CP *x = X; time_t t = real / (i64)NS - (real % (i64)NS < 0); if (x->local) t -= 27000; struct tm tm; gmtime_r(&t, &tm); char b[512]; size_t n = strftime(b, sizeof b, x->fname.c_str(), &tm); return string(b, n); }
static void opened(Inode *ino) {
  CP *x = X; Seg s{ino, ino->generations.size(), now_ns(), real_ns(), ino->name};
  if (!x->segs.empty()) {
    i64 t0 = x->segs.back().real / (i64)NS, t1 = s.real / (i64)NS; bool due = x->split && t1 >= t0 + x->split;
    if (!due && !(x->split && x->stalled)) { x->usr1_used++; if (x->usr1_used > x->usr1.size()) violation("C19", "rotated-without-cause", "output file opened again %.3f s after the last time, without SIGUSR1%s", (s.t - x->segs.back().t) / 1e9, x->split ? strf(" and before the %u s are over", x->split).c_str() : ""); }
    else probe("rotations because the period was over");
  }
  if (x->out == 1 && !x->stalled && s.name != name_at(s.real)) violation("C19", "wrong-file-name", "output file named %s, expected %s", s.name.c_str(), name_at(s.real).c_str());
  if (x->out == 0 && s.name != x->fname) violation("C19", "wrong-file-name", "output file named %s, expected %s", s.name.c_str(), x->fname.c_str());
  x->segs.push_back(s); if (x->segs.size() > 1) probe("output rotations");
}
// Memory: something fixed, and for every client accepted so far three times the read buffer (a frame may be copied into one piece) and something for its connection.
static void mem_bound() {
  CP *x = X; size_t n = 3; u32 co = 0, ca = 0, op = 0, ac = 0; for (auto k : K.conns) if (k->accepted) { bool ch = x->churned.count(k); ca += ch; co += ch && !k->b.closed; ac++; op += !k->b.closed; n += !ch; }
  x->c_peak = std::max(x->c_peak, x->c_open + ca - x->c_acc); x->maxopen = std::max(x->maxopen, x->o_open + ac - x->served); x->c_open = co; x->c_acc = ca; x->o_open = op; x->served = ac; // most that can have been open at once since the last round
  n += 2 * x->c_peak; size_t lim = 32768 + n * (3 * x->B + 16384), h = heap_peak();
  if (h > lim) violation("C25", "memory", "capture held %zu bytes of memory after %zu connections; the read buffer size is %zu", h, n, x->B);
  probe("memory bound checked");
}
// With no client connected, what the connections and rotations so far needed has been given back. Allowed is a cache for as many connections as were open at once.
static void quiet_memory() {
  CP *x = X; if (!x->quiet_since || now_ns() < x->quiet_since + NS || !x->served) return; size_t live = heap_live_blocks(), lim = x->base_blocks + 16 + 5 * x->maxopen;
  if (live > lim) violation("C25", "memory-leak", "%zu blocks are allocated with no client connected after %u connections and %zu output files; %zu were at the start and at most %u clients were connected at once", live, x->served, x->segs.size(), x->base_blocks, x->maxopen);
  probe(x->served > 20 ? "memory judged idle after over 20 connections" : "memory judged idle");
}
// One short connection after another, none of which records anything.
static void churn() {
  CP *x = X; int st = ST_OPS + 20; u32 how = choose(st, 6); u64 gap = oneof(st, (const u64[]){0, MS, 20 * MS, 200 * MS}); sim_sleep((u64)choose(st, 1000) * MS);
  for (u32 i = 0; i < x->churn && alive() && !x->term_sent; i++) {
    ConnRec *c = peer_connect(x->key, now_ns() + NS); if (!c) { sim_sleep(100 * MS); continue; }
    x->churned.insert(c); string d; u32 k = how < 5 ? how : choose(st, 5); string rdy = w_control(CT_READY, {x->ct});
    if (k == 1) d = rdy.substr(0, 1 + choose(st, rdy.size() - 1)); else if (k == 2) d = be32(1 + choose(st, 1000)) + "zzzz"; else if (k == 3) d = rdy; else if (k == 4) d = rdy + w_control(CT_START, {x->ct}) + (choose(st, 2) ? w_control(CT_STOP, {}) : string());
    if (!d.empty()) peer_write_partial(&c->a, d, now_ns() + NS);
    if (k >= 3 && choose(st, 2)) { char b[256]; bool late; while (peer_read(&c->a, b, sizeof b, now_ns() + 200 * MS, &late)) {} } else if (choose(st, 3) == 2) sim_sleep((u64)choose(st, 300) * MS);
    peer_close(&c->a, choose(st, 3) == 2); fault_fired("short connection of a churning client"); if (gap) sim_sleep(gap);
  }
  x->churn_done = true;
}
// Many clients connected at once; some do the handshake, none records anything.
static void crowd() {
  CP *x = X; int st = ST_OPS + 21; u32 how = choose(st, 4); vector<ConnRec *> v; sim_sleep((u64)choose(st, 1000) * MS); string d = how == 1 ? w_control(CT_READY, {x->ct}) : how == 2 ? w_control(CT_READY, {x->ct}) + w_control(CT_START, {x->ct}) : how == 3 ? be32(77) : "";
  for (u32 i = 0; i < x->crowd && alive() && !x->term_sent; i++) { ConnRec *c = peer_connect(x->key, now_ns() + 3 * NS); if (!c) break; x->churned.insert(c); v.push_back(c); if (!d.empty()) peer_write_partial(&c->a, d, now_ns() + NS); }
  fault_fired("crowd of idle clients"); sim_sleep((500 + (u64)choose(st, 4000)) * MS); u32 half = choose(st, 2) ? choose(st, v.size() + 1) : 0;
  for (u32 i = 0; i < v.size(); i++) { if (half && i == half) sim_sleep((u64)choose(st, 5000) * MS); peer_close(&v[i]->a, choose(st, 5) == 4); }
  x->crowd_done = true;
}
// Counted when the event loop is about to wait: within one round libevent may accept a client before it has released the descriptor of one that just ended.
static void waiting() {
  CP *x = X; u32 open = 0; ConnRec *last = nullptr; mem_bound(); if (!x->base_blocks) x->base_blocks = heap_live_blocks(); for (auto k : K.conns) if (k->accepted && !k->b.closed) { open++; last = k; }
  if (open) x->quiet_since = 0; else if (!x->quiet_since) x->quiet_since = now_ns(); if (!x->N) return;
  if (open > x->N) violation("C20", "too-many-connections", "%u connections are being served (the last one is number %d), limit %u", open, last->id, x->N);
  if (open == x->N) probe("event loop rounds at the connection limit");
}
static void received(End *e, size_t) { CP *x = X; for (auto c : x->cl) if (c->c && e == &c->c->b) c->recv.push_back({e->received, real_ns()}); }

// ---- what was said on standard error (C27): output files opened and closed with their frames and bytes, connections closed with theirs
static vector<string> lines_of(const string &s) { vector<string> r; size_t o = 0; while (o < s.size()) { size_t e = s.find('\n', o); if (e == string::npos) break; r.push_back(s.substr(o, e - o)); o = e + 1; } return r; }
static bool tail_counts(const string &l, const char *word, unsigned long long *n, unsigned long long *b) { size_t i = l.rfind(string("(") + word + " "); int k = 0; return i != string::npos && sscanf(l.c_str() + i + 2 + strlen(word), "%llu frames, %llu bytes)%n", n, b, &k) == 2 && k; }
static void judge_files_said(bool clean) {
  CP *x = X; size_t no = 0, nc = 0, ns = x->out == 2 ? 1 : x->segs.size(); unsigned long long n, b; const string A = "opened output file ", Z = "closed output file ";
  for (auto &l : lines_of(x->p->err)) {
    size_t i = l.find(A), k = l.find(Z);
    if (i != string::npos) { string nm = l.substr(i + A.size()), want = x->out == 2 ? "-" : no < ns ? x->segs[no].name : "(none)"; if (no >= ns || nm != want) violation("C27", "wrong-report", "capture says it opened output file %s as number %zu, that is %s", nm.c_str(), no, want.c_str()); no++; }
    else if (k != string::npos && tail_counts(l, "wrote", &n, &b)) {
      string nm = l.substr(k + Z.size()); nm.resize(nm.rfind(" (wrote ")); if (nc >= ns) violation("C27", "wrong-report", "capture says it closed %zu output files, it opened %zu", nc + 1, ns);
      string d = x->out == 2 ? x->p->out : seg_data(x->segs[nc]), want = x->out == 2 ? "-" : x->segs[nc].name; if (nm != want) violation("C27", "wrong-report", "capture says it closed output file %s, that is %s", nm.c_str(), want.c_str());
      size_t f = w_parse(d).items.size(); if (b != d.size() || n != f) violation("C27", "wrong-report", "capture says it wrote %llu frames, %llu bytes to output file %zu (%s), which holds %zu frames, %zu bytes", n, b, nc, nm.c_str(), f, d.size());
      nc++; probe("reports about closed output files judged");
    }
  }
  if (clean && (no != ns || nc != ns)) violation("C27", "not-reported", "capture reported %zu files opened and %zu closed, %zu were", no, nc, ns);
}
static void judge_clients_said(const std::set<vector<u32>> &st) { // the lines about closed connections; those from which nothing was recorded do not count
  CP *x = X; typedef std::pair<unsigned long long, unsigned long long> P; vector<P> said; string txt; unsigned long long n, b;
  for (auto &l : lines_of(x->p->err)) if (l.find(": closing (read ") != string::npos && tail_counts(l, "read", &n, &b)) { probe("reports about closed connections judged"); if (n || b) { said.push_back({n, b}); txt += strf(" %llu/%llu", n, b); } }
  if (!x->dbg) return; std::sort(said.begin(), said.end()); string want;
  for (auto &a : st) {
    vector<P> must, may; for (auto c : x->cl) if (c->c && a[c->id]) { size_t m = 0; for (u32 k = 0; k < a[c->id]; k++) m += c->r.fr[k].size(); bool closed = c->c->b.closed && c->c->b.close_seq && c->c->b.closed_at < x->p->exit_time; (closed ? must : may).push_back({a[c->id], m}); }
    vector<P> rest = said; bool ok = true; for (auto &q : must) { auto it = std::find(rest.begin(), rest.end(), q); if (it == rest.end()) ok = false; else rest.erase(it); }
    for (auto &q : rest) { auto it = std::find(may.begin(), may.end(), q); if (it == may.end()) ok = false; else may.erase(it); }
    if (ok) return; want.clear(); for (auto &q : must) want += strf(" %llu/%llu", q.first, q.second); for (auto &q : may) want += strf(" (%llu/%llu)", q.first, q.second);
  }
  violation("C27", "wrong-report", "what capture says it read from the connections it closed (frames/bytes):%s; recorded were%s", txt.c_str(), want.c_str());
}
// ---- final checks
static void judge() {
  CP *x = X; Proc *p = x->p; bool disk = K.disk_errors > 0, anyerr = disk || p->fault_errs > 0;
  int code = p->exit_code;
  EV(290, code, x->term_sent, "capture ended with status %d (signal sent %d, disk errors %llu)", code, x->term_sent, (unsigned long long)K.disk_errors);
  if (!x->killed && p->killed) violation("C21,C18", "killed-by-signal", "capture was ended by a signal's default action");
  if (!x->killed) {
    if (!x->term_sent && !anyerr) violation("C17,C18,C19,C20,C21", "ended-by-itself", "capture exited with status %d without being told to and without any disk error: %.300s", code, p->err.size() > 300 ? p->err.c_str() + p->err.size() - 300 : p->err.c_str());
    if (disk && code == 0) violation("C21", "write-error-hidden", "capture exited 0 although the file system reported %llu errors", (unsigned long long)K.disk_errors);
    if (!anyerr && code != 0) violation("C21", "spurious-failure", "capture exited %d after a clean run", code);
  }
  bool clean = !x->killed && code == 0;
  if (!x->killed && code && p->err.empty()) violation("C27", "silent-failure", "capture ended with status %d and said nothing", code);
  judge_files_said(clean);
  if (x->out != 2 && x->segs.empty()) return;
  OutScan o = scan_output(!clean, "at the end");
  for (auto c : x->cl) { // only what was really sent and received counts
    if (!c->c) { c->r = Ref(); continue; }
    string s = c->c->a.sent.substr(0, c->c->b.received); size_t n = 0; if (s != c->S.substr(0, s.size())) harness_bug("client sent something else"); while (n < c->r.end.size() && c->r.end[n] <= s.size()) n++;
    c->r.fr.resize(n); c->r.end.resize(n);
  }
  // replies and disconnects
  for (auto c : x->cl) if (c->c) {
    End *b = &c->c->b; string want = reply_upto(c->r, x->ct, b->received); bool ok = want.compare(0, b->sent.size(), b->sent) == 0 && b->sent.size() <= want.size();
    if (!ok) violation("C18,C17", "wrong-answer", "client %d was answered %s, expected a prefix of %s", c->id, w_describe(w_parse(b->sent)).c_str(), w_describe(w_parse(want)).c_str());
    if (c->c->accepted && b->closed && b->close_seq && (!x->term_sent || b->closed_at < x->t_term) && b->closed_at < p->exit_time && !b->err_reported && !b->eof_rx && !b->rst && !b->injected && b->received == c->r.finish_off && b->sent.size() < want.size()) violation("C17,C18", "no-finish", "client %d was disconnected after STOP without having got FINISH", c->id);
    bool early = c->c->accepted && b->closed && b->close_seq && b->closed_at < p->exit_time && (!x->term_sent || b->closed_at < x->t_term); // closed by capture before the end
    if (early && !b->err_reported && !b->eof_rx && !b->rst && !b->injected && b->received < c->r.may && c->r.finish_off > b->received) violation("C18,C17", "disconnected-without-cause", "client %d was disconnected after %zu bytes although it had done nothing wrong", c->id, b->received);
  }
  // every frame in the output belongs to exactly one client, in that client's order, without gaps
  typedef vector<u32> V; std::set<V> st; st.insert(V(x->cl.size(), 0)); bool overflow = false;
  for (size_t i = 0; i < o.fr.size() && !overflow; i++) {
    std::set<V> nx; for (auto &v : st) for (auto c : x->cl) if (v[c->id] < c->r.fr.size() && c->r.fr[v[c->id]] == o.fr[i]) { V w = v; w[c->id]++; nx.insert(w); }
    if (nx.empty()) { string s; for (auto c : x->cl) for (size_t k = 0; k < c->r.fr.size(); k++) if (c->r.fr[k] == o.fr[i]) s += strf(" (it is frame %zu of client %d, of which %u were recorded so far)", k, c->id, (*st.begin())[c->id]); violation("C17,C18,C19", "unexplained-frame", "output frame %zu (file %d), %s, is not the next frame of any client%s", i, o.seg[i], w_brief(o.fr[i].substr(4)).c_str(), s.c_str()); continue; }
    st.swap(nx); if (st.size() > 3000) overflow = true;
  }
  if (overflow) { probe("ambiguous outputs, order not fully judged"); return; }
  probe_n("output frames judged", o.fr.size());
  if (!o.tail.empty()) {
    bool ok = w_control(CT_STOP, {}).compare(0, o.tail.size(), o.tail) == 0;
    for (auto &v : st) for (auto c : x->cl) if (v[c->id] < c->r.fr.size() && c->r.fr[v[c->id]].compare(0, o.tail.size(), o.tail) == 0) ok = true;
    if (!ok) violation("C21,C17", "foreign-tail", "the last %zu bytes of the output belong to no client's next frame", o.tail.size());
  }
  if (clean) judge_clients_said(st);
  if (clean) {
    bool ok = false; string miss;
    for (auto &v : st) { bool all = true; for (auto c : x->cl) if (c->c && c->c->b.sent.size() >= reply_upto(c->r, x->ct, SIZE_MAX - 1).size() && c->r.finish_off != SIZE_MAX && c->r.finish_off <= c->c->b.received && v[c->id] < c->r.fr.size()) { all = false; miss = strf("client %d received FINISH but only %u of its %zu frames were recorded", c->id, v[c->id], c->r.fr.size()); } if (all) ok = true; }
    if (!ok) violation("C17,C18", "frames-lost", "%s", miss.c_str());
    for (auto c : x->cl) if (c->c && c->c->b.sent.size() > w_control(CT_ACCEPT, {x->ct}).size()) probe("clients confirmed with FINISH and judged complete");
  }
  for (auto c : x->cl) if (c->c && c->r.skipped && c->c->b.received == c->S.size()) probe("clients with skipped oversized frames judged");
  // with --split no frame follows one recorded after the end of the period into the same file
  if (x->split && !x->stalled) {
    auto rec = [&](const string &f, i64 *t) { auto it = x->owner.find(f); if (it == x->owner.end() || x->dup.count(f)) return false; Cl *c = x->cl[it->second.first]; if ((size_t)it->second.second >= c->r.end.size()) return false; size_t e = c->r.end[it->second.second]; for (auto &q : c->recv) if (q.first >= e) { *t = q.second; return true; } return false; };
    for (size_t i = 1; i < o.fr.size(); i++) if (o.seg[i] == o.seg[i - 1]) {
      i64 t; if (!rec(o.fr[i - 1], &t)) continue; i64 t0 = x->segs[o.seg[i]].real / (i64)NS;
      if (t / (i64)NS >= t0 + x->split) violation("C19", "not-split", "output frame %zu went to file %d although the previous frame had been recorded %lld s after it was opened (split %u)", i, o.seg[i], (long long)(t / (i64)NS - t0), x->split);
    }
  }
}
void scen_capture() {
  CP *x = X = new CP; int st = ST_CFG; draw_sched_cfg();
  x->tcp = choose(st, 3) == 2; x->key = x->tcp ? draw_tcp(st, &x->addr, &x->port) : "unix:" + (x->path = draw_unix(st, "/run/cap.sock"));
  { u32 k = choose(st, 8); x->ct = k == 7 ? string(1 + choose(st, 200), 't') : k == 6 ? "x" : "proto:test"; }
  x->B = oneof(st, (const size_t[]){262144, 262144, 600, 520, 1000, 4000, 20000, 90}); if (x->B == 90 && x->ct.size() > 20) x->ct = "proto:test";
  if (choose(st, 3) == 2 || (prop_is("C20") && choose(st, 4))) x->N = 1 + choose(st, 3);
  if (choose(st, prop_is("C20") ? 25 : prop_is("C25") || prop_is("C18") ? 60 : 200) == 7) { x->crowd = 7 + skewed(st, 300); u32 k = choose(st, 4); x->N = k == 3 ? 0 : k == 2 ? oneof(st, (const u32[]){255, 256, 257, 258, 128, 64}) : k == 1 ? std::max<u32>(1, x->crowd - 2 + choose(st, 5)) : 1 + choose(st, x->crowd); }
  bool rot = prop_is("C19") ? choose(st, 6) != 5 : choose(st, 3) == 2;
  x->out = rot ? choose(st, 2) : choose(st, 6) == 5 ? 2 : choose(st, 2);
  x->fname = x->out == 2 ? "-" : x->out == 0 ? "/data/out.fstrm" : oneof(st, (const char *const[]){"/data/cap-%Y%m%d-%H%M%S.fstrm", "/data/%F-%T", "/data/fixed", "/data/%j.%M-%S.out"});
  if (x->out == 1) { x->local = choose(st, 2); if (rot && choose(st, 3)) x->split = oneof(st, (const u32[]){1, 1, 2, 2, 5, 5, 1 + choose(st, 60), 1 + choose(st, 60), oneof(st, (const u32[]){60, 300, 3600, 86400, 100000, 604800})}); }
  u32 sockb = oneof(st, (const u32[]){65536, 65536, 100, 1000, 8000}); C.sockbuf = sockb; C.net_delay_max_ns = oneof(st, (const u64[]){0, 0, MS, 200 * MS}); C.p_short_read = oneof(st, (const u32[]){0, 0, 200, 700});
  C.stdio_buf = oneof(st, (const u32[]){0, 0, 64, 700}); C.p_accept_err = oneof(st, (const u32[]){0, 0, 0, 100, 500}); if (choose(st, 6) == 5) { C.p_libev_new = oneof(st, (const u32[]){0, 100, 400}); C.p_libev_write = oneof(st, (const u32[]){0, 100, 400}); } C.p_short_send = oneof(st, (const u32[]){0, 0, 300});
  x->stalled = choose(st, 6) == 5; if (x->stalled) { C.p_stall = oneof(st, (const u32[]){2, 20}); C.stall_max_ns = oneof(st, (const u64[]){10 * MS, NS, 5 * NS}); }
  if (choose(st, 4) == 3) { C.p_recv_err = oneof(st, (const u32[]){5, 50}); C.p_send_err = oneof(st, (const u32[]){0, 100}); }
  x->disk_faulty = prop_is("C21") ? choose(st, 2) : choose(st, 6) == 5;
  if (x->disk_faulty) { u32 k = choose(st, 5); if (k == 0) C.p_fwrite_err = oneof(st, (const u32[]){30, 200}); else if (k == 1) C.p_fclose_err = 400; else if (k == 2) C.disk_quota = skewed(st, 20000); else if (k == 3) { C.p_fwrite_err = 100; C.p_fclose_err = 100; } else C.p_fopen_err = 200; C.p_fshort = oneof(st, (const u32[]){0, 200}); }
  else C.p_fshort = oneof(st, (const u32[]){0, 0, 300});
  if (x->split && x->split <= 2 && choose(st, prop_is("C19") ? 40 : 100) == 7) { x->longrun = true; probe("minutes of short splits"); }
  u32 n = 1 + choose(st, 6); for (u32 i = 0; i < n; i++) { Cl *c = new Cl; c->id = i; x->cl.push_back(c); build(c, ST_OPS + 10 + i); }
  { size_t tot = 0; for (auto c : x->cl) tot += c->S.size(); if (tot > 20000) C.sockbuf = std::max<u32>(C.sockbuf, tot > 100000 ? 65536 : 8000); } // keep runs short
  index_owners();
  // arguments
  vector<string> a{"fstrm_capture"}; auto opt = [&](const char *s, const char *l, const string &v) { u32 k = choose(st, 3); if (k == 2) a.push_back(string(l) + "=" + v); else { a.push_back(k ? l : s); a.push_back(v); } };
  opt("-t", "--type", x->ct); if (x->tcp) { opt("-a", "--tcp", x->addr); opt("-p", "--port", x->port); } else opt("-u", "--unix", x->path);
  opt("-w", "--write", x->fname); if (x->B != 262144) opt("-b", "--buffersize", strf("%zu", x->B)); if (x->N) opt("-c", "--maxconns", strf("%u", x->N)); if (x->out == 1) a.push_back(x->local ? "--localtime" : "--gmtime"); if (x->split) opt("-s", "--split", strf("%u", x->split));
  u32 dbg = choose(st, 8); if (dbg > 5) { x->dbg = true; for (u32 i = 0; i < dbg - 2; i++) a.push_back("-d"); } else if (prop_is("C27") && dbg & 1) { x->dbg = true; for (u32 i = 0; i < 3; i++) a.push_back("-d"); }
  if (!x->tcp && choose(st, 3) == 2) inode_get(x->path, true)->is_socket = true;   // stale socket of an earlier run
  if (x->out == 0 && choose(st, 4) == 3) { inode_put("/data/out.fstrm", string(skewed(st, 6000), 'g')); } // old output file
  K.on_file_open_w = opened; K.on_poll = waiting; K.on_recv = received;
  switch (choose(st, 6)) {
  case 5: case 4: set_real_time(1700000000ll * (i64)NS + (i64)choose(st, 1000) * 997 * (i64)MS + choose(st, 1000)); break;
  case 3: { // dates: the ends of 32-bit seconds, a century without a leap day, a leap day, a year's end (UTC and local)
    i64 d = oneof(st, (const i64[]){1ll << 31, 1ll << 32, 4107542400ll, 1709164800ll, 1767225600ll, 1767225600ll + 27000}); set_real_time((d - (i64)skewed(st, 20)) * (i64)NS - (i64)choose(st, 1000) * (i64)MS); probe("started shortly before a calendar boundary"); break; }
  }
  if (choose(st, prop_is("C25") ? 4 : prop_is("C20") ? 6 : 16) == 3) { x->churn = choose(st, 8) == 7 ? 130 + choose(st, 300) : 5 + choose(st, 70); x->churn_done = false; }
  if (x->crowd) x->crowd_done = false;
  x->p = proc_new("capture"); Proc *p = x->p; K.kill_proc = p; x->term_sig = choose(st, 2) ? SIGINT : SIGTERM;
  u32 tm = choose(st, 4); u64 t_end = tm == 3 ? skewed(st, 8000) * MS + choose(st, 1000) * US : 0; bool at_sys = choose(st, prop_is("C21") ? 2 : 8) == 1; u32 nsys = at_sys ? 1 + skewed(st, 1500) : 0;
  bool kill9 = choose(st, 24) == 23; u32 kill_n = kill9 ? 1 + skewed(st, 1500) : 0; u32 kill_how = kill9 ? choose(st, 2) : 0; 
  int pf = proc_run(p, capture_main, a); (void)pf;
  if (kill9) { if (kill_how) K.kill_at_write = 1 + kill_n % 40; else K.kill_at_syscall = 30 + kill_n; }
  vector<int> fib; for (auto c : x->cl) fib.push_back(fiber_spawn("client", [c] { client(c); }, nullptr));
  if (x->churn) fib.push_back(fiber_spawn("churn", churn, nullptr));
  if (x->crowd) fib.push_back(fiber_spawn("crowd", crowd, nullptr));
  int mon = fiber_spawn("monitor", monitor, nullptr);
  // signals and clock jumps at arbitrary times
  bool many = x->out != 2 && choose(st, prop_is("C25") ? 12 : prop_is("C19") ? 20 : 60) == 7; u32 ns = many ? 20 + (choose(st, 4) == 3 ? 110 + choose(st, 300) : choose(st, 40)) : rot ? choose(st, 6) : prop_is("C21") ? choose(st, 3) == 2 : choose(st, 8) == 7; for (u32 i = 0; i < ns; i++) {
    u64 t = now_ns() + (x->longrun ? (u64)choose(st, 300000) * MS : many ? (u64)choose(st, 4000) * MS : (u64)skewed(st, 9000) * MS) + choose(st, 1000) * US; u32 k = many ? 0 : choose(st, 3); bool mv = choose(st, 10) < 7;
    if (k == 2) at_time(t, [] { do_hup(); }); else at_time(t, [mv] { CP *x = X; if (!running() || x->term_sent) return; if (x->out == 0 && mv) { auto it = K.fs.find(x->fname); if (it != K.fs.end()) { Inode *n = it->second; K.fs.erase(it); K.fs[strf("%s.%llu", x->fname.c_str(), (unsigned long long)n->id)] = n; } } x->usr1.push_back(now_ns()); send_sig(SIGUSR1); });
  }
  if (choose(st, 8) == 7) at_time(now_ns() + (u64)choose(st, 5000) * MS + 333, [] { fault_fired("wall clock jump"); real_jump(((i64)choose(ST_ENV, 200) - 100) * (i64)NS + 1); });
  if (at_sys) { K.sig_no = x->term_sig; K.on_sig = [] { X->term_sent = true; X->t_term = now_ns(); }; }
  auto term = [x, p] { K.sig_at_syscall = 0; if (!alive() || x->term_sent) return; if (!running()) return; x->term_sent = true; x->t_term = now_ns(); sim_kill(p, x->term_sig); };
  while (alive() && !running()) sim_sleep(MS);
  if (alive()) {
    if (at_sys) { K.sig_at_syscall = nsys; u64 dl = now_ns() + 60 * NS; while (alive() && K.sig_at_syscall && !x->term_sent && now_ns() < dl) sim_sleep(50 * MS); if (!x->term_sent && alive()) term(); }
    else if (tm == 3) { u64 dl = now_ns() + t_end; while (alive() && now_ns() < dl) proc_wait(p, dl); term(); }
    else { // when the clients are done
      u64 dl = now_ns() + (x->longrun ? 600 : 200) * NS; for (;;) { bool all = true; for (auto c : x->cl) if (!c->done && !(c->hold && c->sent_all)) all = false; if (!x->churn_done || !x->crowd_done) all = false; if (all || !alive() || now_ns() > dl) break; sim_sleep(250 * MS); }
      proc_wait(p, now_ns() + (u64)choose(st, 3000) * MS); if (alive() && !x->stalled) quiet_memory(); term();
    }
    u64 lim = x->stalled ? 600 * NS : 5 * NS, t0 = x->t_term; proc_wait(p, t0 + lim);
    mem_bound();
    if (!p->exited) violation("C21", "does-not-end", "capture is still running %.0f s after %s", (now_ns() - t0) / 1e9, x->term_sig == SIGINT ? "SIGINT" : "SIGTERM");
    if (!x->stalled && x->term_sent && p->exited && p->exit_time > t0 + 2 * NS) violation("C21", "slow-end", "capture took %.1f s to end", (p->exit_time - t0) / 1e9);
  }
  x->killed = kill9 && p->killed && p->exit_code == 137;
  x->stop = true; for (int f : fib) fiber_join(f); fiber_join(mon);
  judge();
}
