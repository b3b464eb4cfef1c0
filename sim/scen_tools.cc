// fstrm_replay and fstrm_dump: the real programs on simulated files, standard output and
// connections. Properties C22, C23.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <set>
extern "C" int replay_main(int, char **); extern "C" int dump_main(int, char **);
string gen_stream(int st, bool bidir, const vector<string> &types, u32 maxframe, bool valid_only);
extern u32 g_gen_base;

namespace {
enum Kind { K_MISSING, K_NOSTART, K_OTHER, K_MATCH };
enum Ok { BAD = 0, GOOD = 1, EITHER = 2 };
struct Alt { size_t n; Ok ok; };
// What is in a file: its frames, and how reading it may end (control frames in the middle of
// the stream may or may not end it).
struct FRef { Kind kind = K_MISSING; vector<string> cts; vector<string> fr; vector<Alt> alts; size_t start_end = 0; string why; };
struct F { string path, data; bool exists = true; FRef r; bool open_err = false, start_err = false, read_err = false; };
}
static vector<F *> *files;
static FRef examine(const string &s, bool exists, const string *ct) {
  FRef r; if (!exists) return r;
  r.kind = K_NOSTART; WItem it; string why;
  r.start_end = std::min<size_t>(s.size(), 12);
  if (w_one(s, 0, it, &why) != 1 || !it.ctl || it.type != CT_START) { if (s.size() >= 8 && !rd32(s, 0)) r.start_end = std::min<u64>(s.size(), 8ull + rd32(s, 4)); return r; }
  r.start_end = it.end; r.cts = it.cts;
  if (ct && !it.cts.empty() && std::find(it.cts.begin(), it.cts.end(), *ct) == it.cts.end()) { r.kind = K_OTHER; return r; }
  r.kind = K_MATCH; size_t o = it.end; bool amb = false;
  for (;;) {
    int k = w_one(s, o, it, &why);
    if (k > 0 && !it.ctl && it.data.size() <= 1048576) { r.fr.push_back(it.data); o = it.end; continue; }
    if (k > 0 && it.ctl && it.type == CT_STOP) { r.alts.push_back({r.fr.size(), amb ? EITHER : GOOD}); return r; }
    if (k > 0 && it.ctl) { r.alts.push_back({r.fr.size(), BAD}); amb = true; o = it.end; continue; }
    if (k < 0 && s.size() - o >= 12 && !rd32(s, o)) { u32 l = rd32(s, o + 4), t = rd32(s, o + 8); if (l >= 4 && l <= 512 && s.size() - o - 8 >= l && (t < 1 || t > 5)) { r.alts.push_back({r.fr.size(), BAD}); amb = true; o += 8 + l; continue; } }
    r.why = k > 0 ? "frame too large" : k < 0 ? why : "ends early"; r.alts.push_back({r.fr.size(), BAD}); return r;
  }
}
static void hooks() {
  K.on_open_err = [](const char *p) { for (auto f : *files) if (f->path == p) f->open_err = true; };
  K.on_read_err = [](Inode *n, size_t off) { for (auto f : *files) if (inode_get(f->path, false) == n) (off < f->r.start_end || off == 0 ? f->start_err : f->read_err) = true; };
}
static string file_summary() {
  string s; for (auto f : *files) s += strf(" %s:%s(%zu frames%s%s)", f->path.c_str(), f->r.kind == K_MISSING ? "missing" : f->r.kind == K_NOSTART ? "no START" : f->r.kind == K_OTHER ? "other type" : f->r.alts.size() == 1 && f->r.alts[0].ok == GOOD ? "good" : "damaged", f->r.fr.size(), f->r.why.empty() ? "" : ", ", f->r.why.c_str()); return s;
}
// All ways in which `got` can be the frames of the files in order. full: some way covers every
// file to its end; ok: in some such way no file failed; prefix: `got` stops somewhere on the way.
struct Match { bool full = false, ok = false, prefix = false; };
static Match match(const vector<string> &got, bool may_fail) {
  Match m; std::set<std::pair<size_t, bool>> st, nx; st.insert({0, true});
  for (auto f : *files) {
    nx.clear(); vector<Alt> alts = f->r.kind == K_MATCH ? f->r.alts : vector<Alt>{{0, EITHER}};
    bool any = may_fail || f->read_err; // reading may have failed anywhere
    for (auto &s : st) {
      size_t p = s.first, k = 0; while (k < f->r.fr.size() && p + k < got.size() && got[p + k] == f->r.fr[k]) k++;
      if (p + k == got.size()) m.prefix = true;
      if (f->r.kind == K_MATCH && (f->open_err || f->start_err)) nx.insert({p, s.second}); // skipped with a warning
      for (auto &a : alts) if (a.n <= k) nx.insert({p + a.n, s.second && a.ok != BAD});
      if (any) for (size_t j = 0; j <= k; j++) nx.insert({p + j, false});
    }
    st.swap(nx);
  }
  for (auto &s : st) if (s.first == got.size()) { m.full = m.prefix = true; if (s.second) m.ok = true; }
  return m;
}
static F *draw_file(int st, u32 i, const vector<string> &types) {
  F *f = new F; f->path = strf("/in/%u.fstrm", i); g_gen_base = 10000 * (i + 1); u32 k = choose(st, 12);
  f->exists = k != 11; f->data = f->exists && k != 10 ? gen_stream(st, false, k == 9 ? vector<string>{"nobody:wants"} : types, 4000, k < 6) : "";
  if (k < 9 && choose(st, 120) == 119) { // around the reader's largest frame
    string d = w_control(CT_START, types); d += w_data(pattern(g_gen_base + 1, 9)) + w_data(pattern(g_gen_base, 1048576 - 1 + choose(st, 3))) + w_data(pattern(g_gen_base + 2, 10)) + w_control(CT_STOP, {}); f->data = d; }
  if (k == 8) f->data.resize(choose(st, f->data.size() + 1)); // cut anywhere
  g_gen_base = 0; return f;
}
static void read_faults(int st) { u32 k = choose(st, 8); if (k == 7) C.p_fread_err = oneof(st, (const u32[]){5, 60, 300}); if (k == 6) C.p_fopen_err = 200; C.p_short_read = oneof(st, (const u32[]){0, 0, 200, 700}); C.stdio_buf = oneof(st, (const u32[]){0, 0, 64, 700}); }

static vector<string> said_lines(const string &s) { vector<string> r; size_t o = 0; while (o < s.size()) { size_t e = s.find('\n', o); if (e == string::npos) e = s.size(); r.push_back(s.substr(o, e - o)); o = e + 1; } return r; }
// ------------------------------------------------------------------ replay
void scen_replay() {
  int st = ST_CFG; draw_sched_cfg(); C.sync_pct = std::min<u32>(C.sync_pct, 20);
  files = new vector<F *>; bool tcp = choose(st, 3) == 2; string addr, port, path, key = tcp ? draw_tcp(st, &addr, &port) : "unix:" + (path = draw_unix(st, "/run/rep.sock"));
  string ct; { u32 k = choose(st, 8); ct = k == 7 ? string(1 + choose(st, 256), 't') : k == 6 ? "x" : "proto:test"; }
  u32 nf = 1 + choose(st, 5); if (choose(st, 20) == 19) nf += 1 + skewed(st, 60); for (u32 i = 0; i < nf; i++) {
    if (i && (i >= 20 || choose(st, 10) == 9)) { files->push_back(new F(*(*files)[choose(st, i)])); continue; } // the same file again
    F *f = draw_file(ST_OPS + i, i, {ct}); f->r = examine(f->data, f->exists, &ct); files->push_back(f); if (f->exists) inode_put(f->path, f->data); }
  hooks(); read_faults(st);
  C.sockbuf = oneof(st, (const u32[]){65536, 65536, 100, 1000, 8000}); C.net_delay_max_ns = oneof(st, (const u64[]){0, 0, MS, 200 * MS}); C.p_short_send = oneof(st, (const u32[]){0, 0, 300});
  { size_t tot = 0; for (auto f : *files) tot += f->data.size(); if (tot > 20000) C.sockbuf = std::max<u32>(C.sockbuf, tot > 100000 ? 65536 : 8000); }
  if (choose(st, 5) == 4) { C.p_send_err = oneof(st, (const u32[]){5, 100}); C.p_recv_err = oneof(st, (const u32[]){0, 200}); C.p_connect_err = oneof(st, (const u32[]){0, 200}); C.p_socket_err = oneof(st, (const u32[]){0, 200}); }
  if (choose(st, 8) == 7) C.p_close_err = 300;
  if (choose(st, 8) == 7) { C.p_stall = oneof(st, (const u32[]){2, 20}); C.stall_max_ns = oneof(st, (const u64[]){10 * MS, NS}); }
  bool server = choose(st, 12) != 11; bool healthy = choose(st, 3) != 2; PeerB pb = draw_peer(healthy, {ct}, choose(st, 2) ? 3 * NS : 0); Server *s = nullptr;
  if (server) { s = start_server(key, tcp, {pb}, pb); if (choose(st, 20) == 19) { s->lis->refusing = true; server = false; fault_fired("server refuses connections"); } } else fault_fired("no server");
  bool healthy_peer = server && pb.healthy();
  vector<string> a{"fstrm_replay"}; auto opt = [&](const char *sh, const char *l, const string &v) { u32 k = choose(st, 3); if (k == 2) a.push_back(string(l) + "=" + v); else { a.push_back(k ? l : sh); a.push_back(v); } };
  opt("-t", "--type", ct); if (tcp) { opt("-a", "--tcp", addr); opt("-p", "--port", port); } else opt("-u", "--unix", path);
  F *sin = choose(st, 12) == 11 ? (*files)[choose(st, files->size())] : nullptr; if (sin) { for (auto f : *files) if (f != sin && f->path == sin->path) { sin = nullptr; break; } } if (sin && !sin->exists) sin = nullptr; // one of them on standard input
  for (auto f : *files) opt("-r", "--read-file", f == sin ? "-" : f->path);
  Proc *p = proc_new("replay"); if (sin) { proc_set_stdin(p, inode_get(sin->path, false)); probe("one of the files on standard input"); } K.kill_proc = p; bool kill9 = choose(st, 16) == 15; u32 kn = kill9 ? 1 + skewed(st, 400) : 0;
  proc_run(p, replay_main, a); if (kill9) K.kill_at_syscall = kn;
  proc_wait(p, now_ns() + 3000 * NS); bool killed = kill9 && p->killed; int code = p->exit_code;
  if (!p->exited) violation("C22", "does-not-end", "replay is still running after 3000 s");
  EV(310, code, K.conns.size(), "replay ended with status %d, %zu connections", code, K.conns.size());
  if (!killed) { // what it says about the files
    if (code && p->err.empty()) violation("C27", "silent-failure", "replay ended with status %d and said nothing", code);
    bool rd = false; for (auto f : *files) rd |= f->open_err || f->start_err || f->read_err;
    if (!rd) {
      vector<string> said, want; for (auto &l : said_lines(p->err)) if (l.find(", skipping") != string::npos) said.push_back(l);
      for (auto f : *files) if (f->r.kind != K_MATCH) want.push_back(f == sin ? "-" : f->path);
      for (size_t i = 0; i < said.size(); i++) if (i >= want.size() || said[i].find(" " + want[i] + ",") == string::npos) violation("C27", "wrong-report", "replay says \"%s\", but file %zu it cannot use is %s:%s", said[i].c_str(), i, i < want.size() ? want[i].c_str() : "(none)", file_summary().c_str());
      if (code == 0 && said.size() != want.size()) violation("C27", "not-reported", "replay reported %zu files it skipped, there were %zu:%s", said.size(), want.size(), file_summary().c_str());
      bool bad = false; for (auto f : *files) bad |= f->r.kind == K_MATCH && f->r.alts[0].ok == BAD && f->r.alts.size() == 1; if (bad && code != 0 && p->err.find("rror") == string::npos) violation("C27", "silent-failure", "replay failed on a damaged file and did not say so:%s", file_summary().c_str());
      probe_n("reports about skipped files judged", said.size());
    }
  }
  if (p->killed && !killed) violation("C22", "killed-by-signal", "replay was ended by a signal's default action");
  if (K.conns.size() > 1) violation("C22", "several-connections", "replay made %zu connections", K.conns.size());
  if (K.conns.empty()) { if (!killed && code == 0) violation("C22", "success-without-connection", "replay exited 0 although it never connected"); if (!killed && server && !p->fault_errs && !C.p_connect_err && !C.p_socket_err) violation("C22", "not-connected", "replay did not connect (status %d)", code); return; }
  ConnRec *c = K.conns[0]; End *e = &c->a; WStream w = w_writer_stream(e->sent, true);
  string sum = file_summary(); const char *fs = sum.c_str();
  if (!w.err.empty()) violation("C22", "bad-stream", "bytes sent are not a prefix of a well-formed stream: %s", w.err.c_str());
  if (w.ready && w.ready_cts != vector<string>{ct}) violation("C22", "wrong-type", "READY does not offer exactly the requested content type");
  if (w.start && w.start_cts != vector<string>{ct}) violation("C22", "wrong-type", "START does not carry the requested content type");
  Match m = match(w.frames, false); probe_n("replayed frames judged", w.frames.size());
  if (!m.prefix) violation("C22", "wrong-frames", "the %zu frames sent are not the frames of the matching files in order:%s", w.frames.size(), fs);
  bool sock_err = false; { u64 rd = 0; for (auto f : *files) rd += f->open_err + f->start_err + f->read_err; sock_err = e->err_reported || e->injected || (p->fault_errs && !rd) || C.p_send_err || C.p_recv_err || C.p_connect_err || C.p_socket_err || C.p_close_err; }
  WParse rp = w_parse(c->b.sent.substr(0, e->received)); bool acc = rp.items.size() >= 1 && rp.items[0].ctl && rp.items[0].type == CT_ACCEPT, fin = acc && rp.items.size() >= 2 && rp.items[1].ctl && rp.items[1].type == CT_FINISH;
  if (!killed && code == 0) {
    if (!w.stop || !acc || !fin) violation("C22", "failure-hidden", "replay exited 0 although %s", !acc ? "the peer did not accept" : !w.stop ? "it did not send STOP" : "the peer did not confirm with FINISH");
    if (!m.full) violation("C22", "frames-missing", "replay exited 0 but sent only %zu frames:%s", w.frames.size(), fs);
    if (!m.ok) violation("C22", "read-failure-hidden", "replay exited 0 although a matching file could not be read to its end:%s", fs);
    probe("successful replays judged complete");
  }
  if (w.stop && !m.full) violation("C22", "frames-missing", "STOP was sent after %zu frames but the files have more:%s", w.frames.size(), fs);
  if (!killed && healthy_peer && !sock_err) {
    if (!w.stop) violation("C22", "not-finished", "the connection worked but replay did not finish the stream (status %d):%s", code, fs);
    bool sound = !p->fault_errs; for (auto f : *files) sound &= f->r.kind == K_OTHER || (f->r.kind == K_MATCH && f->r.alts.size() == 1 && f->r.alts[0].ok == GOOD);
    if (sound && code) violation("C22", "spurious-failure", "replay exited %d although everything worked:%s", code, fs);
  }
}

// ------------------------------------------------------------------ dump
static string escaped(const string &s) {
  string r = " \""; for (unsigned char c : s) { if (c == '"') r += "\\\""; else if (c >= 32 && c < 127) r += (char)c; else r += strf("\\x%02x", c); } return r + "\"\n";
}
void scen_dump() {
  int st = ST_CFG; draw_sched_cfg(); files = new vector<F *>; vector<string> types; { u32 k = choose(st, 8); if (k == 7) types.push_back(string(1 + choose(st, 256), 't')); else if (k < 6) types.push_back(k == 5 ? "a\"\\\n\x80" : k == 4 ? "x" : k == 3 ? "" : "proto:test"); }
  F *f = draw_file(ST_OPS, 0, types); u32 how = choose(st, 10); bool in = how == 9, same_dir = choose(st, 2), out = choose(st, 3) != 0; if (in) f->exists = true;
  f->r = examine(f->data, f->exists, nullptr); files->push_back(f); if (f->exists) inode_put(f->path, f->data); string opath = same_dir ? "/in/out.fstrm" : "/data/copy";
  hooks(); read_faults(st); bool disk = choose(st, 2);
  if (disk) { u32 k = choose(st, 6); if (k == 0) C.p_fwrite_err = oneof(st, (const u32[]){30, 300}); else if (k == 1) C.p_fclose_err = 500; else if (k == 2) C.disk_quota = skewed(st, 3 * (u32)f->data.size() / 2 + 10); else if (k == 3) { C.p_fwrite_err = 100; C.p_fclose_err = 100; } else if (k == 4) C.p_stdout_err = oneof(st, (const u32[]){10, 200}); else C.stdout_quota = skewed(st, (u32)f->data.size() * 3 + 10); }
  C.p_fshort = oneof(st, (const u32[]){0, 0, 200});
  if (out && choose(st, 3) == 2) inode_put(opath, string(skewed(st, 6000), 'g'));
  vector<string> a{"fstrm_dump", in ? "-" : f->path}; if (out) a.push_back(opath);
  Proc *p = proc_new("dump"); if (in) proc_set_stdin(p, inode_get(f->path, false));
  K.kill_proc = p; bool kill9 = choose(st, 16) == 15; u32 kn = kill9 ? 1 + skewed(st, 300) : 0, kw = kill9 ? choose(st, 2) : 0;
  proc_run(p, dump_main, a); if (kill9) { if (kw) K.kill_at_write = 1 + kn % 20; else K.kill_at_syscall = kn; }
  proc_wait(p, now_ns() + 3000 * NS); bool killed = kill9 && p->killed; int code = p->exit_code; if (!p->exited) violation("C23", "does-not-end", "dump is still running after 3000 s");
  EV(320, code, 0, "dump ended with status %d", code); if (p->killed && !killed) violation("C23", "killed-by-signal", "dump was ended by a signal's default action");
  bool opened = false; Inode *n = inode_get(opath, false); if (n) opened = n->n_opened_w > 0; string d = opened ? n->data : ""; string sum = file_summary(); const char *fs = sum.c_str();
  const FRef &r = f->r; bool rfault = f->open_err || f->start_err || f->read_err; bool wfault = K.disk_errors || K.stdout_errors || (p->fault_errs && !rfault); bool sound = r.kind == K_MATCH && r.alts.size() == 1 && r.alts[0].ok == GOOD;
  // frames: what each output holds
  string all; vector<size_t> ends{0}; for (auto &x : r.fr) { all += escaped(x); ends.push_back(all.size()); }
  if (all.size() > (8u << 20)) discard_run("standard output too large");
  if (K.stdout_errors) { // what follows the first failure can only be the rest of the line that failed
    size_t at = K.stdout_err_at, n = std::upper_bound(ends.begin(), ends.end(), at) - ends.begin(); size_t line = n < ends.size() ? ends[n] - ends[n - 1] : 0;
    if (p->out.size() > at + line) violation("C23", "printed-after-failure", "%zu bytes were written to standard output after writing to it had failed:%s", p->out.size() - at, fs);
    p->out.resize(at);
  }
  if (all.compare(0, p->out.size(), p->out)) { size_t i = 0; while (i < p->out.size() && i < all.size() && p->out[i] == all[i]) i++; violation("C23", "wrong-text", "standard output (%zu bytes) is not a prefix of the expected text (%zu bytes), they differ at %zu:%s", p->out.size(), all.size(), i, fs); }
  size_t nout = std::upper_bound(ends.begin(), ends.end(), p->out.size()) - ends.begin() - 1; bool whole_lines = ends[nout] == p->out.size();
  if (!killed && !K.stdout_errors && !whole_lines) violation("C23", "cut-line", "standard output ends in the middle of a line");
  size_t nfile = 0; bool fstop = false;
  if (opened) {
    WStream w = w_writer_stream(d, false); if (!w.err.empty()) violation("C23", "bad-copy", "the output file is not a prefix of a well-formed stream: %s", w.err.c_str());
    if (w.start && w.start_cts != r.cts) violation("C23", "wrong-type", "the output file's content type differs from the input's");
    for (size_t i = 0; i < w.frames.size(); i++) if (i >= r.fr.size() || w.frames[i] != r.fr[i]) violation("C23", "wrong-copy", "frame %zu of the output file is not the input's:%s", i, fs);
    nfile = w.frames.size(); fstop = w.stop; if (!killed && !wfault && (w.partial || !w.start || !w.stop)) violation("C23", "incomplete-copy", "the output file is not a complete stream although nothing went wrong in writing it:%s", fs);
    if (!killed && !wfault && nfile != nout) violation("C23", "copy-differs", "%zu frames printed, %zu copied", nout, nfile);
  }
  if (killed) return;
  { // what it says about the frames
    size_t nr = 0; bool stop = false, other = false; unsigned long long len;
    for (auto &l : said_lines(p->err)) {
      if (sscanf(l.c_str(), "Data frame (%llu) bytes", &len) == 1) { if (nr >= r.fr.size() || len != r.fr[nr].size()) violation("C27", "wrong-report", "dump says data frame %zu has %llu bytes, it has %zu:%s", nr, len, nr < r.fr.size() ? r.fr[nr].size() : 0, fs); nr++; }
      else if (l.compare(0, 18, "FSTRM_CONTROL_STOP") == 0) stop = true; else if (l.compare(0, 14, "FSTRM_CONTROL_") && l.compare(0, 1, " ")) other = true;
    }
    if (nr != nout && !(K.stdout_errors && nr > nout)) violation("C27", "wrong-report", "dump reported %zu data frames and printed %zu:%s", nr, nout, fs);
    if (stop) { bool ok = false; for (auto &q : r.alts) if (q.n == nr && q.ok != BAD) ok = true; if (!ok) violation("C27", "wrong-report", "dump reported a STOP frame after %zu frames, there is none:%s", nr, fs); }
    if (code == 0 && !stop) violation("C27", "not-reported", "dump ended successfully without reporting the STOP frame:%s", fs);
    if (code && !other) violation("C27", "silent-failure", "dump ended with status %d and did not say why:%s", code, fs);
    probe_n("reports about data frames judged", nr);
  }
  if (!rfault && !wfault && r.kind == K_MATCH) { bool ok = false; for (auto &x : r.alts) if (x.n == nout) ok = true; if (!ok) violation("C23", "frames-missing", "%zu frames printed:%s", nout, fs); }
  if (code == 0) {
    if (r.kind != K_MATCH) violation("C23", "failure-hidden", "dump exited 0 on a file that is no stream:%s", fs);
    bool ok = false; for (auto &x : r.alts) if (x.n == nout && x.ok != BAD) ok = true; if (!ok || f->read_err || f->start_err || f->open_err) violation("C23", "failure-hidden", "dump exited 0 after printing %zu frames although the input was not read to its STOP or not printed completely:%s", nout, fs);
    if (out && (!opened || !fstop || nfile != nout)) violation("C23", "write-failure-hidden", "dump exited 0 but the output file holds %zu frames%s, %zu were printed", nfile, fstop ? "" : " and no STOP", nout);
    if (K.disk_errors || K.stdout_errors) violation("C23", "write-failure-hidden", "dump exited 0 although %s failed", K.disk_errors ? "writing the output file" : "writing to standard output");
    probe("successful dumps judged complete");
  } else if (sound && !p->fault_errs) violation("C23", "spurious-failure", "dump exited %d although everything worked:%s", code, fs);
}
