// The programs' start: every usable configuration is served exactly as asked for, every unusable
// one, and every failing start-up system call, ends in a prompt failure. Property C26.
#include "common.h"
#include "internal.h"
#include <algorithm>
#include <signal.h>
extern "C" int capture_main(int, char **); extern "C" int replay_main(int, char **); extern "C" int dump_main(int, char **);

namespace {
typedef vector<string> Args;
int st = ST_CFG;
string tail(const string &s) { return s.size() > 200 ? s.substr(s.size() - 200) : s; }
string show(const Args &a) { string s; for (auto &x : a) { s += s.empty() ? "" : " "; s += x.size() > 60 ? x.substr(0, 57) + "..." : x; } return s; }
void opt(Args &a, const char *s, const char *l, const string &v) { u32 k = choose(st, 3); if (k == 2) a.push_back(string(l) + "=" + v); else { a.push_back(k ? l : s); a.push_back(v); } }
// one option with its value
struct O { const char *s, *l; string v; bool flag = false; };
void emit(Args &a, vector<O> &o) {
  for (size_t i = o.size(); i > 1; i--) { size_t j = i - 1 - choose(st, (u32)i); std::swap(o[i - 1], o[j]); } // options come in any order
  for (auto &x : o) if (x.flag) a.push_back(x.l); else opt(a, x.s, x.l, x.v);
}
void drop(vector<O> &o, char c) { for (size_t i = 0; i < o.size(); i++) if (o[i].s[1] == c) { o.erase(o.begin() + i); return; } }
O *get(vector<O> &o, char c) { for (auto &x : o) if (x.s[1] == c) return &x; return nullptr; }
const char *const bad_addrs[] = {"localhost", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ", "::g", "1:2:3:4:5:6:7:8:9", "[::1]", "", "/run/x"};
const char *const bad_ports[] = {"65536", "70000", "x", "53x", "-1", "4294967376", "99999999999999999999", "5353.0"};

// A client that goes through a whole conversation; what it wants is a list of frames.
struct Conv { string key, ct; vector<string> fr; bool connected = false, accepted = false, finished = false, done = false; string got; };
void converse(Conv *v) {
  ConnRec *c = peer_connect(v->key, now_ns()); if (!c) { v->done = true; return; }
  v->connected = true; End *e = &c->a; char b[256]; u64 dl = now_ns() + 5 * NS;
  auto want = [&](const string &w) { while (v->got.size() < w.size()) { size_t n = peer_read(e, b, sizeof b, dl); if (!n) return false; v->got.append(b, n); } return v->got == w; };
  string s = w_control(CT_READY, {v->ct}); peer_write(e, s.data(), s.size()); string w = w_control(CT_ACCEPT, {v->ct});
  v->accepted = want(w);
  if (v->accepted) { s = w_control(CT_START, {v->ct}); for (auto &f : v->fr) s += w_data(f); s += w_control(CT_STOP, {}); peer_write(e, s.data(), s.size(), dl); v->finished = want(w + w_control(CT_FINISH, {})); }
  peer_close(e); v->done = true;
}

void start_capture() {
  string addr, port, path; bool tcp = choose(st, 2); string key = tcp ? draw_tcp(st, &addr, &port) : "unix:" + (path = draw_unix(st, "/run/cap.sock")); K.want_addr.clear();
  string ct; { u32 k = choose(st, 6); ct = k == 5 ? string(256 - choose(st, 2), 't') : k == 4 ? "x" : "proto:test"; }
  u32 out = choose(st, 3); string fname = out == 2 ? "-" : out == 0 ? "/data/out.fstrm" : oneof(st, (const char *const[]){"/data/cap-%Y%m%d-%H%M%S.fstrm", "/data/fixed"}); bool local = out == 1 && choose(st, 2), split = out == 1 && choose(st, 2);
  vector<O> o; o.push_back({"-t", "--type", ct}); if (tcp) { o.push_back({"-a", "--tcp", addr}); o.push_back({"-p", "--port", port}); } else { o.push_back({"-u", "--unix", path}); if (choose(st, 8) == 7) o.push_back({"-p", "--port", "5353"}); }
  o.push_back({"-w", "--write", fname}); if (out == 1) o.push_back({"-", local ? "--localtime" : "--gmtime", "", true}); if (split) o.push_back({"-s", "--split", "3600"});
  if (choose(st, 3) == 2) o.push_back({"-b", "--buffersize", strf("%u", 600 + choose(st, 5000))}); if (choose(st, 3) == 2) o.push_back({"-c", "--maxconns", strf("%u", 1 + choose(st, 4))});
  // what is wrong, if anything
  u32 mode = choose(st, 3); const char *why = nullptr; bool usage = false; Args extra; bool pre = false;
  bool old_sock = !tcp && choose(st, 3) == 2, old_tw = tcp && choose(st, 3) == 2, old_out = out == 0 && choose(st, 3) == 2;
  if (mode == 1) { // an unusable command line
    usage = true;
    switch (choose(st, 17)) {
      case 0: drop(o, 't'); why = "no content type"; break;
      case 1: drop(o, 'w'); why = "no output file"; break;
      case 2: drop(o, tcp ? 'a' : 'u'); why = "no address"; break;
      case 3: if (tcp) { drop(o, 'p'); why = "no port"; } else { get(o, 'u')->v = "/run/" + string(choose(st, 2) ? 103 : 103 + choose(st, 100), 'p'); path = get(o, 'u')->v; key = "unix:" + path; why = "socket path too long"; } break;
      case 4: extra.push_back(oneof(st, (const char *const[]){"--nonsense", "-Z", "--writ", "-", "stray"})); why = "unknown argument"; break;
      case 5: extra.push_back(oneof(st, (const char *const[]){"-b", "--split", "-c", "--type", "-w"})); why = "option without its value"; break;
      case 6: if (!local) o.push_back({"-", "--localtime", "", true}); if (local || out != 1) o.push_back({"-", "--gmtime", "", true}); why = "two time zones"; break;
      case 7: if (out == 1) { drop(o, '\0'); } if (!split) o.push_back({"-s", "--split", "60"}); why = "split without a time zone"; break;
      case 8: get(o, 'w')->v = "-"; if (!split) o.push_back({"-s", "--split", "60"}); if (out != 1) o.push_back({"-", "--gmtime", "", true}); why = "split of standard output"; break;
      case 12: get(o, 'w')->v = "-"; if (split) drop(o, 's'); K.tty = true; why = "binary output would go to a terminal"; break;
      case 9: case 10: case 11: if (tcp) { get(o, 'a')->v = bad_addrs[choose(st, 10)]; why = "bad address"; } else { drop(o, 'u'); o.push_back({"-a", "--tcp", bad_addrs[choose(st, 10)]}); if (!get(o, 'p')) o.push_back({"-p", "--port", "5353"}); why = "bad address"; } break;
      default: if (tcp) get(o, 'p')->v = bad_ports[choose(st, 8)]; else { drop(o, 'u'); drop(o, 'p'); o.push_back({"-a", "--tcp", "127.0.0.1"}); o.push_back({"-p", "--port", bad_ports[choose(st, 8)]}); } why = "bad port";
    }
    fault_fired("unusable command line");
  } else if (mode == 2) { // the system refuses something
    switch (out == 1 ? choose(st, 10) : choose(st, 9)) {
      case 9: { string n = choose(st, 2) ? "" : "/data/"; static const char *const long_[] = {"%c", "%F %T", "%D %r"}; const char *f = long_[choose(st, 3)]; for (u32 i = 60 + choose(st, 60); i; i--) n += f; get(o, 'w')->v = n; why = "the name of the output gets too long"; break; }
      case 0: C.p_socket_err = 1000; why = "socket() fails"; break;
      case 1: C.p_bind_err = 1000; why = "bind() fails"; break;
      case 2: C.p_listen_err = 1000; why = "listen() fails"; break;
      case 3: if (tcp) { pre = true; why = "address in use"; fault_fired("address in use"); } else { C.p_remove_err = 1000; old_sock = true; why = "the old socket cannot be removed"; } break;
      case 4: if (out != 2) { C.p_fopen_err = 1000; why = "the output cannot be opened"; } else { C.p_stdout_err = 1000; why = "standard output cannot be written"; } break;
      case 5: if (out != 2) { K.nodir = "/data/"; why = "no directory for the output"; } else { C.stdout_quota = choose(st, 10); why = "standard output full"; } break;
      case 6: if (tcp) { pre = true; why = "address in use"; fault_fired("address in use"); } else { K.nodir = "/run/"; old_sock = false; why = "no directory for the socket"; } break;
      case 7: if (out != 2) { if (choose(st, 2)) C.p_fwrite_err = 1000; else C.disk_quota = choose(st, 10); old_out = false; why = "START cannot be written"; } else { C.p_stdout_err = 1000; why = "standard output cannot be written"; } break;
      default: get(o, 't')->v = string(257 + choose(st, 300), 'T'); why = "content type too long";
    }
    C.stdio_buf = oneof(st, (const u32[]){0, 0, 64}); C.p_fshort = oneof(st, (const u32[]){0, 200});
  }
  Args a{"fstrm_capture"}; emit(a, o); for (auto &x : extra) a.push_back(x); for (u32 i = choose(st, 7), n = 0; n + 3 < i; n++) a.insert(a.begin() + 1, "-d");
  if (usage && extra.size() && extra[0][0] != '-' && choose(st, 2)) { a.pop_back(); a.insert(a.begin() + 1, extra[0]); }
  if (old_sock) { if (choose(st, 4) == 3) inode_put(path, "not a socket"); else inode_get(path, true)->is_socket = true; }
  if (old_tw) { K.tw[key] = now_ns() + 30 * NS; probe("capture: connections of an earlier run in TIME_WAIT"); }
  if (old_out) inode_put("/data/out.fstrm", string(1 + skewed(st, 6000), 'g'));
  if (pre) listen_on(key, true);
  bool touched = false; K.on_file_open_w = [&touched](Inode *) { touched = true; }; K.on_unlink = [&touched](const string &) { touched = true; };
  set_real_time(1700000000ll * (i64)NS + choose(st, 1000000) * (i64)MS);
  Proc *p = proc_new("capture"); K.kill_proc = p; u64 t0 = now_ns(); proc_run(p, capture_main, a);
  auto listening = [&] { size_t n = 0; for (auto &l : K.listeners) n += l.second->open; return n - pre; };
  u64 dl = t0 + 2 * NS; while (!p->exited && !(p->n_polls && listening()) && now_ns() < dl) proc_wait(p, std::min(dl, now_ns() + 5 * MS));
  string cmd = show(a);
  if (why) {
    proc_wait(p, t0 + 5 * NS); probe("capture: unusable starts judged");
    if (!p->exited) violation("C26", "bad-start-accepted", "capture runs although %s: %s", why, cmd.c_str());
    else if (p->killed) violation("C26", "killed-at-start", "capture was killed by a signal (%s): %s", why, cmd.c_str());
    else if (p->exit_code == 0) violation("C26", "failed-start-hidden", "capture exited 0 although %s: %s", why, cmd.c_str());
    if (p->exited && p->err.empty()) violation("C26", "silent-failure", "capture said nothing on standard error although %s: %s", why, cmd.c_str());
    if (usage && touched) violation("C26", "bad-arguments-acted-on", "capture opened or removed a file although its arguments are unusable (%s): %s", why, cmd.c_str());
    if (!p->exited) sim_kill(p, SIGKILL);
    return;
  }
  if (p->exited) { violation("C26", "start-failed", "capture exited %d although its configuration is usable: %s: %s", p->exit_code, cmd.c_str(), tail(p->err).c_str()); return; }
  if (!p->n_polls || !listening()) violation("C26", "not-listening", "capture is not listening after 2 s: %s", cmd.c_str());
  auto it = K.listeners.find(key);
  if (it == K.listeners.end()) { violation("C26", "wrong-address", "capture listens on %s instead of %s: %s", K.listeners.empty() ? "nothing" : K.listeners.begin()->first.c_str(), key.c_str(), cmd.c_str()); sim_kill(p, SIGKILL); return; }
  if (listening() > 1) violation("C26", "listens-twice", "capture listens on %zu addresses: %s", listening(), cmd.c_str());
  // clients one after the other
  string all = w_control(CT_START, {ct}); u32 n = 1 + choose(st, 3);
  for (u32 i = 0; i < n; i++) {
    Conv v; v.key = key; v.ct = ct; for (u32 k = choose(st, 4); k; k--) v.fr.push_back(pattern(100 * i + k, 5 + choose(st, 300))); for (auto &f : v.fr) all += w_data(f);
    fiber_join(fiber_spawn("client", [&v] { converse(&v); }, nullptr));
    if (!v.connected || !v.accepted || !v.finished) { violation("C26", "not-served", "client %u %s: %s", i, !v.connected ? "cannot connect" : !v.accepted ? "was not answered with ACCEPT" : "was not answered with FINISH", cmd.c_str()); sim_kill(p, SIGKILL); return; }
  }
  all += w_control(CT_STOP, {}); u64 t1 = now_ns(); sim_kill(p, choose(st, 2) ? SIGTERM : SIGINT); proc_wait(p, t1 + 5 * NS);
  if (!p->exited || p->killed || p->exit_code) { violation("C26", "bad-end", "capture %s at the end: %s", !p->exited ? "does not end" : strf("ended with status %d", p->exit_code).c_str(), cmd.c_str()); sim_kill(p, SIGKILL); return; }
  string got; size_t nf = 0; string names; if (out == 2) { got = p->out; nf = 1; }
  for (auto &x : K.fs) if (x.first.compare(0, 6, "/data/") == 0) { nf++; got = x.second->data; names += " " + x.first; }
  if (nf != 1) violation("C26", "output-files", "%zu output files:%s: %s", nf, names.c_str(), cmd.c_str());
  if (got != all) violation("C26", "wrong-output", "the output is not the %u clients' frames (%zu bytes, expected %zu): %s", n, got.size(), all.size(), cmd.c_str());
  probe("capture: usable starts judged");
}

void start_replay() {
  string addr, port, path; bool tcp = choose(st, 2); string key = tcp ? draw_tcp(st, &addr, &port) : "unix:" + (path = draw_unix(st, "/run/rep.sock")); string ct = "proto:test";
  string in = w_control(CT_START, {ct}) + w_data(pattern(1, 50)) + w_control(CT_STOP, {}); inode_put("/in/0.fstrm", in);
  vector<O> o; o.push_back({"-t", "--type", ct}); if (tcp) { o.push_back({"-a", "--tcp", addr}); o.push_back({"-p", "--port", port}); } else { o.push_back({"-u", "--unix", path}); if (choose(st, 6) == 5) o.push_back({"-p", "--port", "5353"}); } o.push_back({"-r", "--read-file", "/in/0.fstrm"});
  Args extra; const char *why = nullptr; bool bad = choose(st, 3);
  if (bad) {
    fault_fired("unusable command line");
    switch (choose(st, 12)) {
      case 0: drop(o, 't'); why = "no content type"; break;
      case 1: drop(o, 'r'); why = "no input file"; break;
      case 2: drop(o, tcp ? 'a' : 'u'); why = "no address"; break;
      case 3: if (tcp) { drop(o, 'p'); why = "no port"; } else { get(o, 'u')->v = "/run/" + string(choose(st, 2) ? 103 : 103 + choose(st, 100), 'p'); why = "socket path too long"; } break;
      case 4: extra.push_back(oneof(st, (const char *const[]){"--nonsense", "-Z", "stray"})); why = "unknown argument"; break;
      case 5: extra.push_back(oneof(st, (const char *const[]){"-r", "--type", "-t"})); why = "option without its value"; break;
      case 6: if (tcp) o.push_back({"-u", "--unix", "/run/other.sock"}); else { drop(o, 'p'); o.push_back({"-a", "--tcp", "127.0.0.1"}); o.push_back({"-p", "--port", "5353"}); } why = "two addresses"; break;
      case 7: get(o, 't')->v = string(257 + choose(st, 300), 'T'); why = "content type too long"; break;
      case 8: case 9: if (!tcp) { drop(o, 'u'); drop(o, 'p'); o.push_back({"-a", "--tcp", ""}); o.push_back({"-p", "--port", "5353"}); } get(o, 'a')->v = bad_addrs[choose(st, 10)]; why = "bad address"; break;
      default: if (!tcp) { drop(o, 'u'); drop(o, 'p'); o.push_back({"-a", "--tcp", "127.0.0.1"}); o.push_back({"-p", "--port", ""}); } get(o, 'p')->v = bad_ports[choose(st, 8)]; why = "bad port";
    }
  }
  PeerB pb; pb.cts = {ct}; Server *s = start_server(key, tcp, {pb}, pb);
  Args a{"fstrm_replay"}; emit(a, o); for (auto &x : extra) a.push_back(x); string cmd = show(a);
  Proc *p = proc_new("replay"); proc_run(p, replay_main, a); proc_wait(p, now_ns() + 60 * NS); if (!p->exited) { violation("C26", "does-not-end", "replay is still running after 60 s: %s", cmd.c_str()); sim_kill(p, SIGKILL); return; }
  if (why) {
    probe("replay: unusable starts judged");
    if (p->killed || p->exit_code == 0) violation("C26", "failed-start-hidden", "replay ended with status %d although %s: %s", p->exit_code, why, cmd.c_str());
    if (!K.attempts.empty()) violation("C26", "bad-arguments-acted-on", "replay tried to connect although its arguments are unusable (%s): %s", why, cmd.c_str());
    return;
  }
  probe("replay: usable starts judged");
  if (p->killed || p->exit_code) violation("C26", "start-failed", "replay ended with status %d although its configuration is usable: %s: %s", p->exit_code, cmd.c_str(), tail(p->err).c_str());
  if (s->logs.size() != 1) violation("C26", "not-connected", "replay made %zu connections to %s: %s", s->logs.size(), key.c_str(), cmd.c_str());
  else { WStream w = w_writer_stream(s->logs[0]->got, true); if (w.frames != vector<string>{pattern(1, 50)}) violation("C26", "wrong-output", "replay sent %zu frames instead of the file's one: %s", w.frames.size(), cmd.c_str()); }
}

void start_dump() {
  string in = w_control(CT_START, {"proto:test"}) + w_data("abc") + w_control(CT_STOP, {}); inode_put("/in/0.fstrm", in); inode_put("/data/old", "old contents");
  Args a{"fstrm_dump"}; const char *why = nullptr; u32 k = choose(st, 5);
  if (k == 0) why = "no arguments"; else if (k == 1) { a.insert(a.end(), {"/in/0.fstrm", "/data/old", "/data/third"}); why = "three arguments"; } else if (k == 2) { a.insert(a.end(), {"/in/none", "/data/old"}); why = "no such input"; } else if (k == 3) { a.insert(a.end(), {"/in/0.fstrm", "/none/out"}); K.nodir = "/none/"; why = "no directory for the output"; } else { a.push_back("/in/0.fstrm"); if (choose(st, 2)) a.push_back("/data/old"); }
  string cmd = show(a); bool touched = false; K.on_file_open_w = [&touched](Inode *) { touched = true; };
  Proc *p = proc_new("dump"); proc_run(p, dump_main, a); proc_wait(p, now_ns() + 60 * NS); if (!p->exited) { violation("C26", "does-not-end", "dump is still running after 60 s: %s", cmd.c_str()); sim_kill(p, SIGKILL); return; }
  if (why) {
    probe("dump: unusable starts judged"); fault_fired("unusable command line");
    if (p->killed || p->exit_code == 0) violation("C26", "failed-start-hidden", "dump ended with status %d although %s: %s", p->exit_code, why, cmd.c_str());
    if (!p->out.empty()) violation("C26", "bad-arguments-acted-on", "dump printed %zu bytes although %s: %s", p->out.size(), why, cmd.c_str());
    if (k < 3 && touched) violation("C26", "bad-arguments-acted-on", "dump opened an output file although %s: %s", why, cmd.c_str());
    return;
  }
  probe("dump: usable starts judged");
  if (p->killed || p->exit_code || p->out != " \"abc\"\n") violation("C26", "start-failed", "dump ended with status %d and printed %zu bytes: %s", p->exit_code, p->out.size(), cmd.c_str());
  if (a.size() == 3 && inode_get("/data/old", true)->data != in) violation("C26", "wrong-output", "the output file is not a copy of the input: %s", cmd.c_str());
}
}
void scen_startup() {
  draw_sched_cfg(); u32 k = choose(st, 10);
  if (k < 7) start_capture(); else if (k < 9) start_replay(); else start_dump();
}
