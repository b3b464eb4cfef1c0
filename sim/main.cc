// Driver: seeded search over runs, replay, minimisation, evidence.
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <algorithm>
#include <set>

struct PropScen { const char *prop; const char *scen; int share; };
extern const PropScen g_prop_scens[]; extern const int g_nprop_scens;
const char *prop_rule(const string &prop);

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static u64 hstr(const string &s) { u64 h = 0xcbf29ce484222325ull; for (u8 c : s) h = (h ^ c) * 0x100000001b3ull; return h; }
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static const Scenario *find_scen(const string &n) { for (int i = 0; i < g_nscenarios; i++) if (n == g_scenarios[i].name) return &g_scenarios[i]; return nullptr; }

struct Result { Outcome o; string cls, msg, tags; u64 hash, ihash, steps, sim_ns, switches; Tapes t; };
static Result run_one(const Scenario *sc, u64 seed, const Tapes *rp, bool want_tape, const char *trace_path = nullptr) {
  memset((void *)g_slot, 0, offsetof(Slot, tape));
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    signal(SIGALRM, SIG_DFL); alarm(300);
    if (trace_path) { g_trace = true; g_trace_f = !strcmp(trace_path, "-") ? stdout : fopen(trace_path, "w"); }
    run_child(sc, seed, rp, want_tape);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Result r; r.o = (Outcome)g_slot->outcome; r.cls = g_slot->cls; r.msg = g_slot->msg; r.tags = g_slot->tags;
  r.hash = g_slot->hash; r.ihash = g_slot->ihash; r.steps = g_slot->steps; r.sim_ns = g_slot->sim_ns; r.switches = g_slot->switches;
  if (r.o == OUT_NONE) {
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGALRM) { r.o = OUT_VIOLATION; r.cls = "crash"; r.tags = "*"; r.msg = strf("run ended by signal %d", WTERMSIG(st)); }
    else { r.o = OUT_HARNESS; r.msg = strf("run ended without result (status %#x)", st); }
  }
  if (want_tape) { u32 off = 0; for (int s = 0; s < NSTREAMS; s++) { r.t.t[s].assign(g_slot->tape + off, g_slot->tape + off + g_slot->tape_len[s]); off += g_slot->tape_len[s]; } }
  return r;
}

// ------------------------------------------------------------------ replay files
static void write_replay(const string &path, const string &prop, const Scenario *sc, u64 seed, u64 base_seed, const Result &r, const Tapes &t, const string &trace_file) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "fstrm-sim-replay 1\nproperty %s\nscenario %s\nseed %llu\nverif_seed %llu\nclass %s\nhash %016llx\nmessage %s\n", prop.c_str(), sc->name, (unsigned long long)seed, (unsigned long long)base_seed, r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
  static const char *names[] = {"configuration", "schedule", "faults", "network", "kernel", "heap", "environment", "spare"};
  for (int s = 0; s < NSTREAMS; s++) if (!t.t[s].empty()) {
    fprintf(f, "# stream %d: %s\ntape %d", s, s < 8 ? names[s] : "operations", s); for (u32 v : t.t[s]) fprintf(f, " %u", v); fprintf(f, "\n");
  }
  fprintf(f, "# replay with: /verif/tools/replay.sh <this file>\n# ---- trace of the execution ----\n");
  if (FILE *tf = fopen(trace_file.c_str(), "r")) {
    vector<string> lines; char *l = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&l, &cap, tf)) > 0) lines.push_back(string(l, n));
    size_t a = 0; if (lines.size() > 6000) { a = lines.size() - 5000; for (size_t i = 0; i < 1000; i++) fputs(lines[i].c_str(), f); fprintf(f, "# ... %zu lines omitted ...\n", a - 1000); }
    for (size_t i = a; i < lines.size(); i++) fputs(lines[i].c_str(), f);
    fclose(tf); free(l);
  }
  fclose(f);
}
struct ReplayFile { string prop, scen, cls; u64 seed = 0, hash = 0; Tapes t; bool ok = false; };
static ReplayFile read_replay(const char *path) {
  ReplayFile r; FILE *f = fopen(path, "r"); if (!f) { perror(path); return r; }
  char *l = nullptr; size_t cap = 0; ssize_t n; bool magic = false;
  while ((n = getline(&l, &cap, f)) > 0) {
    if (l[0] == '#') continue; if (l[n - 1] == '\n') l[n - 1] = 0;
    string s = l;
    if (s == "fstrm-sim-replay 1") magic = true;
    else if (s.compare(0, 9, "property ") == 0) r.prop = s.substr(9);
    else if (s.compare(0, 9, "scenario ") == 0) r.scen = s.substr(9);
    else if (s.compare(0, 6, "class ") == 0) r.cls = s.substr(6);
    else if (s.compare(0, 5, "seed ") == 0) r.seed = strtoull(l + 5, nullptr, 10);
    else if (s.compare(0, 5, "hash ") == 0) r.hash = strtoull(l + 5, nullptr, 16);
    else if (s.compare(0, 5, "tape ") == 0) { char *p = l + 5; int st = strtol(p, &p, 10); if (st >= 0 && st < NSTREAMS) while (*p) { char *q; u32 v = strtoul(p, &q, 10); if (q == p) break; r.t.t[st].push_back(v); p = q; } }
  }
  free(l); fclose(f); r.ok = magic && find_scen(r.scen); return r;
}
static int do_replay(const char *path, bool trace) {
  ReplayFile r = read_replay(path); if (!r.ok) { fprintf(stderr, "not a replay file: %s\n", path); return 3; }
  g_prop = r.prop;
  Result x = run_one(find_scen(r.scen), r.seed, &r.t, false, trace ? "-" : nullptr);
  if (x.o == OUT_VIOLATION || x.o == OUT_FOREIGN) {
    printf("replayed: %s %s: %s\nhash %016llx %s\n", x.tags.c_str(), x.cls.c_str(), x.msg.c_str(), (unsigned long long)x.hash, x.hash == r.hash && x.cls == r.cls ? "(exactly as recorded)" : "(NOT the recorded execution)");
    if (x.o == OUT_VIOLATION && x.cls == r.cls) { printf("VIOLATION property=%s replay=%s\n", r.prop.c_str(), path); return x.hash == r.hash ? 1 : 4; }
    return 4;
  }
  printf("replayed: no violation (%s)\n", x.o == OUT_OK ? "run passed" : x.msg.c_str()); return x.o == OUT_OK ? 0 : 4;
}

// ------------------------------------------------------------------ minimisation
static u32 tape_weight(const Tapes &t) { u32 n = 0; for (auto &v : t.t) { n += v.size(); for (u32 x : v) n += x != 0; } return n; }
struct Minimiser {
  const Scenario *sc; u64 seed; string cls; Tapes best; Result bestr; double deadline; int tries = 0;
  bool attempt(const Tapes &c) {
    if (wall() > deadline) return false;
    tries++;
    Result r = run_one(sc, seed, &c, true);
    if (r.o != OUT_VIOLATION || r.cls != cls) return false;
    Tapes used = r.t; // what the run really consumed
    for (auto &v : used.t) while (!v.empty() && v.back() == 0) v.pop_back();
    if (tape_weight(used) > tape_weight(best)) return false;
    best = used; bestr = r; return true;
  }
  void run() {
    for (auto &v : best.t) while (!v.empty() && v.back() == 0) v.pop_back();
    bool any = true;
    for (int round = 0; round < 4 && any && wall() < deadline; round++) {
      any = false;
      for (int s = 0; s < NSTREAMS; s++) {
        if (best.t[s].empty()) continue;
        Tapes c = best; c.t[s].clear(); if (attempt(c)) { any = true; continue; }
        for (size_t cut = best.t[s].size() / 2; cut >= 1 && wall() < deadline; cut /= 2) { // truncate
          while (best.t[s].size() > cut) { Tapes d = best; d.t[s].resize(d.t[s].size() - cut); if (!attempt(d)) break; any = true; }
        }
        for (size_t ch = std::max<size_t>(1, best.t[s].size() / 2); ch >= 1 && wall() < deadline; ch /= 2) { // zero, then delete chunks
          for (size_t o = 0; o < best.t[s].size() && wall() < deadline; o += ch) {
            bool nz = false; for (size_t i = o; i < o + ch && i < best.t[s].size(); i++) nz |= best.t[s][i] != 0;
            if (nz) { Tapes d = best; for (size_t i = o; i < o + ch && i < d.t[s].size(); i++) d.t[s][i] = 0; if (attempt(d)) { any = true; continue; } }
            if (o < best.t[s].size()) { Tapes d = best; d.t[s].erase(d.t[s].begin() + o, d.t[s].begin() + std::min(o + ch, d.t[s].size())); if (attempt(d)) any = true; }
          }
          if (ch == 1) break;
        }
        if (best.t[s].size() <= 200) for (size_t i = 0; i < best.t[s].size() && wall() < deadline; i++)
          while (i < best.t[s].size() && best.t[s][i] > 1) { Tapes d = best; d.t[s][i] /= 2; if (!attempt(d)) break; any = true; }
      }
    }
  }
};

// ------------------------------------------------------------------ search
struct Hit { u64 idx; u64 seed; int scen; char cls[128]; char msg[2048]; char tags[128]; };
struct Shared { volatile u64 next; volatile int stop; volatile u32 nhits; Hit hits[64]; volatile int lock; u64 harness; char harness_msg[2048]; u64 harness_seed; char harness_scen[32]; u64 known[64]; u64 det_checked, det_bad; u64 scen_runs[32]; };
static Shared *S;
static void lock() { while (__sync_lock_test_and_set(&S->lock, 1)) usleep(50); }
static void unlock() { __sync_lock_release(&S->lock); }
struct Known { string prop, cls, match, text; };
static vector<Known> load_known(const string &path) {
  vector<Known> k; FILE *f = fopen(path.c_str(), "r"); if (!f) return k; char b[4096];
  while (fgets(b, sizeof b, f)) {
    string s = b; while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
    if (s.compare(0, 8, "finding:") != 0) continue; // "fixed:" entries suppress nothing
    Known x; size_t p = s.find("property="), c = s.find("class="), m = s.find("match=\""), t = s.find(" :: ");
    if (p == string::npos || c == string::npos || t == string::npos) continue;
    x.prop = s.substr(p + 9, s.find(' ', p) - p - 9); x.cls = s.substr(c + 6, s.find(' ', c) - c - 6); x.text = s.substr(t + 4);
    if (m != string::npos && m < t) x.match = s.substr(m + 7, s.find('"', m + 7) - m - 7);
    k.push_back(x);
  }
  fclose(f); return k;
}
static string jesc(const string &s) { string o; for (u8 c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o; }

struct Opt { string prop, tier = "quick", evidence, known, repdir = ".", exe; u64 seed = 1, runs = 0; double wall_s = 30; int jobs = 8; double build_s = 0; };

static u64 run_seed(const Opt &o, u64 idx) { return mix(mix(o.seed * 0x9e3779b97f4a7c15ull ^ hstr(o.prop)) + idx); }
static int search(const Opt &o) {
  double t0 = wall(); g_prop = o.prop;
  vector<const PropScen *> ps; int total = 0; for (int i = 0; i < g_nprop_scens; i++) if (o.prop == g_prop_scens[i].prop) { ps.push_back(&g_prop_scens[i]); total += ps.back()->share; }
  if (ps.empty()) { fprintf(stderr, "no scenario for property %s\n", o.prop.c_str()); return 3; }
  auto scen_for = [&](u64 idx) { int k = (int)(mix(idx * 7 + 1) % total), i = 0; while (k >= ps[i]->share) k -= ps[i++]->share; return i; };
  vector<Known> known = load_known(o.known);
  S = (Shared *)shm(sizeof(Shared)); int J = o.jobs;
  vector<Slot *> slots; vector<Stats *> stats; vector<u64 *> ihs; const u32 IHMAX = 4u << 20;
  for (int j = 0; j < J; j++) { slots.push_back((Slot *)shm(sizeof(Slot))); stats.push_back((Stats *)shm(sizeof(Stats))); ihs.push_back((u64 *)shm((size_t)IHMAX * 16)); }
  u64 maxruns = o.runs ? o.runs : 100000000ull; double dl = t0 + o.wall_s;
  double searched = 0; int violations = 0, rc = 0; string replay_path;
  for (int round = 0; round < 20; round++) { // another round only if nothing of what the one before found could be confirmed
  vector<pid_t> kids;
  for (int j = 0; j < J; j++) {
    fflush(stdout); pid_t p = fork(); if (p < 0) { perror("fork"); return 3; }
    if (p == 0) {
      g_slot = slots[j]; g_stats = stats[j];
      u32 n = g_stats->nih;
      while (!S->stop && wall() < dl) {
        u64 idx = __sync_fetch_and_add(&S->next, 1); if (idx >= maxruns) break;
        int si = scen_for(idx); const Scenario *sc = find_scen(ps[si]->scen); if (!sc) { fprintf(stderr, "no scenario %s\n", ps[si]->scen); _exit(3); }
        u64 seed = run_seed(o, idx);
        u64 before = 0; for (auto &c : g_stats->c) if (c.kind == 1) before += c.n;
        Result r = run_one(sc, seed, nullptr, false);
        g_stats->runs++; __sync_fetch_and_add(&S->scen_runs[si], 1);
        u64 after = 0; for (auto &c : g_stats->c) if (c.kind == 1) after += c.n;
        if (n < IHMAX) { ihs[j][2 * n] = r.ihash; ihs[j][2 * n + 1] = (r.hash & ~1ull) | (u64)(r.o == OUT_OK && (after > before || r.switches > 4)); n++; g_stats->nih = n; }
        switch (r.o) {
          case OUT_OK: g_stats->ok++; break;
          case OUT_DISCARD: g_stats->discard++; break;
          case OUT_HARNESS: lock(); if (!S->harness++) { snprintf(S->harness_msg, sizeof S->harness_msg, "%s", r.msg.c_str()); S->harness_seed = seed; snprintf(S->harness_scen, 32, "%s", sc->name); } unlock(); g_stats->harness++; break;
          case OUT_FOREIGN: g_stats->foreign++; snprintf(g_stats->foreign_cls, 128, "%s [%s]", r.cls.c_str(), r.tags.c_str()); g_stats->foreign_seed = seed; snprintf(g_stats->foreign_scen, 32, "%s", sc->name); snprintf(g_stats->foreign_msg, 512, "%s", r.msg.c_str()); break;
          case OUT_VIOLATION: {
            g_stats->viol++; bool isk = false;
            for (size_t k = 0; k < known.size() && k < 64; k++) if (known[k].prop == o.prop && known[k].cls == r.cls && (known[k].match.empty() || r.msg.find(known[k].match) != string::npos)) { __sync_fetch_and_add(&S->known[k], 1); isk = true; }
            if (!isk) { lock(); if (S->nhits < 64) { Hit &h = S->hits[S->nhits]; h.idx = idx; h.seed = seed; h.scen = si; snprintf(h.cls, sizeof h.cls, "%s", r.cls.c_str()); snprintf(h.msg, sizeof h.msg, "%s", r.msg.c_str()); snprintf(h.tags, sizeof h.tags, "%s", r.tags.c_str()); S->nhits = S->nhits + 1; } S->stop = 1; unlock(); }
            break; }
          default: break;
        }
        if (idx % 97 == 5 && r.o == OUT_OK) { // determinism: the same seed again must be the same execution, and so must be the replay of the choices it recorded
          Stats save = *g_stats; Result q = run_one(sc, seed, nullptr, true); bool over = g_slot->tape_overflow;
          if (q.hash == r.hash && !over) { Tapes t = q.t; q = run_one(sc, seed, &t, false); } *g_stats = save;
          __sync_fetch_and_add(&S->det_checked, 1); if (q.hash != r.hash || q.o != r.o) { __sync_fetch_and_add(&S->det_bad, 1); lock(); S->harness_seed = seed; snprintf(S->harness_scen, 32, "%s", sc->name); unlock(); }
        }
      }
      _exit(0);
    }
    kids.push_back(p);
  }
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
  searched = wall() - t0;
  if (S->nhits) {
    static Stats *scratch = (Stats *)shm(sizeof(Stats)); g_slot = slots[0]; g_stats = scratch; // reproducing and minimising does not count as search
    vector<Hit> hits(S->hits, S->hits + S->nhits); std::sort(hits.begin(), hits.end(), [](const Hit &a, const Hit &b) { return a.idx < b.idx; });
    for (Hit &h : hits) {
      const Scenario *sc = find_scen(ps[h.scen]->scen);
      Result a = run_one(sc, h.seed, nullptr, true), b = run_one(sc, h.seed, nullptr, false);
      if (a.o != OUT_VIOLATION || a.cls != h.cls || b.hash != a.hash || b.cls != a.cls) { fprintf(stderr, "seed %llu of %s did not reproduce: %s / %s / %s\n", (unsigned long long)h.seed, sc->name, h.cls, a.cls.c_str(), b.cls.c_str()); rc = 2; continue; }
      printf("violation of %s found in scenario %s, run seed %llu: %s: %s\n", o.prop.c_str(), sc->name, (unsigned long long)h.seed, h.cls, h.msg); fflush(stdout);
      mkdir(o.repdir.c_str(), 0777);
      replay_path = strf("%s/%s-%s-%016llx.replay", o.repdir.c_str(), o.prop.c_str(), sc->name, (unsigned long long)h.seed);
      string tr = replay_path + ".trace";
      Minimiser m{sc, h.seed, a.cls, a.t, a, wall() + (o.tier == "thorough" ? 60 : 25)}; u32 w0 = tape_weight(a.t);
      m.bestr = a; m.run();
      auto emit = [&](const Tapes &t) -> bool {
        Result x = run_one(sc, h.seed, &t, false), y = run_one(sc, h.seed, &t, false, tr.c_str());
        if (x.o != OUT_VIOLATION || x.cls != a.cls || y.hash != x.hash) return false;
        write_replay(replay_path, o.prop, sc, h.seed, o.seed, x, t, tr); unlink(tr.c_str());
        string cmd = "'" + o.exe + "' --replay '" + replay_path + "' >/dev/null 2>&1"; int st = system(cmd.c_str());
        return WIFEXITED(st) && WEXITSTATUS(st) == 1;
      };
      bool okr = emit(m.best); if (!okr) okr = emit(a.t);
      if (!okr) { fprintf(stderr, "violation found by seed %llu could not be replayed from its file in a fresh process\n", (unsigned long long)h.seed); rc = 2; continue; }
      printf("minimised from %u to %u recorded choices in %d attempts; replay confirmed in a fresh process\n", w0, tape_weight(m.best), m.tries);
      violations = 1; rc = 1; break;
    }
  }
  if (violations || !S->nhits || wall() >= dl) break;
  S->nhits = 0; S->stop = 0;
  }
  // merge
  Stats T; memset(&T, 0, sizeof T); std::map<string, Counter> cn; std::set<u64> ih, hh; u64 nontriv = 0;
  for (int j = 0; j < J; j++) {
    Stats *s = stats[j]; T.runs += s->runs; T.ok += s->ok; T.viol += s->viol; T.discard += s->discard; T.foreign += s->foreign; T.harness += s->harness; T.steps += s->steps; T.switches += s->switches; T.sim_ns += s->sim_ns; T.syscalls += s->syscalls;
    if (s->foreign) { memcpy(T.foreign_cls, s->foreign_cls, 128); T.foreign_seed = s->foreign_seed; memcpy(T.foreign_scen, s->foreign_scen, 32); memcpy(T.foreign_msg, s->foreign_msg, 512); }
    for (auto &c : s->c) if (c.name) { Counter &m = cn[c.name]; m.name = c.name; m.kind = c.kind; m.n += c.n; m.runs += c.runs; }
    for (u32 i = 0; i < s->nih; i++) { ih.insert(ihs[j][2 * i]); u64 h = ihs[j][2 * i + 1]; if (hh.insert(h).second && (h & 1)) nontriv++; }
  }
  // evidence
  if (!o.evidence.empty()) {
    FILE *f = fopen(o.evidence.c_str(), "w"); if (!f) { perror(o.evidence.c_str()); return 3; }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"wall_s\": %.1f,\n \"violations\": %d,\n", o.prop.c_str(), o.tier.c_str(), (unsigned long long)o.seed, wall() - t0 + o.build_s, violations);
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)T.runs, (unsigned long long)nontriv);
    fprintf(f, "  \"rule\": \"%s\",\n", jesc(string("One case is one simulated execution chosen entirely by one seed (") + prop_rule(o.prop) + "). Distinct: different hash over all scheduling decisions, system calls and transferred bytes. Non-trivial: the run reached its final oracle and had more than 4 context switches or at least one injected fault.").c_str());
    fprintf(f, "  \"samples\": [");
    bool first = true;
    for (u64 idx = 0; idx < 3 && idx < T.runs; idx++) { int si = scen_for(idx); fprintf(f, "%s\n   {\"scenario\": \"%s\", \"run_seed\": %llu, \"run_index\": %llu, \"rerun\": \"%s --run %s --prop %s --seed %llu --trace\"}", first ? "" : ",", ps[si]->scen, (unsigned long long)run_seed(o, idx), (unsigned long long)idx, ".build/simfstrm", ps[si]->scen, o.prop.c_str(), (unsigned long long)run_seed(o, idx)); first = false; }
    fprintf(f, "\n  ],\n");
    fprintf(f, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.1f,\n  \"scheduler_steps\": %llu,\n  \"context_switches\": %llu,\n  \"simulated_system_calls\": %llu,\n", T.runs / searched * 3600, T.runs / searched * 3600, T.sim_ns / 1e9, (unsigned long long)T.steps, (unsigned long long)T.switches, (unsigned long long)T.syscalls);
    fprintf(f, "  \"distinct_interleavings\": %zu,\n  \"interleaving_measure\": \"number of different sequences of (thread switched to, step counter mod 1024 at the switch)\",\n  \"distinct_executions\": %zu,\n", ih.size(), hh.size());
    fprintf(f, "  \"runs_by_scenario\": {"); for (size_t i = 0; i < ps.size(); i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", ps[i]->scen, (unsigned long long)S->scen_runs[i]); fprintf(f, "},\n");
    fprintf(f, "  \"runs_passed\": %llu,\n  \"runs_discarded\": %llu,\n  \"runs_stopped_by_another_property\": %llu,\n  \"determinism_reruns\": %llu,\n  \"determinism_mismatches\": %llu,\n", (unsigned long long)T.ok, (unsigned long long)T.discard, (unsigned long long)T.foreign, (unsigned long long)S->det_checked, (unsigned long long)S->det_bad);
    for (int k = 1; k <= 2; k++) {
      fprintf(f, "  \"%s\": {", k == 1 ? "faults_injected" : "situations_reached"); first = true;
      for (auto &c : cn) if (c.second.kind == k) { fprintf(f, "%s\n   \"%s\": {\"times\": %llu, \"in_runs\": %llu}", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second.n, (unsigned long long)c.second.runs); first = false; }
      fprintf(f, "\n  },\n");
    }
    fprintf(f, "  \"real_code\": [\"fstrm/*.c\", \"libmy/my_queue_mb.c\", \"libmy/my_queue_mutex.c\", \"src/fstrm_capture.c, src/fstrm_replay.c, src/fstrm_dump.c with libmy/argv.c (main() run as a simulated process)\", \"libevent_core (poll backend)\", \"glibc stdio buffering, strftime, string functions\"],\n");
    fprintf(f, "  \"stubbed\": [\"pthreads and scheduler\", \"clocks and timers\", \"sockets, connections and network\", \"file system and disk\", \"poll/select, pipes, signals, process exit and kill\", \"malloc/free\", \"remote peers (scripted fibers speaking the wire format through an independent encoder/parser)\"]\n },\n");
    fprintf(f, " \"assumptions\": [\"sequentially consistent memory between the compiler's instrumented accesses (x86-64)\", \"the simulated kernel's socket, file and signal semantics match Linux\", \"single-step atomicity of glibc string/stdio internals\"]\n}\n");
    fclose(f);
  }
  printf("%s: %llu runs in %.1f s (%llu passed, %llu discarded, %llu ended by another property's oracle), %.0f simulated s, %zu distinct interleavings\n", o.prop.c_str(), (unsigned long long)T.runs, searched, (unsigned long long)T.ok, (unsigned long long)T.discard, (unsigned long long)T.foreign, T.sim_ns / 1e9, ih.size());
  if (T.foreign) printf("note: other property violated: %s in %s seed %llu: %s\n", T.foreign_cls, T.foreign_scen, (unsigned long long)T.foreign_seed, T.foreign_msg);
  if (S->det_bad) printf("note: %llu of %llu re-runs differed (%s seed %llu)\n", (unsigned long long)S->det_bad, (unsigned long long)S->det_checked, S->harness_scen, (unsigned long long)S->harness_seed);
  if (T.harness) printf("note: simulator could not handle %llu runs: %s (%s seed %llu)\n", (unsigned long long)T.harness, S->harness_msg, S->harness_scen, (unsigned long long)S->harness_seed);
  for (size_t k = 0; k < known.size() && k < 64; k++) if (known[k].prop == o.prop) printf("KNOWN-FINDING: property=%s %s (%llu runs)\n", o.prop.c_str(), known[k].text.c_str(), (unsigned long long)S->known[k]);
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), replay_path.c_str());
  if (rc == 0 && T.ok + T.foreign + T.viol == 0) { fprintf(stderr, "no run reached its oracle\n"); rc = 2; }
  return rc;
}
static int sweep(const string &scn, u64 seed, u64 runs, int J, const string &prop) {
  g_prop = prop; const Scenario *sc = find_scen(scn); if (!sc) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 3; }
  S = (Shared *)shm(sizeof(Shared)); double t0 = wall();
  struct Row { char key[160]; u64 n, seed; char msg[400]; }; Row *rows = (Row *)shm(sizeof(Row) * 256); volatile u32 *nrows = (u32 *)shm(4096);
  u64 *mx = (u64 *)shm(4096); vector<Stats *> stats;
  for (int j = 0; j < J; j++) { stats.push_back((Stats *)shm(sizeof(Stats))); Slot *sl = (Slot *)shm(sizeof(Slot)); if (fork() == 0) {
    g_slot = sl; g_stats = stats[j];
    for (;;) { u64 i = __sync_fetch_and_add(&S->next, 1); if (i >= runs) break; u64 sd = mix(seed * 1000003 + i); Result r = run_one(sc, sd, nullptr, false); g_stats->runs++;
      lock(); if (r.steps > mx[0]) { mx[0] = r.steps; mx[1] = sd; } if (r.sim_ns > mx[2]) { mx[2] = r.sim_ns; mx[3] = sd; } mx[4] += r.steps;
      if (r.o == OUT_OK) S->scen_runs[0]++; else { static const char *on[] = {"none", "ok", "VIOL", "discard", "HARNESS", "foreign"}; string key = strf("%s %s [%s]", on[r.o], r.o == OUT_DISCARD || r.o == OUT_HARNESS ? r.msg.substr(0, 60).c_str() : r.cls.c_str(), r.tags.c_str()); u32 k = 0; while (k < *nrows && key != rows[k].key) k++; if (k == *nrows && k < 255) { snprintf(rows[k].key, 160, "%s", key.c_str()); rows[k].seed = sd; snprintf(rows[k].msg, 400, "%s", r.msg.c_str()); *nrows = k + 1; } rows[k].n++; }
      unlock(); }
    _exit(0); } }
  while (wait(nullptr) > 0) {}
  double t = wall() - t0; printf("%s: %llu runs %.1f s (%.0f/s), ok %llu, max steps %llu (seed %llu), mean %llu, max sim %.1f s (seed %llu)\n", scn.c_str(), (unsigned long long)runs, t, runs / t, (unsigned long long)S->scen_runs[0], (unsigned long long)mx[0], (unsigned long long)mx[1], (unsigned long long)(mx[4] / runs), mx[2] / 1e9, (unsigned long long)mx[3]);
  for (u32 k = 0; k < *nrows; k++) printf("  %6llu  %s  seed %llu\n          %s\n", (unsigned long long)rows[k].n, rows[k].key, (unsigned long long)rows[k].seed, rows[k].msg);
  if (getenv("PROBES")) { std::map<string, Counter> cn; for (auto s : stats) for (auto &c : s->c) if (c.name) { Counter &m = cn[c.name]; m.kind = c.kind; m.n += c.n; m.runs += c.runs; } for (auto &c : cn) printf("    %s %-60s %llu in %llu runs\n", c.second.kind == 1 ? "F" : "P", c.first.c_str(), (unsigned long long)c.second.n, (unsigned long long)c.second.runs); }
  return 0;
}
int main(int argc, char **argv) {
  if (!getenv("FSTRM_SIM_NOASLR")) { setenv("FSTRM_SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  Opt o; string mode, arg; bool trace = false; char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1); o.exe = n > 0 ? string(buf, n) : argv[0];
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto v = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--replay") { mode = "replay"; arg = v(); } else if (a == "--run") { mode = "run"; arg = v(); } else if (a == "--sweep") { mode = "sweep"; arg = v(); } else if (a == "--search") mode = "search";
    else if (a == "--prop") o.prop = v(); else if (a == "--tier") o.tier = v(); else if (a == "--seed") o.seed = strtoull(v(), 0, 10); else if (a == "--runs") o.runs = strtoull(v(), 0, 10); else if (a == "--wall") o.wall_s = atof(v()); else if (a == "--jobs") o.jobs = atoi(v());
    else if (a == "--evidence") o.evidence = v(); else if (a == "--known") o.known = v(); else if (a == "--replays") o.repdir = v(); else if (a == "--trace") trace = true; else if (a == "--build-s") o.build_s = atof(v());
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  core_global_init();
  g_slot = (Slot *)shm(sizeof(Slot)); g_stats = (Stats *)shm(sizeof(Stats));
  if (mode == "replay") return do_replay(arg.c_str(), trace);
  if (mode == "search") return search(o);
  if (mode == "sweep") return sweep(arg, o.seed, o.runs ? o.runs : 1000, o.jobs, o.prop);
  if (mode == "run") { const Scenario *sc = find_scen(arg); if (!sc) return 3; g_prop = o.prop; Result r = run_one(sc, o.seed, nullptr, false, trace ? "-" : nullptr); printf("outcome %d %s [%s] %s\nhash %016llx steps %llu sim %.3f s\n", r.o, r.cls.c_str(), r.tags.c_str(), r.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps, r.sim_ns / 1e9); return r.o == OUT_OK ? 0 : 1; }
  fprintf(stderr, "usage: simfstrm --search --prop ID ... | --replay FILE | --run SCENARIO --seed N | --sweep SCENARIO\n"); return 3;
}
