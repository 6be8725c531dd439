// Command line driver: seeded search, single runs, replay and minimisation.

static void jstr(FILE *o, const char *s) {
  fputc('"', o);
  for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c == '\n') fputs("\\n", o); else if (c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); }
  fputc('"', o);
}
static sim::Scenario *find_scen(const char *n) { for (auto *s = sim::g_scenarios; s; s = s->next) if (!strcmp(s->name, n)) return s; return nullptr; }
static bool has_prop(sim::Scenario *s, const char *p) {
  size_t n = strlen(p); const char *q = s->props;
  while (*q) { const char *e = strchr(q, ','); size_t l = e ? (size_t)(e - q) : strlen(q); if (l == n && !strncmp(q, p, n)) return true; if (!e) break; q = e + 1; }
  return false;
}
static u64 run_seed(u64 seed, u64 index) { u64 s = seed * 0x9E3779B97F4A7C15ull + index; splitmix(s); return splitmix(s); }

enum { MAXW = 64, MAXS = 256 };
struct WStat {
  volatile u64 cur_index; volatile u64 beat; volatile int done;
  u64 runs, steps, switches, preempt, nontrivial, distinct, recheck, mismatches, mismatch_index, hash_sum; i64 sim_ns; u64 threads;
  u64 faults[sim::F_COUNT]; u64 frun[sim::F_COUNT];
  struct { char name[48]; u64 n; } probes[64]; int nprobes;
  u64 per_scen[MAXS]; u64 strat[4];
  Result res;
};
struct Shared {
  volatile u64 first_bad; volatile int stop;
  WStat w[MAXW];
  Result res; Choice ch[MAXCHOICE]; u32 nch; // single executions
};
static Shared *sh; static u64 *seen; static const u32 SEEN = 1u << 23;

static bool note_seen(u64 h) {
  if (!h) h = 1;
  u32 i = (u32)(h >> 40) & (SEEN - 1);
  for (int k = 0; k < 64; ++k) {
    u64 *p = &seen[(i + k) & (SEEN - 1)];
    u64 v = __atomic_load_n(p, __ATOMIC_RELAXED);
    if (v == h) return false;
    if (v == 0) { u64 z = 0; if (__atomic_compare_exchange_n(p, &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (z == h) return false; }
  }
  return false; // table crowded: undercount
}

// run in a child process, so that crashes and wild behaviour stay there
static void exec_child(const RunCfg &c, double limit) {
  memset(&sh->res, 0, sizeof sh->res);
  sh->nch = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    G.res = &sh->res; G.crash_ch = sh->ch; G.crash_nch = &sh->nch;
    run_one(c, &sh->res);
    memcpy(sh->ch, G.ch, sizeof(Choice) * G.nch); sh->nch = G.nch;
    if (G.verbose && G.trace) { sh->res.run_index = G.trace_len; }
    _exit(0);
  }
  double t0 = real_now(); int st = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    double dt = real_now() - t0;
    if (dt > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); sh->res.status = 2; snprintf(sh->res.cls, 64, "stuck"); snprintf(sh->res.msg, 200, "run did not finish within %.0f s of real time", limit); break; }
    struct timespec ts = {0, dt < 0.01 ? 50000 : 1000000}; rawsys(SYS_nanosleep, (long)&ts, 0);
  }
  if (sh->res.status == 0) { sh->res.status = 2; snprintf(sh->res.cls, 64, "crash"); snprintf(sh->res.msg, 200, "process died (status 0x%x)", st); }
}

static void worker(int w, int jobs, u64 seed, u64 from, u64 to, sim::Scenario **tab, int ntab, double until, int recheck_every) {
  WStat &S = sh->w[w];
  for (u64 i = from + w; i < to; i += jobs) {
    if (i > sh->first_bad) break;
    if (real_now() > until) break;
    S.cur_index = i; S.beat++;
    sim::Scenario *sc = tab[i % ntab];
    u32 f0[sim::F_COUNT]; memset(G.faults, 0, sizeof G.faults); (void)f0;
    G.nprobes = 0;
    RunCfg c = {sc, run_seed(seed, i), 0, nullptr, 0, 0, 0};
    G.res = &S.res; S.res.run_index = i; S.res.status = 0;
    Result r; memset(&r, 0, sizeof r);
    run_one(c, &r);
    S.runs++; S.hash_sum += G.hash; S.steps += G.steps; S.switches += G.switches; S.preempt += G.preempt; S.sim_ns += G.mono - G.mono0; S.threads += G.nf; S.strat[G.strat]++;
    for (int k = 0; k < sim::F_COUNT; ++k) { S.faults[k] += G.faults[k]; if (G.faults[k]) S.frun[k]++; }
    for (int k = 0; k < G.nprobes; ++k) {
      int q = 0; for (; q < S.nprobes; ++q) if (!strncmp(S.probes[q].name, G.probes[k], 47)) break;
      if (q == S.nprobes && q < 64) { snprintf(S.probes[q].name, 48, "%s", G.probes[k]); S.nprobes++; }
      if (q < 64) S.probes[q].n += G.probe_n[k];
    }
    int si = 0; for (auto *s = sim::g_scenarios; s && s != sc; s = s->next) si++;
    if (si < MAXS) S.per_scen[si]++;
    u32 nfault = 0; for (int k = 0; k < sim::F_COUNT; ++k) nfault += G.faults[k];
    bool nontriv = (G.nf > 1 && G.preempt > 0) || nfault;
    if (nontriv) { S.nontrivial++; if (note_seen(G.hash)) S.distinct++; }
    if (G.status == 2) {
      S.res = r; S.res.run_index = i;
      u64 fb = sh->first_bad;
      while (i < fb && !__atomic_compare_exchange_n(&sh->first_bad, &fb, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
      S.done = 1;
      _exit(0);
    }
    if (recheck_every && S.runs % recheck_every == 1 % recheck_every) {
      u64 h = G.hash;
      run_one(c, nullptr);
      S.recheck++;
      if (G.hash != h) { S.mismatches++; S.mismatch_index = i; }
    }
  }
  S.res.status = 0;
  S.done = 1;
  _exit(0);
}

static void print_choices(FILE *o, const Choice *c, u32 n) { // "v" or "v*k", trailing zeros dropped
  while (n && c[n - 1].v == 0) --n;
  fputc('"', o);
  for (u32 i = 0; i < n;) { u32 k = 1; while (i + k < n && c[i + k].v == c[i].v) ++k; if (i) fputc(' ', o); if (k > 1) fprintf(o, "%u*%u", c[i].v, k); else fprintf(o, "%u", c[i].v); i += k; }
  fputc('"', o);
}
static u32 parse_choices(const char *s, Choice *c) {
  u32 n = 0;
  while (*s) {
    while (*s == ' ' || *s == '\n' || *s == '"') ++s;
    if (!*s) break;
    char *e; unsigned v = strtoul(s, &e, 10); unsigned k = 1;
    if (e == s) break;
    if (*e == '*') k = strtoul(e + 1, &e, 10);
    while (k-- && n < MAXCHOICE) { c[n].v = v; c[n].n = 0; c[n].kind = 0; n++; }
    s = e;
  }
  return n;
}
static void print_result(FILE *o, sim::Scenario *sc, const char *key = "result") {
  Result &r = sh->res;
  fprintf(o, "\"%s\":{\"scenario\":\"%s\",\"status\":\"%s\",\"class\":", key, sc->name, r.status == 1 ? "ok" : r.status == 3 ? "terminated-as-expected" : "violation");
  jstr(o, r.cls); fprintf(o, ",\"message\":"); jstr(o, r.msg);
  fprintf(o, ",\"hash\":\"%016llx\",\"steps\":%u,\"switches\":%u,\"threads\":%u,\"sim_ns\":%lld,\"nchoices\":%u}", (unsigned long long)r.hash, r.steps, r.switches, r.fibers, (long long)r.sim_ns, r.nchoice);
}

static const char *arg(int argc, char **argv, const char *name, const char *def) {
  for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}

static int do_search(int argc, char **argv) {
  u64 seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
  u64 runs = strtoull(arg(argc, argv, "--runs", "10000"), nullptr, 10);
  u64 from = strtoull(arg(argc, argv, "--from", "0"), nullptr, 10);
  double secs = atof(arg(argc, argv, "--secs", "60"));
  int jobs = atoi(arg(argc, argv, "--jobs", "8")); if (jobs > MAXW) jobs = MAXW; if (jobs < 1) jobs = 1;
  int recheck = atoi(arg(argc, argv, "--recheck", "64"));
  const char *prop = arg(argc, argv, "--prop", ""); const char *only = arg(argc, argv, "--scen", "");
  static sim::Scenario *tab[4096]; int n = 0;
  // interleave so that every scenario gets runs proportional to its weight
  unsigned maxw = 0; for (auto *s = sim::g_scenarios; s; s = s->next) if (s->weight > maxw) maxw = s->weight;
  for (unsigned r = 0; r < maxw; ++r)
    for (auto *s = sim::g_scenarios; s; s = s->next) {
      if (s->weight <= r) continue;
      if (*prop && !has_prop(s, prop)) continue;
      if (*only && strcmp(s->name, only)) continue;
      if (n < 4096) tab[n++] = s;
    }
  if (!n) { printf("{\"error\":\"no scenario\"}\n"); return 2; }
  take_snapshot();
  double t0 = real_now();
  sh->first_bad = ~0ull;
  pid_t pid[MAXW];
  for (int w = 0; w < jobs; ++w) { pid[w] = fork(); if (pid[w] == 0) worker(w, jobs, seed, from, from + runs, tab, n, t0 + secs, recheck); }
  u64 beat[MAXW]; double last[MAXW]; bool alive[MAXW];
  for (int w = 0; w < jobs; ++w) { beat[w] = 0; last[w] = real_now(); alive[w] = true; }
  int left = jobs;
  while (left) {
    struct timespec ts = {0, 5000000}; rawsys(SYS_nanosleep, (long)&ts, 0);
    for (int w = 0; w < jobs; ++w) {
      if (!alive[w]) continue;
      WStat &S = sh->w[w]; int st;
      if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
        alive[w] = false; left--;
        if (!S.done) { // died inside a run
          S.res.run_index = S.cur_index;
          if (S.res.status != 2) { S.res.status = 2; snprintf(S.res.cls, 64, "crash"); snprintf(S.res.msg, 200, "process died (status 0x%x)", st); }
          if (S.cur_index < sh->first_bad) sh->first_bad = S.cur_index;
        }
        continue;
      }
      if (S.beat != beat[w]) { beat[w] = S.beat; last[w] = real_now(); }
      else if (real_now() - last[w] > 20) { kill(pid[w], SIGKILL); S.res.status = 2; snprintf(S.res.cls, 64, "stuck"); snprintf(S.res.msg, 200, "run did not finish within 20 s of real time"); last[w] = real_now() + 1e6; }
    }
  }
  double dt = real_now() - t0;
  WStat T; memset((void *)&T, 0, sizeof T);
  for (int w = 0; w < jobs; ++w) {
    WStat &S = sh->w[w];
    T.runs += S.runs; T.steps += S.steps; T.switches += S.switches; T.preempt += S.preempt; T.nontrivial += S.nontrivial; T.distinct += S.distinct; T.recheck += S.recheck; T.mismatches += S.mismatches; T.hash_sum += S.hash_sum; T.sim_ns += S.sim_ns; T.threads += S.threads;
    if (S.mismatches) T.mismatch_index = S.mismatch_index;
    for (int k = 0; k < sim::F_COUNT; ++k) { T.faults[k] += S.faults[k]; T.frun[k] += S.frun[k]; }
    for (int k = 0; k < MAXS; ++k) T.per_scen[k] += S.per_scen[k];
    for (int k = 0; k < 4; ++k) T.strat[k] += S.strat[k];
    for (int k = 0; k < S.nprobes; ++k) {
      int q = 0; for (; q < T.nprobes; ++q) if (!strcmp(T.probes[q].name, S.probes[k].name)) break;
      if (q == T.nprobes && q < 64) { memcpy(T.probes[q].name, S.probes[k].name, 48); T.nprobes++; }
      if (q < 64) T.probes[q].n += S.probes[k].n;
    }
  }
  printf("{\"seed\":%llu,\"runs\":%llu,\"wall_s\":%.3f,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"rechecked\":%llu,\"mismatches\":%llu,\"mismatch_index\":%llu,\"sim_ns\":%lld,\"threads\":%llu,\"jobs\":%d",
         (unsigned long long)seed, (unsigned long long)T.runs, dt, (unsigned long long)T.steps, (unsigned long long)T.switches, (unsigned long long)T.preempt, (unsigned long long)T.nontrivial, (unsigned long long)T.distinct, (unsigned long long)T.recheck, (unsigned long long)T.mismatches, (unsigned long long)T.mismatch_index, (long long)T.sim_ns, (unsigned long long)T.threads, jobs);
  printf(",\"hash_sum\":\"%016llx\",\"faults\":{", (unsigned long long)T.hash_sum); bool c = false;
  for (int k = 0; k < sim::F_COUNT; ++k) if (T.faults[k]) { printf("%s\"%s\":{\"injected\":%llu,\"runs\":%llu}", c ? "," : "", sim::fault_names[k], (unsigned long long)T.faults[k], (unsigned long long)T.frun[k]); c = true; }
  printf("},\"probes\":{");
  for (int k = 0; k < T.nprobes; ++k) { printf("%s", k ? "," : ""); jstr(stdout, T.probes[k].name); printf(":%llu", (unsigned long long)T.probes[k].n); }
  printf("},\"strategies\":{\"random_walk\":%llu,\"pct\":%llu,\"stall\":%llu,\"few_preemptions\":%llu}", (unsigned long long)T.strat[0], (unsigned long long)T.strat[1], (unsigned long long)T.strat[2], (unsigned long long)T.strat[3]);
  printf(",\"scenarios\":{"); c = false; int si = 0;
  for (auto *s = sim::g_scenarios; s; s = s->next, ++si) if (si < MAXS && T.per_scen[si]) { printf("%s\"%s\":%llu", c ? "," : "", s->name, (unsigned long long)T.per_scen[si]); c = true; }
  printf("}");
  if (sh->first_bad != ~0ull) {
    for (int w = 0; w < jobs; ++w) if (sh->w[w].res.status == 2 && sh->w[w].res.run_index == sh->first_bad) {
      sh->res = sh->w[w].res; sim::Scenario *sc = tab[sh->first_bad % n];
      printf(",\"violation\":{\"index\":%llu,\"run_seed\":%llu,", (unsigned long long)sh->first_bad, (unsigned long long)run_seed(seed, sh->first_bad)); print_result(stdout, sc); printf("}");
      break;
    }
  }
  printf("}\n");
  return 0;
}

static void setup_trace() { G.trace_cap = 4u << 20; G.trace = (char *)mmap(nullptr, G.trace_cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static bool same_violation(const char *cls) { return sh->res.status == 2 && !strcmp(sh->res.cls, cls); }

// run by (scenario, seed) or by a list of choices
static int do_run(int argc, char **argv, bool replay) {
  sim::Scenario *sc = find_scen(arg(argc, argv, "--scen", ""));
  if (!sc) { printf("{\"error\":\"unknown scenario\"}\n"); return 2; }
  static Choice in[MAXCHOICE]; u32 nin = 0;
  if (replay) {
    const char *f = arg(argc, argv, "--choices-file", ""); static char buf[1 << 20]; FILE *h = fopen(f, "r"); if (!h) return 2; size_t n = fread(buf, 1, sizeof buf - 1, h); buf[n] = 0; fclose(h);
    nin = parse_choices(buf, in);
  }
  u64 seed = strtoull(arg(argc, argv, "--run-seed", "1"), nullptr, 10);
  bool v = atoi(arg(argc, argv, "--trace", "0"));
  if (v) setup_trace();
  Choice *inp = (Choice *)mmap(nullptr, sizeof in, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memcpy(inp, in, sizeof in);
  take_snapshot();
  RunCfg c = {sc, seed, replay, inp, nin, v, 0};
  exec_child(c, 30);
  printf("{"); print_result(stdout, sc);
  printf(",\"choices\":"); print_choices(stdout, sh->ch, sh->nch);
  if (v) { printf(",\"trace\":"); jstr(stdout, G.trace); }
  printf("}\n");
  return sh->res.status == 2 ? 1 : 0;
}

static int do_minimise(int argc, char **argv) {
  sim::Scenario *sc = find_scen(arg(argc, argv, "--scen", ""));
  if (!sc) return 2;
  u64 seed = strtoull(arg(argc, argv, "--run-seed", "1"), nullptr, 10);
  double secs = atof(arg(argc, argv, "--secs", "15")); int budget = atoi(arg(argc, argv, "--budget", "3000"));
  typedef Choice Buf[MAXCHOICE];
  Choice *best = (Choice *)mmap(nullptr, sizeof(Buf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Choice *cand = (Choice *)mmap(nullptr, sizeof(Buf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  setup_trace();
  take_snapshot();
  RunCfg c = {sc, seed, 0, nullptr, 0, 0, 0};
  exec_child(c, 30);
  if (sh->res.status != 2) { printf("{\"error\":\"does not reproduce\"}\n"); return 3; }
  char cls[64]; memcpy(cls, sh->res.cls, 64);
  u64 h0 = sh->res.hash; bool crash = sh->nch == 0; u32 orig = sh->nch;
  exec_child(c, 30);
  if (!same_violation(cls) || (!crash && sh->res.hash != h0)) { printf("{\"error\":\"not deterministic\"}\n"); return 3; }
  if (crash) { // a process that died cannot hand over its choices: the seed is the replay
    c.verbose = 1; exec_child(c, 30);
    printf("{"); print_result(stdout, sc); printf(",\"by_seed\":%llu,\"choices\":\"\",\"trace\":", (unsigned long long)seed); jstr(stdout, G.trace); printf("}\n");
    return 0;
  }
  u32 n = sh->nch; memcpy(best, sh->ch, sizeof(Choice) * n);
  int tries = 0; double t0 = real_now();
  auto trim = [&] { while (n && best[n - 1].v == 0) --n; };
  auto attempt = [&](u32 m) -> bool {
    if (tries >= budget || real_now() - t0 > secs) return false;
    ++tries;
    RunCfg r = {sc, seed, 1, cand, m, 0, 0};
    exec_child(r, 10);
    if (!same_violation(cls)) return false;
    // take the choices as executed (normalised), provided they are not longer
    n = sh->nch; memcpy(best, sh->ch, sizeof(Choice) * n); trim();
    return true;
  };
  trim();
  bool progress = true;
  while (progress && tries < budget && real_now() - t0 < secs) {
    progress = false;
    for (u32 k = 0; k < n;) { // truncate (binary)
      u32 keep = k + (n - k) / 2; u32 old = n;
      memcpy(cand, best, sizeof(Choice) * keep);
      if (attempt(keep) && n < old) { progress = true; } else { if (keep == k) break; k = keep; }
      if (tries >= budget) break;
    }
    for (u32 w = n / 2; w >= 1; w /= 2) { // delete blocks
      for (u32 i = 0; i + w <= n && tries < budget;) {
        u32 old = n; memcpy(cand, best, sizeof(Choice) * i); memcpy(cand + i, best + i + w, sizeof(Choice) * (n - i - w));
        if (attempt(old - w) && n < old) progress = true; else i += w;
        if (real_now() - t0 > secs) break;
      }
      if (w == 1) break;
    }
    for (u32 w = n / 2; w >= 1; w /= 2) { // zero blocks
      for (u32 i = 0; i < n && tries < budget; i += w) {
        bool nz = false; for (u32 k = i; k < i + w && k < n; ++k) nz |= best[k].v != 0;
        if (!nz) continue;
        u32 old = n; u64 sum0 = 0; for (u32 k = 0; k < n; ++k) sum0 += best[k].v;
        memcpy(cand, best, sizeof(Choice) * n); for (u32 k = i; k < i + w && k < n; ++k) cand[k].v = 0;
        Choice *sv = (Choice *)malloc(sizeof(Choice) * n); memcpy(sv, best, sizeof(Choice) * n);
        if (attempt(old)) { u64 s1 = 0; for (u32 k = 0; k < n; ++k) s1 += best[k].v; if (n > old || (n == old && s1 >= sum0)) { memcpy(best, sv, sizeof(Choice) * old); n = old; } else progress = true; }
        free(sv);
        if (real_now() - t0 > secs) break;
      }
      if (w == 1) break;
    }
    for (u32 i = 0; i < n && tries < budget; ++i) if (best[i].v > 1) { // lower single values
      u32 old = n; Choice *sv = (Choice *)malloc(sizeof(Choice) * n); memcpy(sv, best, sizeof(Choice) * n);
      memcpy(cand, best, sizeof(Choice) * n); cand[i].v = 1;
      if (attempt(old)) { if (n > old) { memcpy(best, sv, sizeof(Choice) * old); n = old; } else progress = true; }
      free(sv);
    }
  }
  memcpy(cand, best, sizeof(Choice) * n);
  RunCfg r = {sc, seed, 1, cand, n, 1, 0};
  exec_child(r, 30);
  printf("{"); print_result(stdout, sc);
  printf(",\"original_choices\":%u,\"minimised_choices\":%u,\"attempts\":%d,\"choices\":", orig, n, tries); print_choices(stdout, cand, n);
  printf(",\"trace\":"); jstr(stdout, G.trace); printf("}\n");
  return same_violation(cls) ? 0 : 3;
}

int main(int argc, char **argv) {
  init_runtime();
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  seen = (u64 *)mmap(nullptr, SEEN * 8ull, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const char *m = argc > 1 ? argv[1] : "list";
  int rc = 2;
  if (!strcmp(m, "list")) { for (auto *s = sim::g_scenarios; s; s = s->next) printf("%s %s %u\n", s->name, s->props, s->weight); rc = 0; }
  else if (!strcmp(m, "search")) rc = do_search(argc, argv);
  else if (!strcmp(m, "run")) rc = do_run(argc, argv, false);
  else if (!strcmp(m, "replay")) rc = do_run(argc, argv, true);
  else if (!strcmp(m, "minimise")) rc = do_minimise(argc, argv);
  fflush(stdout);
  _exit(rc);
}
