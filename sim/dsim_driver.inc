// Search driver: parallel seeded exploration, confirmation, minimisation, replay files.

constexpr int NHASH = 1 << 18;
constexpr int MAXSCN = 64;
struct VRec
{
  u64  seed;
  int  scn;
  int  known;  // index+1
  char cls[64];
  char msg[1024];
  u64  hash;
};
struct Worker
{
  u64     runs, steps, vtime, switches, accesses, stale, nontrivial, faultfree, selfchecks, fairtail;
  u64     strategy[2];
  u64     scn_runs[MAXSCN];
  u64     max_steps;
  u64     known_hits[64];
  int     done;
  int     nondet;
  u64     nondet_seed;
  int     nviol;
  VRec    viol[4];
  Counter counters[NCOUNTERS];
  u64     nhash;
  u64     hashes[NHASH];
};
struct Known
{
  char scn[64], cls[64], text[256], what[400];
};
struct Candidate
{
  int       hit;
  Violation v;
  u32       n[DS_NSTREAMS];
  Decision  d[DS_NSTREAMS][MAXDEC];
};

static Known known[64];
static int   nknown;
static void* host_shared(size_t n)
{
  void* p = (void*) raw_syscall(SYS_mmap, 0, (long) n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                -1, 0);
  if ((long) p < 0 && (long) p > -4096)
    _exit(3);
  return p;
}
static double wall()
{
  struct timespec ts;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long) &ts);
  return (double) ts.tv_sec + (double) ts.tv_nsec * 1e-9;
}

// --- symbol table of the executable, for signatures ---------------------------
struct Sym
{
  u64         a, n;
  const char* name;
};
static Sym* syms;
static int  nsyms;
static void load_syms()
{
  int fd = (int) raw_syscall(SYS_open, (long) "/proc/self/exe", O_RDONLY);
  if (fd < 0)
    return;
  off_t sz = lseek(fd, 0, SEEK_END);
  char* m  = (char*) raw_syscall(SYS_mmap, 0, sz, PROT_READ, MAP_PRIVATE, fd, 0);
  raw_syscall(SYS_close, fd);
  if ((long) m < 0 && (long) m > -4096)
    return;
  ElfW(Ehdr)* eh = (ElfW(Ehdr)*) m;
  ElfW(Shdr)* sh = (ElfW(Shdr)*) (m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i)
    if (sh[i].sh_type == SHT_SYMTAB)
    {
      ElfW(Sym)* s   = (ElfW(Sym)*) (m + sh[i].sh_offset);
      int        n   = (int) (sh[i].sh_size / sizeof *s);
      const char* st = m + sh[sh[i].sh_link].sh_offset;
      syms           = (Sym*) host_mmap(sizeof(Sym) * (size_t) (n + 1));
      for (int k = 0; k < n; ++k)
        if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_value)
          syms[nsyms++] = {s[k].st_value, s[k].st_size, st + s[k].st_name};
    }
}
static const char* sym_at(u64 pc)
{
  for (int i = 0; i < nsyms; ++i)
    if (pc >= syms[i].a && pc < syms[i].a + syms[i].n)
      return syms[i].name;
  return "?";
}

static bool glob(const char* p, const char* s)
{
  for (; *p; ++p, ++s)
  {
    if (*p == '*')
    {
      for (;; ++s)
      {
        if (glob(p + 1, s))
          return true;
        if (!*s)
          return false;
      }
    }
    if (*p != *s)
      return false;
  }
  return !*s;
}
// a known finding matches by scenario, class and a glob over "message | frame symbols"
static int match_known()
{
  if (!viol.hit)
    return 0;
  static char text[16384];
  bool        built = false;
  for (int i = 0; i < nknown; ++i)
  {
    if (!glob(known[i].scn, scenarios[viol.scn].name) || !glob(known[i].cls, viol.cls))
      continue;
    if (!built)
    {
      built    = true;
      size_t o = (size_t) snprintf(text, sizeof text, "%s |", viol.msg);
      // racing program counters named in the message
      for (const char* p = viol.msg; (p = strstr(p, "pc 0x")); p += 5)
        o += (size_t) snprintf(text + o, o < sizeof text ? sizeof text - o : 0, " <%.400s>", sym_at(strtoul(p + 3, nullptr, 16)));
      for (int k = 0; k < viol.nbt && o + 500 < sizeof text; ++k)
        o += (size_t) snprintf(text + o, sizeof text - o, " %.400s", sym_at((u64) viol.bt[k]));
    }
    if (glob(known[i].text, text))
      return i + 1;
  }
  return 0;
}

static int scn_of_seed(u64 seed, int only)
{
  if (only >= 0)
    return only;
  Rng r;
  r.seed(seed ^ 0xABCDEF12345ull);
  int tot = 0;
  for (int i = 0; i < nscenarios; ++i)
    tot += scenarios[i].weight;
  int k = (int) r.below((u32) tot);
  for (int i = 0; i < nscenarios; ++i)
    if ((k -= scenarios[i].weight) < 0)
      return i;
  return 0;
}

static void arm_watchdog()
{
  struct itimerval it;
  it.it_interval.tv_sec  = 3;
  it.it_interval.tv_usec = 0;
  it.it_value            = it.it_interval;
  raw_syscall(SYS_setitimer, ITIMER_PROF, (long) &it, 0);
}

static long raw_fork() { return raw_syscall(SYS_fork); }
static void raw_wait(long pid, int* st)
{
  while (raw_syscall(SYS_wait4, pid, (long) st, 0, 0) == -EINTR)
    ;
}

static void worker_loop(Worker* w, int wi, int nw, u64 base, u64 nruns, double tend, int only, volatile int* stop)
{
  arm_watchdog();
  static Worker* me;
  me       = w;
  counters = w->counters;
  for (u64 i = (u64) wi; i < nruns && !*stop; i += (u64) nw)
  {
    if (wall() > tend)
      break;
    u64       seed = base + i;
    int       scn  = scn_of_seed(seed, only);
    RunResult r    = run_once(seed, scn, false);
    w->runs++;
    w->steps += r.steps;
    w->vtime += r.vtime;
    w->switches += r.switches;
    w->accesses += r.accesses;
    w->stale += r.stale;
    w->scn_runs[scn]++;
    w->strategy[cfg.strategy]++;
    if (!faults_ok)
      w->faultfree++;
    if (r.steps > w->max_steps)
      w->max_steps = r.steps;
    bool nontriv = r.fibers >= 2 && r.switches >= 3;
    // distinct executions (hash over the sequence of synchronisation events)
    if (nontriv)
    {
      w->nontrivial++;
      u64 h = mix(r.hash, (u64) scn) | 1;
      u32 k = (u32) (h >> 40) & (NHASH - 1);
      if (w->nhash < NHASH * 3 / 4)
        while (w->hashes[k] != h)
        {
          if (!w->hashes[k])
          {
            w->hashes[k] = h;
            w->nhash++;
            break;
          }
          k = (k + 1) & (NHASH - 1);
        }
    }
    if (viol.hit)
    {
      int kn = match_known();
      if (kn)
        w->known_hits[kn - 1]++;
      else
      {
        VRec* v = &w->viol[w->nviol++];
        v->seed = seed;
        v->scn  = scn;
        v->hash = r.hash;
        memcpy(v->cls, viol.cls, sizeof v->cls);
        memcpy(v->msg, viol.msg, sizeof v->msg);
        *stop = 1;
        break;
      }
    }
    else if (i % 97 < (u64) nw)
    {
      // determinism self-check: the same seed again must give the identical execution
      Counter* save = counters;
      counters      = nullptr;
      RunResult q   = run_once(seed, scn, false);
      counters      = save;
      w->selfchecks++;
      if (q.hash != r.hash || q.steps != r.steps || viol.hit)
      {
        w->nondet      = 1;
        w->nondet_seed = seed;
        *stop          = 1;
        break;
      }
    }
  }
  w->done = 1;
}

static Candidate* candres;
static void load_play(Candidate* c)
{
  for (int s = 0; s < DS_NSTREAMS; ++s)
  {
    play.n[s] = c->n[s];
    memcpy(play.d[s], c->d[s], sizeof(Decision) * c->n[s]);
  }
}
// runs one (seed, scenario) in a forked child; c == null: record mode. Result in candres.
static bool run_child(u64 seed, int scn, Candidate* c)
{
  memset(&candres->v, 0, sizeof candres->v);
  candres->hit = 0;
  if (c)
    load_play(c);
  long pid = raw_fork();
  if (pid == 0)
  {
    raw_syscall(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
    arm_watchdog();
    run_once(seed, scn, c != nullptr);
    if (viol.hit)
    {
      candres->v   = viol;
      candres->hit = match_known() ? 2 : 1;
    }
    for (int s = 0; s < DS_NSTREAMS; ++s)
    {
      candres->n[s] = rec.n[s];
      memcpy(candres->d[s], rec.d[s], sizeof(Decision) * rec.n[s]);
    }
    raw_syscall(SYS_exit_group, 0);
  }
  int st = 0;
  raw_wait(pid, &st);
  return st == 0;
}

static u32 total(Candidate* c)
{
  u32 t = 0;
  for (int s = 0; s < DS_NSTREAMS; ++s)
    t += c->n[s];
  return t;
}
static int minimise(u64 seed, int scn, Candidate* best, const char* cls, double budget)
{
  Candidate* t     = (Candidate*) host_mmap(sizeof(Candidate));
  double     tend  = wall() + budget;
  int        tries = 0;
  static const int order[] = {DS_FAULT, DS_MEM, DS_SCHED, DS_WORK};
  bool again = true;
  for (int round = 0; again && round < 6; ++round)
  {
    again = false;
    for (int oi = 0; oi < 4; ++oi)
    {
      int s = order[oi];
      for (u32 chunk = best->n[s] ? best->n[s] : 1; chunk >= 1 && best->n[s]; chunk = chunk == 1 ? 0 : (chunk + 1) / 2)
      {
        if (chunk == 0)
          break;
        for (u32 at = 0; at < best->n[s];)
        {
          if (wall() > tend)
            return tries;
          memcpy(t, best, sizeof(Candidate));
          u32 len = at + chunk > t->n[s] ? t->n[s] - at : chunk;
          memmove(t->d[s] + at, t->d[s] + at + len, sizeof(Decision) * (t->n[s] - at - len));
          t->n[s] -= len;
          ++tries;
          if (run_child(seed, scn, t) && candres->hit == 1 && !strcmp(candres->v.cls, cls) && total(candres) < total(best))
          {
            memcpy(best, candres, sizeof(Candidate));
            again = true;
          }
          else
            at += len;
        }
      }
    }
  }
  return tries;
}

static void json_str(FILE* f, const char* s)
{
  fputc('"', f);
  for (; *s; ++s)
  {
    u8 c = (u8) *s;
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

static void write_replay(const char* path, const char* prop, u64 seed, int scn, Candidate* c)
{
  FILE* f = fopen(path, "w");
  if (!f)
  {
    fprintf(stderr, "dsim: cannot write %s\n", path);
    _exit(3);
  }
  fprintf(f, "dsim-replay 1\nproperty %s\nscenario %s\nseed %lu\nclass %s\nhash %lx\nmessage %s\n", prop,
          scenarios[scn].name, (unsigned long) seed, c->v.cls, (unsigned long) c->v.hash, c->v.msg);
  static const char* names[] = {"workload", "schedule", "memory", "fault"};
  for (int s = 0; s < DS_NSTREAMS; ++s)
  {
    fprintf(f, "stream %d %u %s", s, c->n[s], names[s]);
    for (u32 i = 0; i < c->n[s]; ++i)
      fprintf(f, " %u:%u", c->d[s][i].index, c->d[s][i].value);
    fprintf(f, "\n");
  }
  fprintf(f, "end\n");
  fclose(f);
}
static bool read_replay(const char* path, char* prop, u64* seed, int* scn, char* cls, u64* hash, Candidate* c)
{
  FILE* f = fopen(path, "r");
  if (!f)
    return false;
  static char line[1 << 22];
  *scn = -1;
  while (fgets(line, sizeof line, f))
  {
    line[strcspn(line, "\n")] = 0;
    if (!strncmp(line, "property ", 9))
      strncpy(prop, line + 9, 31);
    else if (!strncmp(line, "scenario ", 9))
    {
      for (int i = 0; i < nscenarios; ++i)
        if (!strcmp(scenarios[i].name, line + 9))
          *scn = i;
    }
    else if (!strncmp(line, "seed ", 5))
      *seed = strtoul(line + 5, nullptr, 10);
    else if (!strncmp(line, "class ", 6))
      strncpy(cls, line + 6, 63);
    else if (!strncmp(line, "hash ", 5))
      *hash = strtoul(line + 5, nullptr, 16);
    else if (!strncmp(line, "stream ", 7))
    {
      char* p = line + 7;
      int   s = (int) strtol(p, &p, 10);
      u32   n = (u32) strtoul(p, &p, 10);
      while (*p == ' ')
        ++p;
      while (*p && *p != ' ')
        ++p;
      if (s < 0 || s >= DS_NSTREAMS || n > MAXDEC)
        return false;
      for (u32 i = 0; i < n; ++i)
      {
        c->d[s][i].index = (u32) strtoul(p, &p, 10);
        if (*p == ':')
          ++p;
        c->d[s][i].value = (u32) strtoul(p, &p, 10);
      }
      c->n[s] = n;
    }
  }
  fclose(f);
  return *scn >= 0;
}

extern "C" char** environ;
static long run_self(char** argv)
{
  long pid = raw_fork();
  if (pid == 0)
  {
    raw_syscall(SYS_execve, (long) "/proc/self/exe", (long) argv, (long) environ);
    raw_syscall(SYS_exit_group, 3);
  }
  int st = 0;
  raw_wait(pid, &st);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
}

EXPORT int dsim_main(int argc, char** argv, char* dlo, char* dhi, char* tlo, char* thi)
{
  if (!getenv("DSIM_NOASLR"))
  {
    setenv("DSIM_NOASLR", "1", 1);
    long p = raw_syscall(SYS_personality, 0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && raw_syscall(SYS_personality, p | ADDR_NO_RANDOMIZE) >= 0)
      raw_syscall(SYS_execve, (long) "/proc/self/exe", (long) argv, (long) environ);
  }
  data_lo     = (char*) ((u64) dlo & ~7ull);
  data_hi     = dhi;
  text_lo     = tlo;
  text_hi     = thi;
  use_fsgsbase = (getauxval(AT_HWCAP2) & 2) != 0;

  u64         base = 1, nruns = 1000;
  double      secs = 30;
  int         nw = 8, only = -1;
  const char *replay = nullptr, *out = nullptr, *rdir = ".", *prop = "?", *knownf = nullptr;
  double      minbudget = 25;
  bool        one = false, list = false, twice = false;
  for (int i = 1; i < argc; ++i)
  {
    auto val = [&] { return i + 1 < argc ? argv[++i] : (char*) ""; };
    if (!strcmp(argv[i], "--runs"))
      nruns = strtoul(val(), nullptr, 10);
    else if (!strcmp(argv[i], "--seconds"))
      secs = atof(val());
    else if (!strcmp(argv[i], "--workers"))
      nw = atoi(val());
    else if (!strcmp(argv[i], "--seed"))
      base = strtoul(val(), nullptr, 10);
    else if (!strcmp(argv[i], "--scenario"))
    {
      char* n = val();
      for (int k = 0; k < nscenarios; ++k)
        if (!strcmp(scenarios[k].name, n))
          only = k;
      if (only < 0)
      {
        fprintf(stderr, "no scenario %s\n", n);
        return 3;
      }
    }
    else if (!strcmp(argv[i], "--replay"))
      replay = val();
    else if (!strcmp(argv[i], "--out"))
      out = val();
    else if (!strcmp(argv[i], "--replay-dir"))
      rdir = val();
    else if (!strcmp(argv[i], "--property"))
      prop = val();
    else if (!strcmp(argv[i], "--known"))
      knownf = val();
    else if (!strcmp(argv[i], "--min-budget"))
      minbudget = atof(val());
    else if (!strcmp(argv[i], "--verbose"))
      verbose = true;
    else if (!strcmp(argv[i], "--twice"))
      twice = true;
    else if (!strcmp(argv[i], "--one"))
      one = true;
    else if (!strcmp(argv[i], "--list"))
      list = true;
  }
  if (list)
  {
    for (int k = 0; k < nscenarios; ++k)
      printf("%s\n", scenarios[k].name);
    return 0;
  }
  if (knownf)
    if (FILE* f = fopen(knownf, "r"))
    {
      // property|scenario glob|class glob|text glob|description
      char line[2048];
      while (fgets(line, sizeof line, f) && nknown < 64)
      {
        line[strcspn(line, "\n")] = 0;
        if (line[0] == '#' || !line[0] || !strncmp(line, "fixed:", 6))
          continue;
        char* q[5];
        char* s = line;
        int   k = 0;
        while (k < 5 && s)
        {
          q[k++] = s;
          s      = k < 5 ? strchr(s, '|') : nullptr;
          if (s)
            *s++ = 0;
        }
        if (k == 5 && !strcmp(q[0], prop))
        {
          strncpy(known[nknown].scn, q[1], 63);
          strncpy(known[nknown].cls, q[2], 63);
          strncpy(known[nknown].text, q[3], 255);
          strncpy(known[nknown].what, q[4], 399);
          ++nknown;
        }
      }
      fclose(f);
    }
  std::set_terminate(&abort);
  load_syms();
  make_parks();
  init_memory();
  {
    static char alt[65536];
    stack_t     ss;
    ss.ss_sp    = alt;
    ss.ss_size  = sizeof alt;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = &on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sg[]        = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGPROF};
    for (int s : sg)
      sigaction(s, &sa, nullptr);
  }
  setvbuf(stderr, nullptr, _IOLBF, 1024);

  candres         = (Candidate*) host_shared(sizeof(Candidate));
  Candidate* best = (Candidate*) host_mmap(sizeof(Candidate));

  if (replay)
  {
    char rprop[32] = "", cls[64] = "";
    u64  seed = 0, hash = 0;
    int  scn;
    if (!read_replay(replay, rprop, &seed, &scn, cls, &hash, best))
    {
      fprintf(stderr, "dsim: bad replay file %s\n", replay);
      return 3;
    }
    load_play(best);
    print_bt = !getenv("DSIM_QUIET");
    arm_watchdog();
    RunResult r = run_once(seed, scn, true);
    if (!viol.hit)
    {
      printf("REPLAY no violation (hash %lx)\n", (unsigned long) r.hash);
      return 0;
    }
    bool same = !strcmp(viol.cls, cls) && viol.hash == hash;
    printf("REPLAY %s: %s: %s\n", same ? "reproduced exactly" : "different violation", viol.cls, viol.msg);
    return same ? 1 : 4;
  }
  if (one)
  {
    print_bt = true;
    int scn  = scn_of_seed(base, only);
    arm_watchdog();
    RunResult r = run_once(base, scn, false);
    if (twice)
    {
      fprintf(stderr, "==== second run\n");
      r = run_once(base, scn, false);
    }
    printf("scenario %s seed %lu hash %lx steps %lu switches %lu vtime %lu accesses %lu viol %s %s\n", scenarios[scn].name,
           (unsigned long) base, (unsigned long) r.hash, (unsigned long) r.steps, (unsigned long) r.switches,
           (unsigned long) r.vtime, (unsigned long) r.accesses, viol.hit ? viol.cls : "-", viol.msg);
    return viol.hit;
  }

  if (nw > 64)
    nw = 64;
  Worker*       ws   = (Worker*) host_shared(sizeof(Worker) * (size_t) nw);
  volatile int* stop = (volatile int*) host_shared(4096);
  double        t0   = wall();
  long          pids[64];
  fflush(stdout);
  fflush(stderr);
  for (int i = 0; i < nw; ++i)
  {
    long pid = raw_fork();
    if (pid == 0)
    {
      raw_syscall(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
      worker_loop(&ws[i], i, nw, base, nruns, t0 + secs, only, stop);
      raw_syscall(SYS_exit_group, 0);
    }
    pids[i] = pid;
  }
  int bad = 0;
  for (int i = 0; i < nw; ++i)
  {
    int st = 0;
    raw_wait(pids[i], &st);
    if (st != 0 || !ws[i].done)
    {
      fprintf(stderr, "dsim: worker %d died (status %x) after %lu runs\n", i, st, (unsigned long) ws[i].runs);
      bad = 1;
    }
  }
  double explore = wall() - t0;
  // merge
  Worker* sum = (Worker*) host_mmap(sizeof(Worker));
  u64     nh  = 0, hcap = (u64) NHASH * 16;
  u64*    hs  = (u64*) host_mmap(hcap * 8);
  for (int i = 0; i < nw; ++i)
  {
    Worker* w = &ws[i];
    sum->runs += w->runs;
    sum->steps += w->steps;
    sum->vtime += w->vtime;
    sum->switches += w->switches;
    sum->accesses += w->accesses;
    sum->stale += w->stale;
    sum->nontrivial += w->nontrivial;
    sum->faultfree += w->faultfree;
    sum->selfchecks += w->selfchecks;
    for (int k = 0; k < 2; ++k)
      sum->strategy[k] += w->strategy[k];
    for (int k = 0; k < nscenarios; ++k)
      sum->scn_runs[k] += w->scn_runs[k];
    for (int k = 0; k < nknown; ++k)
      sum->known_hits[k] += w->known_hits[k];
    if (w->max_steps > sum->max_steps)
      sum->max_steps = w->max_steps;
    for (int k = 0; k < NCOUNTERS && w->counters[k].name[0]; ++k)
      bump(sum->counters, w->counters[k].name, w->counters[k].n);
    for (int k = 0; k < NHASH; ++k)
      if (u64 h = w->hashes[k])
      {
        u64 p = (h >> 30) & (hcap - 1);
        while (hs[p] && hs[p] != h)
          p = (p + 1) & (hcap - 1);
        if (!hs[p])
        {
          hs[p] = h;
          ++nh;
        }
      }
  }
  int  rc = 0;
  char rpath[1024] = "";
  VRec* v = nullptr;
  int   tries = 0;
  u32   ndec0 = 0, ndec1 = 0;
  for (int i = 0; i < nw && !bad; ++i)
    if (ws[i].nondet)
    {
      fprintf(stderr, "dsim: seed %lu is not deterministic\n", (unsigned long) ws[i].nondet_seed);
      bad = 2;
    }
  // the lowest seed wins, so that the report does not depend on worker timing more than it must
  for (int i = 0; i < nw; ++i)
    for (int k = 0; k < ws[i].nviol; ++k)
      if (!v || ws[i].viol[k].seed < v->seed)
        v = &ws[i].viol[k];
  if (v && bad != 2)
  {
    // confirm in a fresh child, from the seed alone
    if (!run_child(v->seed, v->scn, nullptr) || candres->hit != 1 || strcmp(candres->v.cls, v->cls))
    {
      fprintf(stderr, "dsim: violation with seed %lu (%s: %s) did not reproduce from its seed\n", (unsigned long) v->seed,
              v->cls, v->msg);
      bad = 3;
    }
    else
    {
      memcpy(best, candres, sizeof(Candidate));
      // the recorded decisions must reproduce it too
      if (!run_child(v->seed, v->scn, best) || candres->hit != 1 || candres->v.hash != best->v.hash)
      {
        fprintf(stderr, "dsim: recorded decisions do not reproduce seed %lu\n", (unsigned long) v->seed);
        bad = 4;
      }
      else
      {
        ndec0 = total(best);
        tries = minimise(v->seed, v->scn, best, v->cls, minbudget);
        ndec1 = total(best);
        snprintf(rpath, sizeof rpath, "%s/%s-%s-%lu.replay", rdir, prop, scenarios[v->scn].name, (unsigned long) v->seed);
        write_replay(rpath, prop, v->seed, v->scn, best);
        setenv("DSIM_QUIET", "1", 1);
        char* av[] = {argv[0], (char*) "--replay", rpath, nullptr};
        fflush(stdout);
        // stdout of the confirming replay is not part of the verdict lines
        long e = run_self(av);
        if (e != 1)
        {
          fprintf(stderr, "dsim: replay file does not reproduce in a fresh process (status %ld)\n", e);
          bad = 5;
        }
        else
        {
          rc = 1;
          printf("DSIM-VIOLATION scenario=%s seed=%lu class=%s replay=%s decisions=%u->%u\n%s\n", scenarios[v->scn].name,
                 (unsigned long) v->seed, best->v.cls, rpath, ndec0, ndec1, best->v.msg);
        }
      }
    }
  }
  for (int k = 0; k < nknown; ++k)
    if (sum->known_hits[k])
      printf("DSIM-KNOWN %d %lu %s\n", k, (unsigned long) sum->known_hits[k], known[k].what);
  if (out)
  {
    FILE* f = fopen(out, "w");
    if (f)
    {
      fprintf(f,
              "{\"runs\":%lu,\"steps\":%lu,\"vtime_ns\":%lu,\"switches\":%lu,\"accesses\":%lu,\"stale_loads\":%lu,"
              "\"nontrivial\":%lu,\"distinct\":%lu,\"fault_free_runs\":%lu,\"selfchecks\":%lu,\"max_steps\":%lu,"
              "\"random_walk\":%lu,\"pct\":%lu,\"explore_s\":%.2f,\"wall_s\":%.2f,\"seed_base\":%lu,\"workers\":%d,"
              "\"bad\":%d,\n\"scenarios\":{",
              sum->runs, sum->steps, sum->vtime, sum->switches, sum->accesses, sum->stale, sum->nontrivial, nh,
              sum->faultfree, sum->selfchecks, sum->max_steps, sum->strategy[0], sum->strategy[1], explore, wall() - t0,
              base, nw, bad);
      for (int k = 0; k < nscenarios; ++k)
        fprintf(f, "%s\"%s\":%lu", k ? "," : "", scenarios[k].name, sum->scn_runs[k]);
      fprintf(f, "},\n\"counters\":{");
      for (int k = 0; k < NCOUNTERS && sum->counters[k].name[0]; ++k)
      {
        fprintf(f, "%s", k ? "," : "");
        json_str(f, sum->counters[k].name);
        fprintf(f, ":%lu", sum->counters[k].n);
      }
      fprintf(f, "},\n\"known\":[");
      for (int k = 0; k < nknown; ++k)
      {
        fprintf(f, "%s{\"what\":", k ? "," : "");
        json_str(f, known[k].what);
        fprintf(f, ",\"hits\":%lu}", sum->known_hits[k]);
      }
      fprintf(f, "],\n\"violation\":");
      if (rc == 1)
      {
        fprintf(f, "{\"scenario\":\"%s\",\"seed\":%lu,\"class\":", scenarios[v->scn].name, v->seed);
        json_str(f, best->v.cls);
        fprintf(f, ",\"message\":");
        json_str(f, best->v.msg);
        fprintf(f, ",\"replay\":");
        json_str(f, rpath);
        fprintf(f, ",\"min_tries\":%d,\"decisions_before\":%u,\"decisions_after\":%u,\"bt\":[", tries, ndec0, ndec1);
        for (int k = 0; k < best->v.nbt; ++k)
          fprintf(f, "%s\"%p\"", k ? "," : "", best->v.bt[k]);
        fprintf(f, "]}");
      }
      else
        fprintf(f, "null");
      fprintf(f, "}\n");
      fclose(f);
    }
  }
  fflush(stdout);
  if (rc == 1)
    return 1;
  return bad ? 3 : 0;
}
