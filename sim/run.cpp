// supervisor: seeds -> runs in forked children, double-run determinism gate, minimisation, replay files, evidence
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>

#include "rt.h"

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_open(const char*, int, ...);
int __real_close(int);
int __real_mkdir(const char*, mode_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
}
namespace sim {
static std::map<std::string, Check>& reg() {
  static auto* m = new std::map<std::string, Check>;
  return *m;
}
void registerCheck(const Check& c) { reg()[c.id] = c; }

// ---------------------------------------------------------------- plan text
std::string Plan::text() const {
  std::string s;
  for (auto& kv : knob) s += "knob " + kv.first + " " + std::to_string(kv.second) + "\n";
  for (auto& l : lines) {
    s += l.kind;
    for (i64 v : l.a) s += " " + std::to_string(v);
    s += "\n";
  }
  return s;
}
Plan Plan::parse(const std::string& t) {
  Plan p;
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find('\n', i);
    if (j == std::string::npos) j = t.size();
    std::string ln = t.substr(i, j - i);
    i = j + 1;
    std::vector<std::string> w;
    size_t a = 0;
    while (a < ln.size()) {
      size_t b = ln.find(' ', a);
      if (b == std::string::npos) b = ln.size();
      if (b > a) w.push_back(ln.substr(a, b - a));
      a = b + 1;
    }
    if (w.empty()) continue;
    if (w[0] == "knob" && w.size() == 3)
      p.knob[w[1]] = atoll(w[2].c_str());
    else {
      Line l;
      l.kind = w[0];
      for (size_t k = 1; k < w.size(); k++) l.a.push_back(atoll(w[k].c_str()));
      p.lines.push_back(l);
    }
  }
  return p;
}

static double realNow() {
  struct timespec ts;
  __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- one run = one forked child
struct Job {
  const Check* c;
  bool hasPlan = false;
  std::string plan;   // text
  u64 seed = 0;       // plan generation
  u64 sched = 0;      // decisions
  bool replay = false;
  const std::vector<TraceEnt>* trace = nullptr;
  bool verbose = false;
  bool thorough = false;
  i64 fixedIdx = -1;
};
static RunResult* newResult() {
  void* p = mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    fprintf(stderr, "mmap failed\n");
    exit(2);
  }
  return (RunResult*)p;
}
[[noreturn]] static void child(const Job& j, RunResult* r) {
  signal(SIGINT, SIG_DFL);
  res = r;
  memset((void*)r, 0, offsetof(RunResult, trace));
  r->nTrace = r->nLog = r->traceOverflow = r->nPlan = 0;
  r->status = 9;
  verboseLog = j.verbose;
  memSwitchRegion(1);
  std::string text;
  if (j.hasPlan)
    text = j.plan;
  else if (j.fixedIdx >= 0)
    text = j.c->fixed()[j.fixedIdx].text();
  else {
    Rng g(j.seed);
    text = j.c->gen(g, j.thorough).text();
  }
  if (text.size() >= sizeof r->plan) {
    r->status = 3;
    strcpy(r->msg, "plan too long");
    _exit(13);
  }
  memcpy(r->plan, text.data(), text.size());
  r->nPlan = text.size();
  replayMode = j.replay;
  if (j.replay && j.trace) replayTrace = *j.trace;
  loadReplay();
  const Check* c = j.c;
  std::string* keep = new std::string(text);
  memSwitchRegion(2);
  Plan p = Plan::parse(*keep);
  startRun(j.sched, [c, p] { c->exec(p); });
  _exit(0);
}
static pid_t launch(const Job& j, RunResult* r) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) child(j, r);
  if (pid < 0) {
    fprintf(stderr, "fork failed\n");
    exit(2);
  }
  return pid;
}
static void finish(RunResult* r, int st) {
  if (r->status != 9) return;
  r->hash ^= st;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    r->status = 3;
    strcpy(r->cls, "killed");
    strcpy(r->msg, "run was killed from outside (memory?)");
  } else if (WIFSIGNALED(st)) {
    r->status = 1;
    snprintf(r->cls, sizeof r->cls, "crash-signal-%d", WTERMSIG(st));
    snprintf(r->msg, sizeof r->msg, "process died with signal %d", WTERMSIG(st));
  } else if (WIFEXITED(st)) {
    r->status = 1;
    strcpy(r->cls, "unexpected-exit");
    snprintf(r->msg, sizeof r->msg, "process exited with %d in the middle of a run", WEXITSTATUS(st));
  }
}
static void runSync(const Job& j, RunResult* r) {
  pid_t p = launch(j, r);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  finish(r, st);
}

// ---------------------------------------------------------------- workers
constexpr u32 MAXSTATES = 1 << 20;
struct WStat {
  volatile int stop;
  u64 runs, doubles, inconclusive, violations, known, steps, mem, decisions;
  double vtime;
  NamedCount faults[MAXFAULT], probes[MAXFAULT];
  u64 nState;
  u64 found;  // 1: violation, 2: nondeterminism, 3: harness error
  u64 foundSeed, foundSched;
  i64 foundFixed;
  char foundCls[160], foundMsg[2000];
  u64 nHit;
  char incon[200];
  u64 states[MAXSTATES];
};
static void addCount(NamedCount* t, const char* n, u64 k) {
  for (u32 i = 0; i < MAXFAULT; i++) {
    if (!t[i].name[0]) {
      strncpy(t[i].name, n, sizeof t[i].name - 1);
      t[i].n = k;
      return;
    }
    if (!strcmp(t[i].name, n)) {
      t[i].n += k;
      return;
    }
  }
}
struct Known {
  std::string cls, text;
};
static std::vector<Known> known;
static bool isKnown(const char* cls) {
  for (auto& k : known)
    if (k.cls == cls) return true;
  return false;
}
static u64 seedOf(u64 base, u64 i) { return Rng::mix(base * 1000003ull + i); }

static void worker(const Check& c, int w, int nw, u64 base, u64 nRuns, u64 nFixed, double deadline, bool thorough, WStat* ws, RunResult* r, u64 dblEvery) {
  cpu_set_t cs;
  CPU_ZERO(&cs);
  CPU_SET(w % CPU_SETSIZE, &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  for (u64 i = w; i < nRuns + nFixed; i += nw) {
    if (ws->stop || realNow() > deadline) return;
    Job j;
    j.c = &c;
    j.thorough = thorough;
    if (i < nFixed) j.fixedIdx = i;
    j.seed = seedOf(base, i);
    j.sched = Rng::mix(j.seed ^ 0x5eed);
    runSync(j, r);
    ws->runs++;
    ws->steps += r->steps;
    ws->mem += r->mem;
    ws->decisions += r->decisions;
    ws->vtime += r->vtime > 1000 * SEC ? (r->vtime - 1000 * SEC) * 1e-9 : 0;
    for (u32 k = 0; k < MAXFAULT && r->faults[k].name[0]; k++) addCount(ws->faults, r->faults[k].name, r->faults[k].n);
    for (u32 k = 0; k < MAXFAULT && r->probes[k].name[0]; k++) addCount(ws->probes, r->probes[k].name, r->probes[k].n);
    if (ws->nState < MAXSTATES) ws->states[ws->nState++] = r->state;
    auto fill = [&](int what) {
      ws->foundSeed = j.seed;
      ws->foundSched = j.sched;
      ws->foundFixed = j.fixedIdx;
      strncpy(ws->foundCls, r->cls, sizeof ws->foundCls - 1);
      strncpy(ws->foundMsg, r->msg, sizeof ws->foundMsg - 1);
      ws->found = what;
    };
    if (r->status == 2) {
      ws->inconclusive++;
      snprintf(ws->incon, sizeof ws->incon, "seed %llu: %s %.120s", (unsigned long long)j.seed, r->cls, r->msg);
    } else if (r->status == 3) {
      fill(3);
      return;
    } else if (r->status == 1) {
      if (isKnown(r->cls)) {
        ws->known++;
      } else {
        ws->violations++;
        fill(1);
        return;
      }
    }
    if (dblEvery && (i / nw) % dblEvery == 0) {
      u64 h = r->hash;
      int s = r->status;
      runSync(j, r);
      ws->doubles++;
      if (s != 2 && r->status != 2 && (r->hash != h || r->status != s)) {  // status 2: the machine was too slow
        fill(2);
        return;
      }
    }
  }
}

// ---------------------------------------------------------------- replay files
struct ReplayFile {
  std::string check, cls, msg, plan;
  u64 seed = 0, sched = 0, hash = 0;
  std::vector<TraceEnt> trace;
};
static bool writeReplay(const std::string& path, const ReplayFile& f) {
  FILE* o = fopen(path.c_str(), "w");
  if (!o) return false;
  fprintf(o, "# deterministic simulation replay; run: <binary> replay <this file>\n");
  fprintf(o, "check %s\nclass %s\nseed %llu\nsched %llu\nhash %llu\n", f.check.c_str(), f.cls.c_str(), (unsigned long long)f.seed,
          (unsigned long long)f.sched, (unsigned long long)f.hash);
  std::string m = f.msg;
  for (char& ch : m)
    if (ch == '\n') ch = ' ';
  fprintf(o, "message %s\nplan-begin\n%splan-end\n", m.c_str(), f.plan.c_str());
  for (auto& t : f.trace) fprintf(o, "d %u %llu %u\n", t.kind, (unsigned long long)t.idx, t.val);
  fclose(o);
  return true;
}
static bool readReplay(const char* path, ReplayFile& f) {
  FILE* i = fopen(path, "r");
  if (!i) return false;
  static char ln[1 << 16];
  bool inPlan = false;
  while (fgets(ln, sizeof ln, i)) {
    std::string s = ln;
    if (!s.empty() && s.back() == '\n') s.pop_back();
    if (inPlan) {
      if (s == "plan-end")
        inPlan = false;
      else
        f.plan += s + "\n";
      continue;
    }
    if (s.rfind("check ", 0) == 0) f.check = s.substr(6);
    else if (s.rfind("class ", 0) == 0) f.cls = s.substr(6);
    else if (s.rfind("seed ", 0) == 0) f.seed = strtoull(s.c_str() + 5, nullptr, 10);
    else if (s.rfind("sched ", 0) == 0) f.sched = strtoull(s.c_str() + 6, nullptr, 10);
    else if (s.rfind("hash ", 0) == 0) f.hash = strtoull(s.c_str() + 5, nullptr, 10);
    else if (s.rfind("message ", 0) == 0) f.msg = s.substr(8);
    else if (s == "plan-begin") inPlan = true;
    else if (s.rfind("d ", 0) == 0) {
      unsigned k, v;
      unsigned long long x;
      if (sscanf(s.c_str(), "d %u %llu %u", &k, &x, &v) == 3) f.trace.push_back({k, v, x});
    }
  }
  fclose(i);
  return true;
}

// ---------------------------------------------------------------- minimisation
static std::vector<RunResult*> pool;
// run jobs in parallel; index of the first job showing cls, or -1
static int tryJobs(const std::vector<Job>& js, const std::string& cls) {
  for (size_t b = 0; b < js.size(); b += pool.size()) {
    size_t n = std::min(pool.size(), js.size() - b);
    std::vector<pid_t> pids(n);
    for (size_t i = 0; i < n; i++) pids[i] = launch(js[b + i], pool[i]);
    for (size_t i = 0; i < n; i++) {
      int st;
      while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {
      }
      finish(pool[i], st);
    }
    for (size_t i = 0; i < n; i++)
      if (pool[i]->status == 1 && pool[i]->cls == cls) return (int)(b + i);
  }
  return -1;
}
static std::vector<TraceEnt> traceOf(RunResult* r) { return std::vector<TraceEnt>(r->trace, r->trace + r->nTrace); }

static void minimise(const Check& c, ReplayFile& f, double budget) {
  double end = realNow() + budget;
  size_t P = pool.size();
  // 1. drop plan lines
  Plan p = Plan::parse(f.plan);
  size_t chunk = std::max<size_t>(1, p.lines.size() / 2);
  size_t pos = 0;
  while (realNow() < end) {
    if (pos >= p.lines.size()) {
      if (chunk == 1) break;
      chunk = std::max<size_t>(1, chunk / 2);
      pos = 0;
      if (p.lines.empty()) break;
      continue;
    }
    Plan q = p;
    size_t e = std::min(q.lines.size(), pos + chunk);
    q.lines.erase(q.lines.begin() + pos, q.lines.begin() + e);
    std::vector<Job> js;
    Job a;
    a.c = &c;
    a.hasPlan = true;
    a.plan = q.text();
    a.sched = f.sched;
    a.replay = true;
    a.trace = &f.trace;
    js.push_back(a);
    for (size_t i = 1; i < P; i++) {
      Job b = a;
      b.replay = false;
      b.trace = nullptr;
      b.sched = i == 1 ? f.sched : Rng::mix(f.sched + i * 7919 + pos);
      js.push_back(b);
    }
    int h = tryJobs(js, f.cls);
    if (h >= 0) {
      p = q;
      f.plan = js[h].plan;
      f.sched = js[h].sched;
      f.trace = traceOf(pool[h % P]);
      f.msg = pool[h % P]->msg;
    } else
      pos += chunk;
  }
  // 2. drop decisions
  std::vector<TraceEnt> t = f.trace;
  size_t n = 2;
  while (!t.empty() && realNow() < end) {
    size_t len = (t.size() + n - 1) / n;
    std::vector<std::vector<TraceEnt>> cand;
    for (size_t i = 0; i < t.size(); i += len) {
      std::vector<TraceEnt> u(t.begin(), t.begin() + i);
      if (i + len < t.size()) u.insert(u.end(), t.begin() + i + len, t.end());
      cand.push_back(std::move(u));
    }
    bool ok = false;
    for (size_t b = 0; b < cand.size() && realNow() < end; b += P) {
      std::vector<Job> js;
      for (size_t i = b; i < std::min(cand.size(), b + P); i++) {
        Job j;
        j.c = &c;
        j.hasPlan = true;
        j.plan = f.plan;
        j.sched = f.sched;
        j.replay = true;
        j.trace = &cand[i];
        js.push_back(j);
      }
      int h = tryJobs(js, f.cls);
      if (h >= 0) {
        t = traceOf(pool[h]);  // decisions that really took effect
        if (t.size() > cand[b + h].size()) t = cand[b + h];
        f.msg = pool[h]->msg;
        ok = true;
        break;
      }
    }
    if (ok)
      n = std::max<size_t>(2, n - 1);
    else {
      if (len <= 1) break;
      n = std::min(t.size(), n * 2);
    }
  }
  f.trace = t;
}

// ---------------------------------------------------------------- evidence
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') o += '\\', o += ch;
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}
static int usage() {
  fprintf(stderr, "usage: check <ID> | replay <file> | one <ID> <seed> [-v] | list | det <ID> <n>\n");
  return 2;
}
static std::string argOf(int argc, char** argv, const char* name, const std::string& d) {
  for (int i = 2; i + 1 < argc; i++)
    if (!strcmp(argv[i], name)) return argv[i + 1];
  return d;
}
static bool hasArg(int argc, char** argv, const char* name) {
  for (int i = 2; i < argc; i++)
    if (!strcmp(argv[i], name)) return true;
  return false;
}
static int doReplay(const char* path, bool verbose) {
  ReplayFile f;
  if (!readReplay(path, f)) {
    fprintf(stderr, "cannot read %s\n", path);
    return 2;
  }
  auto it = reg().find(f.check);
  if (it == reg().end()) {
    fprintf(stderr, "unknown check %s\n", f.check.c_str());
    return 2;
  }
  RunResult* r = newResult();
  Job j;
  j.c = &it->second;
  j.hasPlan = true;
  j.plan = f.plan;
  j.sched = f.sched;
  j.replay = true;
  j.trace = &f.trace;
  j.verbose = verbose;
  runSync(j, r);
  if (verbose) fwrite(r->log, 1, r->nLog, stdout);
  printf("replay status=%d class=%s hash=%llu expected class=%s hash=%llu\n%s\n", r->status, r->cls, (unsigned long long)r->hash,
         f.cls.c_str(), (unsigned long long)f.hash, r->msg);
  if (r->status == 1 && f.cls == r->cls && (f.hash == 0 || f.hash == r->hash)) return 1;
  return r->status == 0 ? 0 : 2;
}
static int doCheck(int argc, char** argv) {
  std::string id = argv[2];
  auto it = reg().find(id);
  if (it == reg().end()) {
    fprintf(stderr, "unknown check %s\n", id.c_str());
    return 2;
  }
  const Check& c = it->second;
  bool thorough = argOf(argc, argv, "--tier", "quick") == "thorough";
  u64 seed = strtoull(argOf(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  std::string ev = argOf(argc, argv, "--evidence", "/verif/evidence/" + id + ".json");
  std::string rdir = argOf(argc, argv, "--replays", "/verif/build/replays");
  std::string kf = argOf(argc, argv, "--known", "/verif/known_findings.txt");
  int nw = atoi(argOf(argc, argv, "--workers", "8").c_str());
  double secs = atof(argOf(argc, argv, "--secs", std::to_string(thorough ? c.thoroughSecs : c.quickSecs)).c_str());
  u64 runs = strtoull(argOf(argc, argv, "--runs", std::to_string(thorough ? c.thoroughRuns : c.quickRuns)).c_str(), nullptr, 10);
  double minSecs = atof(argOf(argc, argv, "--minsecs", thorough ? "180" : "30").c_str());
  if (FILE* k = fopen(kf.c_str(), "r")) {
    static char ln[4096];
    while (fgets(ln, sizeof ln, k)) {
      std::string s = ln;
      while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
      std::string pre = "known: property=" + id + " class=";
      if (s.rfind(pre, 0) == 0) {
        std::string rest = s.substr(pre.size());
        size_t sp = rest.find(' ');
        known.push_back({rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1)});
      }
    }
    fclose(k);
  }
  u64 base = Rng::mix(seed * 2654435761ull + std::hash<std::string>()(id));
  u64 nFixed = c.fixed ? c.fixed().size() : 0;
  double t0 = realNow();
  printf("check %s tier=%s VERIF_SEED=%llu runs<=%llu secs<=%.0f workers=%d\n", id.c_str(), thorough ? "thorough" : "quick",
         (unsigned long long)seed, (unsigned long long)runs, secs, nw);
  fflush(stdout);
  std::vector<WStat*> ws(nw);
  std::vector<pid_t> pids(nw);
  for (int w = 0; w < nw; w++) {
    ws[w] = (WStat*)mmap(nullptr, sizeof(WStat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pool.push_back(newResult());
  }
  for (int w = 0; w < nw; w++) {
    fflush(nullptr);
    pids[w] = fork();
    if (pids[w] == 0) {
      worker(c, w, nw, base, runs, nFixed, t0 + secs, thorough, ws[w], pool[w], thorough ? 20 : 10);
      _exit(0);
    }
  }
  int left = nw;
  while (left) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) {
      if (errno == EINTR) continue;
      break;
    }
    left--;
    for (int w = 0; w < nw; w++)
      if (pids[w] == p) {
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
          ws[w]->found = 3;
          strcpy(ws[w]->foundMsg, "worker died");
        }
        if (ws[w]->found)
          for (int k = 0; k < nw; k++) ws[k]->stop = 1;
      }
  }
  double wall = realNow() - t0;
  // totals
  u64 R = 0, D = 0, I = 0, V = 0, K = 0, S = 0, M = 0, DC = 0;
  double VT = 0;
  std::vector<NamedCount> F(MAXFAULT), Pb(MAXFAULT);
  memset(F.data(), 0, sizeof(NamedCount) * MAXFAULT);
  memset(Pb.data(), 0, sizeof(NamedCount) * MAXFAULT);
  std::set<u64> st;
  int badW = -1, vioW = -1;
  std::string incon;
  for (int w = 0; w < nw; w++) {
    WStat* x = ws[w];
    R += x->runs, D += x->doubles, I += x->inconclusive, V += x->violations, K += x->known, S += x->steps, M += x->mem, DC += x->decisions;
    VT += x->vtime;
    for (u32 k = 0; k < MAXFAULT && x->faults[k].name[0]; k++) addCount(F.data(), x->faults[k].name, x->faults[k].n);
    for (u32 k = 0; k < MAXFAULT && x->probes[k].name[0]; k++) addCount(Pb.data(), x->probes[k].name, x->probes[k].n);
    for (u64 k = 0; k < x->nState; k++) st.insert(x->states[k]);
    if (x->found == 1 && vioW < 0) vioW = w;
    if ((x->found == 2 || x->found == 3) && badW < 0) badW = w;
    if (x->incon[0]) incon = x->incon;
  }
  // samples: two real cases
  std::string samples;
  for (int k = 0; k < 2; k++) {
    Job j;
    j.c = &c;
    j.thorough = thorough;
    j.seed = seedOf(base, nFixed + k);
    j.sched = Rng::mix(j.seed ^ 0x5eed);
    j.verbose = true;
    runSync(j, pool[0]);
    std::string pl(pool[0]->plan, pool[0]->nPlan), lg(pool[0]->log, std::min<u32>(pool[0]->nLog, 3000));
    if (pl.size() > 2500) pl = pl.substr(0, 2500) + "...";
    if (k) samples += ",";
    samples += "{\"seed\":" + std::to_string(j.seed) + ",\"plan\":" + jstr(pl) + ",\"hash\":" + std::to_string(pool[0]->hash) +
               ",\"event_log_head\":" + jstr(lg) + "}";
  }
  int rc = 0;
  std::string replayPath, vcls, vmsg;
  if (vioW >= 0) {
    WStat* x = ws[vioW];
    printf("candidate violation class=%s seed=%llu: %s\n", x->foundCls, (unsigned long long)x->foundSeed, x->foundMsg);
    fflush(stdout);
    Job j;
    j.c = &c;
    j.thorough = thorough;
    j.seed = x->foundSeed;
    j.sched = x->foundSched;
    j.fixedIdx = x->foundFixed;
    u64 h[2];
    bool same = true;
    for (int k = 0; k < 2; k++) {
      for (int tries = 0; tries < 3; tries++) {
        runSync(j, pool[0]);
        if (pool[0]->status != 2) break;  // status 2: the machine was too slow
      }
      h[k] = pool[0]->hash;
      if (pool[0]->status != 1 || strcmp(pool[0]->cls, x->foundCls)) same = false;
    }
    if (!same || h[0] != h[1]) {
      printf("ERROR: violation does not reproduce from its seed (class %s / %s, hash %llu / %llu)\n", x->foundCls, pool[0]->cls,
             (unsigned long long)h[0], (unsigned long long)h[1]);
      rc = 2;
    } else if (pool[0]->traceOverflow) {
      printf("ERROR: decision trace overflow\n");
      rc = 2;
    } else {
      ReplayFile f;
      f.check = id;
      f.cls = x->foundCls;
      f.msg = pool[0]->msg;
      f.seed = x->foundSeed;
      f.sched = x->foundSched;
      f.plan.assign(pool[0]->plan, pool[0]->nPlan);
      f.trace = traceOf(pool[0]);
      Job rj;
      rj.c = &c;
      rj.hasPlan = true;
      rj.plan = f.plan;
      rj.sched = f.sched;
      rj.replay = true;
      rj.trace = &f.trace;
      for (int tries = 0; tries < 3; tries++) {
        runSync(rj, pool[0]);
        if (pool[0]->status != 2) break;
      }
      if (pool[0]->status != 1 || f.cls != pool[0]->cls) {
        printf("ERROR: recorded decisions do not reproduce the violation (status %d class %s)\n", pool[0]->status, pool[0]->cls);
        rc = 2;
      } else {
        ReplayFile orig = f;
        size_t pl0 = Plan::parse(f.plan).lines.size(), t0n = f.trace.size();
        minimise(c, f, minSecs);
        auto settle = [&](ReplayFile& g) {
          Job q;
          q.c = &c;
          q.hasPlan = true;
          q.plan = g.plan;
          q.sched = g.sched;
          q.replay = true;
          q.trace = &g.trace;
          runSync(q, pool[0]);
          g.hash = pool[0]->hash;
          g.msg = pool[0]->msg;
          return pool[0]->status == 1 && g.cls == pool[0]->cls;
        };
        if (!settle(f)) {
          f = orig;
          settle(f);
        }
        __real_mkdir(rdir.c_str(), 0755);
        replayPath = rdir + "/" + id + "-" + std::to_string(f.seed) + ".replay";
        writeReplay(replayPath, f);
        printf("minimised: plan lines %zu -> %zu, decisions %zu -> %zu\n", pl0, Plan::parse(f.plan).lines.size(), t0n, f.trace.size());
        fflush(stdout);
        // fresh process must fail the same way
        pid_t p = fork();
        if (p == 0) {
          int nul = __real_open("/dev/null", O_WRONLY);
          dup2(nul, 1);
          execl("/proc/self/exe", "sim", "replay", replayPath.c_str(), (char*)nullptr);
          _exit(2);
        }
        int stt;
        while (waitpid(p, &stt, 0) < 0 && errno == EINTR) {
        }
        if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1) {
          printf("ERROR: the replay file does not reproduce in a fresh process\n");
          rc = 2;
        } else {
          printf("plan:\n%s", f.plan.c_str());
          printf("violation class=%s: %s\n", f.cls.c_str(), f.msg.c_str());
          printf("VIOLATION property=%s replay=%s\n", id.c_str(), replayPath.c_str());
          vcls = f.cls;
          vmsg = f.msg;
          rc = 1;
        }
      }
    }
  } else if (badW >= 0) {
    printf("ERROR: %s seed=%llu %s %s\n", ws[badW]->found == 2 ? "non-deterministic run" : "harness error",
           (unsigned long long)ws[badW]->foundSeed, ws[badW]->foundCls, ws[badW]->foundMsg);
    rc = 2;
  } else if (R == 0 || I * 2 > R) {
    printf("ERROR: %llu of %llu runs inconclusive (%s)\n", (unsigned long long)I, (unsigned long long)R, incon.c_str());
    rc = 2;
  }
  for (auto& k : known) printf("KNOWN-FINDING: property=%s class=%s %s\n", id.c_str(), k.cls.c_str(), k.text.c_str());
  // evidence
  std::string e = "{\"property\":" + jstr(id) + ",\"tier\":\"" + (thorough ? "thorough" : "quick") + "\",\"seed\":" + std::to_string(seed) +
                  ",\"level\":\"exploration\",\"wall_s\":" + std::to_string(realNow() - t0) + ",\"violations\":" + std::to_string(rc == 1 ? 1 : 0) +
                  ",\"coverage\":{\"evaluations\":" + std::to_string(R) + ",\"distinct_nontrivial\":" + std::to_string(st.size()) +
                  ",\"rule\":" + jstr(c.rule + " Distinct = different hash over the sequence of scheduling switches, fault firings and results of the run.");
  char b[400];
  snprintf(b, sizeof b,
           ",\"runs_executed_twice_with_equal_hash\":%llu,\"inconclusive_runs\":%llu,\"known_finding_hits\":%llu,\"runs_per_hour\":%.0f,"
           "\"seeds_per_hour\":%.0f,\"simulated_seconds\":%.3f,\"scheduling_steps\":%llu,\"instrumented_memory_accesses\":%llu,\"decisions\":%llu",
           (unsigned long long)D, (unsigned long long)I, (unsigned long long)K, (R + D) / wall * 3600, R / wall * 3600, VT,
           (unsigned long long)S, (unsigned long long)M, (unsigned long long)DC);
  e += b;
  e += ",\"faults_injected\":{";
  for (u32 k = 0; k < MAXFAULT && F[k].name[0]; k++) e += (k ? "," : "") + jstr(F[k].name) + ":" + std::to_string(F[k].n);
  e += "},\"probes\":{";
  for (u32 k = 0; k < MAXFAULT && Pb[k].name[0]; k++) e += (k ? "," : "") + jstr(Pb[k].name) + ":" + std::to_string(Pb[k].n);
  e += "},\"real_components\":[";
  for (size_t k = 0; k < c.real.size(); k++) e += (k ? "," : "") + jstr(c.real[k]);
  e += "],\"stub_components\":[";
  for (size_t k = 0; k < c.stub.size(); k++) e += (k ? "," : "") + jstr(c.stub[k]);
  e += "],\"samples\":[" + samples + "]}}\n";
  if (FILE* o = fopen(ev.c_str(), "w")) {
    fputs(e.c_str(), o);
    fclose(o);
  } else {
    printf("ERROR: cannot write evidence %s\n", ev.c_str());
    if (rc == 0) rc = 2;
  }
  printf("%s: %llu runs (%llu twice), %zu distinct interleavings, %.1f simulated s, %llu inconclusive%s%s%s, %.1f s\n", id.c_str(),
         (unsigned long long)R, (unsigned long long)D, st.size(), VT, (unsigned long long)I, incon.empty() ? "" : " (", incon.c_str(),
         incon.empty() ? "" : ")", realNow() - t0);
  for (u32 k = 0; k < MAXFAULT && F[k].name[0]; k++) printf("  fault %-28s %llu\n", F[k].name, (unsigned long long)F[k].n);
  for (u32 k = 0; k < MAXFAULT && Pb[k].name[0]; k++) printf("  probe %-28s %llu\n", Pb[k].name, (unsigned long long)Pb[k].n);
  return rc;
}
}  // namespace sim
using namespace sim;
int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE)) {
    personality(pers | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc < 2) return usage();
  std::string cmd = argv[1];
  if (cmd == "list") {
    for (auto& kv : reg()) printf("%s\n", kv.first.c_str());
    return 0;
  }
  if (argc < 3) return usage();
  if (cmd == "replay") return doReplay(argv[2], hasArg(argc, argv, "-v"));
  if (cmd == "check") return doCheck(argc, argv);
  auto it = reg().find(argv[2]);
  if (it == reg().end()) return usage();
  RunResult* r = newResult();
  if (cmd == "one") {
    Job j;
    j.c = &it->second;
    j.seed = strtoull(argv[3], nullptr, 10);
    if (hasArg(argc, argv, "--fixed")) j.fixedIdx = j.seed;
    j.sched = Rng::mix(j.seed ^ 0x5eed);
    j.verbose = hasArg(argc, argv, "-v");
    runSync(j, r);
    if (hasArg(argc, argv, "-p")) fwrite(r->plan, 1, r->nPlan, stdout);
    fwrite(r->log, 1, r->nLog, stdout);
    printf("status=%d class=%s hash=%llu state=%llu steps=%llu mem=%llu vtime=%.3f trace=%u\n%s\n", r->status, r->cls,
           (unsigned long long)r->hash, (unsigned long long)r->state, (unsigned long long)r->steps, (unsigned long long)r->mem,
           r->vtime * 1e-9 - 1000, r->nTrace, r->msg);
    for (u32 k = 0; k < MAXFAULT && r->faults[k].name[0]; k++) printf("  fault %-28s %llu\n", r->faults[k].name, (unsigned long long)r->faults[k].n);
    return r->status;
  }
  if (cmd == "det") {  // determinism: random run vs. replay of its own decisions, and twice the same seed
    int n = atoi(argv[3]), bad = 0;
    for (int i = 0; i < n; i++) {
      Job j;
      j.c = &it->second;
      j.seed = seedOf(4242, i);
      j.sched = Rng::mix(j.seed ^ 0x5eed);
      runSync(j, r);
      u64 h = r->hash;
      int s = r->status;
      auto t = traceOf(r);
      runSync(j, r);
      if (r->hash != h) bad++, printf("seed %llu: two runs differ\n", (unsigned long long)j.seed);
      Job q = j;
      q.replay = true;
      q.trace = &t;
      runSync(q, r);
      if (r->hash != h || r->status != s) bad++, printf("seed %llu: replay differs\n", (unsigned long long)j.seed);
    }
    printf("determinism: %d runs, %d mismatches\n", n, bad);
    return bad ? 1 : 0;
  }
  return usage();
}
