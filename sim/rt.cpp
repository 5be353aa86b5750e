// scheduler, virtual time, decisions, pthread / clock interposition, instrumentation hooks
#include "rt.h"

#include <cxxabi.h>
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <queue>

extern "C" {
extern char __tt_start[] __attribute__((weak));
extern char __tt_end[] __attribute__((weak));
void __call_tls_dtors();
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
}

namespace sim {
int rtDepth = 0;
bool rtActive = false;
Thread* cur = nullptr;
u64 now_ = 0;
static u64 seq_ = 0, blockSeqGen = 0;
std::vector<std::unique_ptr<Thread>> threads;
std::vector<std::unique_ptr<Node>> nodes;
SchedCfg sched;
u64 stepCap = 2000000, vtimeCap = 4000 * SEC;
u64 memCap = 400000000ull;
RunResult* res = nullptr;
bool verboseLog = false;
bool replayMode = false;
std::vector<TraceEnt> replayTrace;
u64 entropySeed = 1;
bool gpuExec = false;  // a simulated device executes
void (*gpuAccHook)(const void*, size_t, bool);
void (*gpuHostHook)(const void*, size_t, bool);
static Rng rng(1);
static u64 runSeed = 0;
static bool quiet_ = false;
static u64 steps_ = 0;
static u64 memCnt = 0, nextPre = ~0ull;
static u64 cnt[K_COUNT];
static std::vector<TraceEnt> rp[K_COUNT];
static size_t rpPos[K_COUNT];
static u64 pctPoints[64];
static u32 nPct = 0;
static bool isPct(u64 st) {
  for (u32 i = 0; i < nPct; i++)
    if (pctPoints[i] == st) return true;
  return false;
}
static u64 pctLow = 1000000;
static Node* imgNode = nullptr;
static u8* pristine = nullptr;
static size_t imgSize = 0;
static std::function<void()> hangFn;
static std::function<std::string(int)> crashFn;
static std::atomic<int> doneFutex{0};

struct Ev {
  u64 t, s;
  std::function<void()> fn;
};
struct EvCmp {
  bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->s > b->s; }
};
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp>* evq;

static long futex(std::atomic<int>* a, int op, int v) {
  return syscall(SYS_futex, (int*)a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0);
}

// ---------------------------------------------------------------- logging / hashing
static inline u64 rotl(u64 x, int r) { return (x << r) | (x >> (64 - r)); }
void mixHash(u64 v) { res->hash = rotl(res->hash ^ (v * 0x9e3779b97f4a7c15ull), 27) * 5 + 0x52dce729; }
void stateHash(u64 v) { res->state = rotl(res->state ^ (v * 0xff51afd7ed558ccdull), 31) * 5 + 0x38495ab5; }
void note(const char* fmt, ...) {
  RtGuard g;
  char buf[700];
  int n = snprintf(buf, 64, "%llu.%06llu n%d t%d ", (unsigned long long)(now_ / SEC), (unsigned long long)(now_ % SEC / 1000),
                   cur ? cur->node->id : -1, cur ? cur->id : -1);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
  for (int i = 0; i < n; i++) mixHash((u8)buf[i]);
  buf[n++] = '\n';
  if (verboseLog && res->nLog + n < MAXLOG) {
    memcpy(res->log + res->nLog, buf, n);
    res->nLog += n;
  }
}
static void bump(NamedCount* t, const char* name) {
  for (u32 i = 0; i < MAXFAULT; i++) {
    if (!t[i].name[0]) {
      strncpy(t[i].name, name, sizeof(t[i].name) - 1);
      t[i].n = 1;
      return;
    }
    if (!strncmp(t[i].name, name, sizeof(t[i].name) - 1)) {
      t[i].n++;
      return;
    }
  }
}
void fault(const char* name) {
  bump(res->faults, name);
  note("fault %s", name);
}
void probe(const char* name) { bump(res->probes, name); }

[[noreturn]] void endRun(int status, const std::string& cls, const std::string& msg) {
  rtDepth++;
  res->status = status;
  strncpy(res->cls, cls.c_str(), sizeof(res->cls) - 1);
  strncpy(res->msg, msg.c_str(), sizeof(res->msg) - 1);
  res->steps = steps_;
  res->mem = memCnt;
  res->vtime = now_;
  u64 d = 0;
  for (u64 c : cnt) d += c;
  res->decisions = d;
  mixHash(steps_);
  mixHash(memCnt);
  mixHash(now_);
  _exit(status == 0 ? 0 : 10 + status);
}
static std::string vfmt(const char* fmt, va_list ap) {
  char b[5000];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
void violation(const std::string& cls, const char* fmt, ...) {
  RtGuard g;
  va_list ap;
  va_start(ap, fmt);
  std::string m = vfmt(fmt, ap);
  note("VIOLATION %s %s", cls.c_str(), m.c_str());
  endRun(1, cls, m);
}
void inconclusive(const char* fmt, ...) {
  RtGuard g;
  va_list ap;
  va_start(ap, fmt);
  endRun(2, "inconclusive", vfmt(fmt, ap));
}
void harnessError(const char* fmt, ...) {
  RtGuard g;
  va_list ap;
  va_start(ap, fmt);
  endRun(3, "harness-error", vfmt(fmt, ap));
}

// ---------------------------------------------------------------- decisions
static void rec(u32 kind, u64 idx, u32 val) {
  if (res->nTrace < MAXTRACE)
    res->trace[res->nTrace++] = {kind, val, idx};
  else
    res->traceOverflow = 1;
}
static u32 replayVal(u32 k, u64 idx) {
  auto& v = rp[k];
  size_t& p = rpPos[k];
  while (p < v.size() && v[p].idx < idx) p++;
  if (p < v.size() && v[p].idx == idx) return v[p++].val;
  return 0;
}
static u32 decide(Kind k, u32 n, u32 v) {  // v: what the random policy wants
  u64 idx = cnt[k]++;
  if (replayMode) v = replayVal(k, idx);
  if (n == 0) return 0;
  v %= n;
  if (v) rec(k, idx, v);
  return v;
}
u32 choose(Kind k, u32 n, u32 pm) {
  RtGuard g;
  if (quiet_ && k != K_SCHED && k != K_USER && k != K_GPU && k != K_DELAY) return 0;
  u32 v = 0;
  if (!replayMode && n > 1 && pm && rng.below(1000) < pm) v = 1 + rng.below(n - 1);
  return decide(k, n, v);
}
bool flip(Kind k, u32 pm) { return choose(k, 2, pm) != 0; }
u64 detRand(u64 salt) { return Rng::mix(runSeed ^ Rng::mix(salt)); }
void quiesce() {
  quiet_ = true;
  net.pShortSend = net.pShortRecv = net.pEintr = net.pDelay = net.pAcceptErr = net.pSockErr = net.pSplit = 0;
  fs.pErr = fs.pShort = fs.pEintrLock = 0;
  sched.pStall = sched.pSpur = 0;
  fs.diskFree = ~0ull;
  note("quiesce");
}
bool quiesced() { return quiet_; }

// ---------------------------------------------------------------- events
void at(u64 t, std::function<void()> fn) {
  RtGuard g;
  evq->push(new Ev{t < now_ ? now_ : t, ++seq_, std::move(fn)});
}
void after(u64 dt, std::function<void()> fn) { at(now_ + dt, std::move(fn)); }
static void fireDue() {
  while (!evq->empty() && evq->top()->t <= now_) {
    Ev* e = evq->top();
    evq->pop();
    e->fn();
    delete e;
  }
}
u64 now() { return now_; }
u64 seq() { return ++seq_; }

// ---------------------------------------------------------------- nodes
Node* newNode(const std::string& name) {
  RtGuard g;
  auto n = std::make_unique<Node>();
  n->id = (int)nodes.size();
  n->name = name;
  if (imgSize) {
    n->img = (u8*)malloc(imgSize);
    memcpy(n->img, pristine, imgSize);
  }
  nodes.push_back(std::move(n));
  return nodes.back().get();
}
Node* nodeById(int id) { return id >= 0 && id < (int)nodes.size() ? nodes[id].get() : nullptr; }
int nodeId(const Node* n) { return n->id; }
bool alive(Node* n) { return n->alive; }
Node* curNode() { return cur->node; }
int curThreadId() { return cur ? cur->id : -1; }
void setEnv(Node* n, const std::string& k, const std::string& v) {
  RtGuard g;
  n->env[k] = v;
}
int liveThreads(Node* n) {
  int c = 0;
  for (auto& t : threads)
    if (t->node == n && (t->st == Thread::RUN || t->st == Thread::BLOCK)) c++;
  return c;
}
std::string threadDump() {
  RtGuard g;
  std::string s;
  for (auto& t : threads)
    if (t->st == Thread::RUN || t->st == Thread::BLOCK) {
      s += " [n" + std::to_string(t->node->id) + " t" + std::to_string(t->id) + " " + t->name + ": " +
           (t->st == Thread::RUN ? "runnable" : t->why) + (t->node->paused ? " paused" : "") + "]";
    }
  return s;
}
void kill(Node* n) {
  RtGuard g;
  if (!n->alive) return;
  n->alive = false;
  note("kill node %d", n->id);
  for (auto& t : threads)
    if (t->node == n && t->st != Thread::FIN) t->st = Thread::DEAD;
  fsKill(n);
  netKill(n);
}
void pauseNode(Node* n) {
  if (n->alive && !n->paused) {
    n->paused = true;
    note("pause node %d", n->id);
  }
}
void resumeNode(Node* n) {
  RtGuard g;
  if (!n->alive || !n->paused) return;
  n->paused = false;
  note("resume node %d", n->id);
  // system calls with socket timeouts fail with EINTR after SIGCONT (signal(7))
  for (auto& t : threads)
    if (t->node == n && t->st == Thread::BLOCK && t->intr) {
      t->st = Thread::RUN;
      t->wakeReason = WK_INTR;
      bump(res->faults, "eintr-sigcont");
    }
}

// ---------------------------------------------------------------- switching
static void loadImg(Node* n) {
  if (n == imgNode || !imgSize) {
    imgNode = n;
    return;
  }
  if (imgNode) memcpy(imgNode->img, __tt_start, imgSize);
  memcpy(__tt_start, n->img, imgSize);
  imgNode = n;
}
static void waitGo(Thread* t) {
  while (t->go.load(std::memory_order_acquire) == 0) futex(&t->go, FUTEX_WAIT, 0);
  t->go.store(0, std::memory_order_relaxed);
}
static void switchTo(Thread* t) {
  Thread* me = cur;
  if (t == me) return;
  mixHash(0x5117c400u + t->id);
  stateHash(t->id * 131 + (u64)(uintptr_t)t->why);
  int d = rtDepth;
  loadImg(t->node);
  cur = t;
  t->go.store(1, std::memory_order_release);
  futex(&t->go, FUTEX_WAKE, 1);
  waitGo(me);
  rtDepth = d;
}
[[noreturn]] static void hang(const char* what) {
  if (hangFn) hangFn();
  violation("hang", "%s; threads:%s", what, threadDump().c_str());
}
void onHang(std::function<void()> fn) { hangFn = std::move(fn); }
void onCrash(std::function<std::string(int)> fn) { crashFn = std::move(fn); }

static bool runnable(Thread* t) { return t->st == Thread::RUN && t->node->alive && !t->node->paused; }

// pick the next thread; k = K_SCHED or K_MEM (then idx/val are given)
static void resched(Kind k) {
  std::vector<Thread*> cand;
  for (;;) {
    fireDue();
    cand.clear();
    size_t n = threads.size();
    for (size_t i = 0; i < n; i++) {
      Thread* t = threads[(cur->id + i) % n].get();
      if (runnable(t)) cand.push_back(t);
    }
    if (!cand.empty()) break;
    if (evq->empty()) hang("no thread can ever run again");
    now_ = std::max(now_, evq->top()->t);
    if (now_ > vtimeCap) hang("virtual time limit reached");
  }
  if (++steps_ > stepCap) inconclusive("step cap");
  u32 n = cand.size();
  u32 want = 0;
  bool curRun = cand[0] == cur;
  if (!replayMode) {
    if (sched.pct) {
      if (curRun && isPct(steps_)) cur->prio = --pctLow;
      u32 best = 0;
      for (u32 i = 1; i < n; i++)
        if (cand[i]->prio > cand[best]->prio) best = i;
      want = best;
      if (!curRun || rng.below(100) < 2) {
        if (rng.below(100) < 4) want = rng.below(n);  // keep it fair enough to make progress
      }
    } else if (n > 1) {
      u32 p = curRun ? sched.pSwitch : 700;
      if (rng.below(1000) < p) want = curRun ? 1 + rng.below(n - 1) : rng.below(n);
    }
  }
  if (k == K_MEM) {  // always recorded: the preemption itself takes time
    if (replayMode)
      want = replayVal(K_MEM, memCnt) % n;
    else
      want = n > 1 ? (want ? want : 1 + rng.below(n - 1)) : 0;
    rec(K_MEM, memCnt, want);
  } else if (n > 1) {
    {
      want = decide(K_SCHED, n, want);
    }
  }
  Thread* t = cand[want % n];
  if (t != cur) switchTo(t);
}
void dieIfDead() {
  if (cur->st == Thread::DEAD || !cur->node->alive) {
    cur->st = Thread::DEAD;
    for (;;) resched(K_SCHED);
  }
}
int block(const void* obj, const char* why, u64 deadline, bool intr) {
  RtGuard g;
  cur->st = Thread::BLOCK;
  cur->waitObj = obj;
  cur->why = why;
  cur->intr = intr;
  cur->wakeReason = WK_OK;
  u64 bs = cur->blockSeq = ++blockSeqGen;
  if (deadline != ~0ull) {
    Thread* t = cur;
    at(deadline, [t, bs] {
      if (t->st == Thread::BLOCK && t->blockSeq == bs) {
        t->st = Thread::RUN;
        t->wakeReason = WK_TIMEOUT;
      }
    });
  }
  resched(K_SCHED);
  dieIfDead();
  cur->waitObj = nullptr;
  cur->intr = false;
  return cur->wakeReason;
}
int wakeAll(const void* obj, Node* n) {
  int c = 0;
  for (auto& t : threads)
    if (t->st == Thread::BLOCK && t->waitObj == obj && (!n || t->node == n)) {
      t->st = Thread::RUN;
      t->wakeReason = WK_OK;
      c++;
    }
  return c;
}
int wakeOne(const void* obj, Node* n) {
  std::vector<Thread*> w;
  for (auto& t : threads)
    if (t->st == Thread::BLOCK && t->waitObj == obj && (!n || t->node == n)) w.push_back(t.get());
  if (w.empty()) return 0;
  u32 i = choose(K_SCHED, w.size(), 500);
  w[i]->st = Thread::RUN;
  w[i]->wakeReason = WK_OK;
  return 1;
}
void schedPoint(u64 cost) {
  if (!rtActive || !cur) return;
  RtGuard g;
  now_ += cost;
  i64 st = ++cur->node->steps;
  if (!cur->node->hooks.empty() && cur->node->hooks.begin()->first <= st) {
    auto fn = std::move(cur->node->hooks.begin()->second);
    cur->node->hooks.erase(cur->node->hooks.begin());
    fn();
    dieIfDead();
  }
  if (sched.pStall && !quiet_) {
    u32 v = 0;
    if (!replayMode && rng.below(100000) < sched.pStall) v = 1 + rng.below(254);
    v = decide(K_STALL, 256, v);
    if (v) {
      fault("thread-stall");
      block(nullptr, "stalled", now_ + std::max<u64>(1000, sched.maxStall * v / 255), false);
      return;
    }
  }
  resched(K_SCHED);
  dieIfDead();
}
void yieldPoint() { schedPoint(); }
void atNodeStep(Node* n, i64 k, std::function<void()> fn) {
  RtGuard g;
  i64 at = n->steps + std::max<i64>(1, k);
  while (n->hooks.count(at)) at++;
  n->hooks[at] = std::move(fn);
}
i64 nodeSteps(Node* n) { return n->steps; }

static void setNextPre() {
  if (replayMode) {
    auto& v = rp[K_MEM];
    size_t& p = rpPos[K_MEM];
    while (p < v.size() && v[p].idx <= memCnt) p++;
    nextPre = p < v.size() ? v[p].idx : ~0ull;
  } else {
    nextPre = sched.memMean ? memCnt + 1 + rng.below(2ull * sched.memMean) : ~0ull;
  }
  if (nextPre > memCap) nextPre = memCap;
}
static void memPreempt() {
  RtGuard g;
  if (memCnt >= memCap) {
    memCap = ~0ull;
    hang("memory access limit reached (livelock)");
  }
  now_ += US;
  resched(K_MEM);
  dieIfDead();
  setNextPre();
}

void sleepFor(u64 ns) {
  block(nullptr, "sleep", now_ + ns, false);
}
bool waitFor(const std::function<bool()>& pred, u64 vt) {
  u64 dl = now_ + vt;
  while (!pred()) {
    if (now_ >= dl) return false;
    block(nullptr, "harness-wait", std::min(dl, now_ + MS), false);
  }
  return true;
}

// ---------------------------------------------------------------- threads
static constexpr uintptr_t STACKBASE = 0x200000000000ull;
static constexpr size_t STACKSZ = 512 * 1024;

static void* trampoline(void* p) {
  Thread* t = (Thread*)p;
  t->atGate.store(1, std::memory_order_release);
  futex(&t->atGate, FUTEX_WAKE, 1);
  waitGo(t);
  // runs with the processor from here on
  rtDepth = 0;
  if (t->cfn)
    t->ret = t->cfn(t->carg);
  else
    t->fn();
  __call_tls_dtors();
  {
    rtDepth = 1;
    t->st = Thread::FIN;
    note("thread %d ends", t->id);
    wakeAll(t);
    resched(K_SCHED);
  }
  for (;;) pause();
  return nullptr;
}
static Thread* mkThread(Node* n, const std::string& name) {
  auto up = std::make_unique<Thread>();
  Thread* t = up.get();
  t->id = (int)threads.size();
  t->node = n;
  t->name = name;
  t->prio = 1000000 + (replayMode ? 0 : rng.below(1000000));
  threads.push_back(std::move(up));
  return t;
}
static void startReal(Thread* t) {
  uintptr_t base = STACKBASE + (uintptr_t)t->id * STACKSZ;
  void* st = mmap((void*)base, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (st != (void*)base) harnessError("stack mmap");
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, st, STACKSZ);
  int r = __real_pthread_create(&t->real, &a, trampoline, t);
  if (r) harnessError("pthread_create %d", r);
  // the C library's start-up code of the thread must not run beside simulated code
  while (t->atGate.load(std::memory_order_acquire) == 0) futex(&t->atGate, FUTEX_WAIT, 0);
  pthread_attr_destroy(&a);
}
Thread* spawn(Node* n, const std::string& name, std::function<void()> fn) {
  RtGuard g;
  if (threads.size() > 900) harnessError("too many threads");
  Thread* t = mkThread(n, name);
  t->fn = std::move(fn);
  startReal(t);
  return t;
}
bool finished(Thread* t) { return t->st == Thread::FIN || t->st == Thread::DEAD || !t->node->alive; }
bool join(Thread* t, u64 vt) {
  u64 dl = now_ + vt;
  while (!finished(t)) {
    if (now_ >= dl) return false;
    block(t, "harness-join", std::min(dl, now_ + 5 * MS), false);
  }
  return true;
}

// ---------------------------------------------------------------- crash handler
static void onSig(int sig, siginfo_t* si, void* uc) {
  rtDepth += 1000;
  const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGTRAP ? "SIGTRAP" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
  std::string cls = std::string("crash-") + nm;
  if (sig == SIGALRM || sig == SIGPROF) {
    res->status = 2;
    strcpy(res->cls, "real-time-limit");
    _exit(12);
  }
  char b[512];
  uintptr_t pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  if (crashFn && cur) {
    std::string c = crashFn(sig);
    if (!c.empty()) cls = c;
  }
  snprintf(b, sizeof b, "%s in node %d (%s) thread %d (%s) pc=%lx", nm, cur ? cur->node->id : -1,
           cur ? cur->node->name.c_str() : "-", cur ? cur->id : -1, cur ? cur->name.c_str() : "-", (unsigned long)pc);
  (void)si;
  note("%s", b);
  endRun(1, cls, b);
}

// before memSwitchRegion(2): the replay tables must not disturb the heap of the run
void loadReplay() {
  for (auto& v : rp) v.clear();
  if (replayMode)
    for (auto& e : replayTrace)
      if (e.kind < K_COUNT) rp[e.kind].push_back(e);
  for (auto& v : rp) std::stable_sort(v.begin(), v.end(), [](const TraceEnt& a, const TraceEnt& b) { return a.idx < b.idx; });
}
// ---------------------------------------------------------------- standard streams
static std::function<void(const LogEnt&)> logFn;
static std::string lineBuf[2];
static int errCount[1024];
static u64 errAt[1024];
struct StreamCk { int which; };
static StreamCk ck0{0}, ck1{1};
static ssize_t outWrite(void* c, const char* b, size_t n) {
  RtGuard g;
  int w = ((StreamCk*)c)->which;
  for (size_t i = 0; i < n; i++) {
    if (b[i] != '\n') {
      lineBuf[w] += b[i];
      continue;
    }
    LogEnt e{cur ? cur->node->id : -1, cur ? cur->id : -1, w, lineBuf[w]};
    lineBuf[w].clear();
    note("%s| %.200s", w ? "stderr" : "stdout", e.text.c_str());
    if (w && cur) errCount[cur->id]++, errAt[cur->id] = now_;
    if (logFn) logFn(e);
  }
  return n;
}
int errorsLogged(int thread) { return errCount[thread]; }
u64 lastErrorAt(int thread) { return errAt[thread]; }
void onLog(std::function<void(const LogEnt&)> fn) { logFn = std::move(fn); }
static void captureStreams() {
  cookie_io_functions_t io{nullptr, outWrite, nullptr, nullptr};
  FILE* o = fopencookie(&ck0, "w", io);
  FILE* e = fopencookie(&ck1, "w", io);
  setvbuf(o, nullptr, _IOFBF, 4096);
  setvbuf(e, nullptr, _IOLBF, 4096);
  stdout = o;
  stderr = e;
}
void startRun(u64 seed, const std::function<void()>& mainFn) {
  static u8 altstack[65536];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = onSig;
  sa.sa_flags = SA_SIGINFO;
  for (int s : {SIGSEGV, SIGABRT, SIGTRAP, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  // per-process futex hashes (Linux >= 6.16) delay the release of the memory of every finished run
  syscall(SYS_prctl, 78 /*PR_FUTEX_HASH*/, 1 /*SET_SLOTS*/, 0, 0, 0);
  ::alarm(200);  // a run is given up after 30 s of processor time, or when the machine hardly runs it
  struct itimerval itv {};
  itv.it_value.tv_sec = 30;
  setitimer(ITIMER_PROF, &itv, nullptr);
  rng.reseed(seed);
  runSeed = seed;
  evq = new std::priority_queue<Ev*, std::vector<Ev*>, EvCmp>();
  nodes.reserve(64);
  threads.reserve(1024);
  now_ = 1000 * SEC;
  vtimeCap += now_;
  res->hash = 0x1234;
  res->status = 9;
  if (__tt_start) imgSize = __tt_end - __tt_start;
  if (imgSize) {
    pristine = (u8*)malloc(imgSize);
    memcpy(pristine, __tt_start, imgSize);
  }
  captureStreams();
  netInit();
  fsInit();
  Node* n0 = newNode("tester");
  Thread* t = mkThread(n0, "tester");
  t->fn = [&] {
    mainFn();
    endRun(0, "", "");
  };
  imgNode = n0;
  startReal(t);
  cur = t;
  rtActive = true;
  rtDepth = 0;
  t->go.store(1);
  futex(&t->go, FUTEX_WAKE, 1);
  for (;;) pause();
}
// called by the scenario once its knobs are set
void armSched() {
  setNextPre();
  if (!replayMode) {
    nPct = 0;
    for (u32 i = 0; i < sched.pct && i < 64; i++) pctPoints[nPct++] = steps_ + rng.below(sched.pctLen);
  }
}

// ---------------------------------------------------------------- access checks
void checkAccess(const void* p, size_t n, bool write, const char* what) {
  if (!rtActive || !inArena(p)) return;
  if (!memLive(p, n)) {
    RtGuard g;
    violation("invalid-memory-access", "%s of %zu bytes at %s in thread %d (%s) of node %d", what, n, memDescribe(p), cur->id,
              cur->name.c_str(), cur->node->id);
  }
  (void)write;
}
}  // namespace sim

using namespace sim;

// ================================================================ instrumentation (compiled-in by -fsanitize=thread)
static inline void acc(const void* p, size_t n, bool w) {
  if (rtDepth || !rtActive) {
    if (gpuExec) gpuAccHook(p, n, w);
    return;
  }
  if (inArena(p) && !memLive(p, n)) checkAccess(p, n, w, w ? "write" : "read");
  else if (__builtin_expect(inDevMem(p), 0)) gpuHostHook(p, n, w);
  else if (__builtin_expect(inMapped(p), 0)) checkMapped(p, n, w ? "write" : "read");
  if (++memCnt >= nextPre) memPreempt();
}
static inline void accAtomic(const volatile void* p, size_t n) {
  if (rtDepth || !rtActive) return;
  if (inArena((const void*)p) && !memLive((const void*)p, n)) checkAccess((const void*)p, n, true, "atomic access");
  ++memCnt;
  schedPoint(50);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                      \
  void __tsan_read##N(void* p) { acc(p, N, false); }                               \
  void __tsan_write##N(void* p) { acc(p, N, true); }                               \
  void __tsan_volatile_read##N(void* p) { acc(p, N, false); }                      \
  void __tsan_volatile_write##N(void* p) { acc(p, N, true); }                      \
  void __tsan_unaligned_read##N(void* p) { acc(p, N, false); }                     \
  void __tsan_unaligned_write##N(void* p) { acc(p, N, true); }                     \
  void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false); }            \
  void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true); }            \
  void __tsan_read##N##_pc(void* p, void*) { acc(p, N, false); }                   \
  void __tsan_write##N##_pc(void* p, void*) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) {
  if (n) acc(p, n, false);
}
void __tsan_write_range(void* p, unsigned long n) {
  if (n) acc(p, n, true);
}
#define AT(N, T)                                                                                       \
  T __tsan_atomic##N##_load(const volatile T* a, int) { accAtomic(a, sizeof(T)); return *a; }          \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); *a = v; }          \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); T o = *a; *a = v; return o; }          \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); T o = *a; *a = o + v; return o; }     \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); T o = *a; *a = o - v; return o; }     \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); T o = *a; *a = o & v; return o; }     \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); T o = *a; *a = o | v; return o; }      \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); T o = *a; *a = o ^ v; return o; }     \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { accAtomic(a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                 \
    accAtomic(a, sizeof(T));                                                                           \
    if (*a == *c) { *a = v; return 1; }                                                                \
    *c = *a;                                                                                           \
    return 0;                                                                                          \
  }                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int f) {               \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, o, f);                                  \
  }                                                                                                    \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                       \
    accAtomic(a, sizeof(T));                                                                           \
    T o = *a;                                                                                          \
    if (o == c) *a = v;                                                                                \
    return o;                                                                                          \
  }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { schedPoint(10); }
void __tsan_atomic_signal_fence(int) {}

// ================================================================ pthread
struct MtxRep {
  int lock;
  unsigned count;
  int owner;
  unsigned nusers;
  int kind;
};
static inline bool inSim() { return rtActive && cur && rtDepth == 0; }

static int mtxLock(MtxRep* m, bool tryOnly, u64 deadline) {
  checkAccess(m, sizeof(MtxRep), true, "mutex lock");
  schedPoint(200);
  RtGuard g;
  int me = cur->id + 1;
  if (m->lock && m->owner == me && (m->kind & 3) == 1) {
    m->count++;
    return 0;
  }
  if (m->lock && m->owner == me) probe("self-deadlock");
  while (m->lock) {
    if (tryOnly) return EBUSY;
    int r = block(m, "mutex", deadline, false);
    if (r == WK_TIMEOUT) return ETIMEDOUT;
    checkAccess(m, sizeof(MtxRep), true, "mutex lock");
  }
  m->lock = 1;
  m->owner = me;
  m->count = 1;
  return 0;
}
static void mtxUnlock(MtxRep* m) {
  RtGuard g;
  checkAccess(m, sizeof(MtxRep), true, "mutex unlock");
  if (m->count > 1) {
    m->count--;
    return;
  }
  m->lock = 0;
  m->owner = 0;
  m->count = 0;
  wakeAll(m, cur->node);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!inSim()) return rtActive ? 0 : 0;
  return mtxLock((MtxRep*)m, false, ~0ull);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!inSim()) return 0;
  return mtxLock((MtxRep*)m, true, ~0ull);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!inSim()) return 0;
  mtxUnlock((MtxRep*)m);
  schedPoint(100);
  return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) {
    int k = 0;
    pthread_mutexattr_gettype(a, &k);
    ((MtxRep*)m)->kind = k & 3;
  }
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

static u64 absToNs(const struct timespec* ts, clockid_t clk) {
  u64 v = (u64)ts->tv_sec * SEC + ts->tv_nsec;
  if (ts->tv_sec < 0) return 0;
  if (clk == CLOCK_REALTIME) {
    i64 off = (i64)1700000000 * (i64)SEC + cur->node->clockSkew;
    i64 r = (i64)v - off;
    return r < 0 ? 0 : (u64)r;
  }
  return v;
}
static int condWait(void* c, MtxRep* m, u64 deadline) {
  checkAccess(c, 8, true, "condition wait");
  schedPoint(200);
  RtGuard g;
  // release and sleep atomically
  mtxUnlock(m);
  int r = WK_OK;
  if (deadline != ~0ull && deadline <= now_)
    r = WK_TIMEOUT, rtDepth++, resched(K_SCHED), dieIfDead(), rtDepth--;
  else if (sched.pSpur && flip(K_SPUR, sched.pSpur)) {
    fault("spurious-wakeup");
    resched(K_SCHED);
    dieIfDead();
  } else
    r = block(c, "condition", deadline, false);
  while (m->lock) {
    block(m, "mutex", ~0ull, false);
  }
  checkAccess(m, sizeof(MtxRep), true, "mutex relock");
  m->lock = 1;
  m->owner = cur->id + 1;
  m->count = 1;
  return r == WK_TIMEOUT ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!inSim()) return 0;
  return condWait(c, (MtxRep*)m, ~0ull);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!inSim()) return ETIMEDOUT;
  return condWait(c, (MtxRep*)m, absToNs(ts, CLOCK_REALTIME));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  if (!inSim()) return ETIMEDOUT;
  return condWait(c, (MtxRep*)m, absToNs(ts, clk));
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!inSim()) return 0;
  checkAccess(c, 8, true, "condition signal");
  schedPoint(200);
  {
    RtGuard g;
    wakeOne(c, cur->node);
  }
  schedPoint(100);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!inSim()) return 0;
  checkAccess(c, 8, true, "condition broadcast");
  schedPoint(200);
  {
    RtGuard g;
    wakeAll(c, cur->node);
  }
  schedPoint(100);
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof *c);
  return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
  if (!inSim()) return 0;
  for (auto& t : threads)
    if (t->st == Thread::BLOCK && t->waitObj == c && t->node == cur->node && t->node->alive) {
      RtGuard g;
      violation("condition-destroyed-with-waiter", "thread %d still waits", t->id);
    }
  return 0;
}
// reader-writer lock (std::shared_mutex): rep {readers, writer}
struct RwRep {
  int readers;
  int writer;
};
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!inSim()) return 0;
  schedPoint(200);
  RtGuard g;
  RwRep* r = (RwRep*)l;
  while (r->writer) block(l, "rwlock", ~0ull, false);
  r->readers++;
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!inSim()) return 0;
  schedPoint(200);
  RtGuard g;
  RwRep* r = (RwRep*)l;
  while (r->writer || r->readers) block(l, "rwlock", ~0ull, false);
  r->writer = 1;
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!inSim()) return 0;
  {
    RtGuard g;
    RwRep* r = (RwRep*)l;
    if (r->writer)
      r->writer = 0;
    else
      r->readers--;
    wakeAll(l, cur->node);
  }
  schedPoint(100);
  return 0;
}
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!rtActive || !cur) return EAGAIN;
  {
    RtGuard g;
    if (threads.size() > 900) inconclusive("too many threads");
    Thread* t = mkThread(cur->node, cur->node->name + "/bg");
    t->cfn = fn;
    t->carg = arg;
    if (a) {
      int ds = 0;
      pthread_attr_getdetachstate(a, &ds);
      t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    startReal(t);
    *out = t->real;
    note("create thread %d", t->id);
  }
  schedPoint(2000);
  return 0;
}
static Thread* byReal(pthread_t p) {
  for (auto& t : threads)
    if (t->real == p) return t.get();
  return nullptr;
}
int __wrap_pthread_join(pthread_t p, void** ret) {
  schedPoint();
  RtGuard g;
  Thread* t = byReal(p);
  if (!t) return ESRCH;
  if (t->detached || t->joined) violation("invalid-join", "join of a detached or joined thread");
  if (t == cur) return EDEADLK;
  while (t->st != Thread::FIN) block(t, "join", ~0ull, false);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t p) {
  schedPoint();
  RtGuard g;
  Thread* t = byReal(p);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*fn)()) {
  int* s = (int*)o;
  if (!inSim()) {
    if (*s != 2) {
      *s = 2;
      fn();
    }
    return 0;
  }
  for (;;) {
    if (*s == 2) return 0;
    if (*s == 0) {
      *s = 1;
      fn();
      *s = 2;
      RtGuard g;
      wakeAll(o, cur->node);
      return 0;
    }
    block(o, "once", ~0ull, false);
  }
}
int __wrap___cxa_guard_acquire(u64* gd) {
  u8* b = (u8*)gd;
  if (b[0]) return 0;
  if (!inSim()) {
    b[1] = 1;
    return 1;
  }
  schedPoint(50);
  while (b[1] && !b[0]) block(gd, "static-guard", ~0ull, false);
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __wrap___cxa_guard_release(u64* gd) {
  u8* b = (u8*)gd;
  b[0] = 1;
  b[1] = 0;
  if (inSim()) {
    RtGuard g;
    wakeAll(gd, cur->node);
  }
}
void __wrap___cxa_guard_abort(u64* gd) {
  ((u8*)gd)[1] = 0;
  if (inSim()) {
    RtGuard g;
    wakeAll(gd, cur->node);
  }
}
int __wrap_sched_yield() {
  schedPoint(2 * US);
  return 0;
}

// ================================================================ time
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
  if (!rtActive || !cur) return __real_clock_gettime(c, ts);
  now_ += 100;
  u64 t = now_;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t = (u64)((i64)t + (i64)1700000000 * (i64)SEC + cur->node->clockSkew);
  ts->tv_sec = t / SEC;
  ts->tv_nsec = t % SEC;
  return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t __wrap_time(time_t* p) {
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
static int doSleep(u64 ns) {
  if (!rtActive || !cur) return 0;
  schedPoint(500);
  block(nullptr, "sleep", now_ + ns + 50 * US, false);
  return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* rem) {
  u64 v = (u64)a->tv_sec * SEC + a->tv_nsec;
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return doSleep(v);
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec*) {
  u64 v = (u64)a->tv_sec * SEC + a->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    u64 t = absToNs(a, c);
    v = t > now_ ? t - now_ : 0;
  }
  return doSleep(v);
}
int __wrap_usleep(unsigned us) { return doSleep((u64)us * 1000); }
unsigned __wrap_sleep(unsigned s) {
  doSleep((u64)s * SEC);
  return 0;
}

// ================================================================ environment, entropy, signals
char* __real_getenv(const char*);
char* __wrap_getenv(const char* k) {
  if (!rtActive || !cur || rtDepth) return __real_getenv(k);
  auto it = cur->node->env.find(k);
  return it == cur->node->env.end() ? nullptr : (char*)it->second.c_str();
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) {
  static u64 n = 0;
  return (unsigned)Rng::mix(entropySeed ^ Rng::mix(++n)) & 0xffffffffu;
}
typedef void (*sigfn)(int);
sigfn __real_signal(int, sigfn);
sigfn __wrap_signal(int s, sigfn f) {
  if (!rtActive || !cur) return __real_signal(s, f);
  if (s == SIGPIPE) cur->node->ignSigpipe = (f == SIG_IGN);
  return SIG_DFL;
}
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
int __wrap_sigaction(int s, const struct sigaction* a, struct sigaction* o) {
  if (!rtActive || !cur || rtDepth) return __real_sigaction(s, a, o);
  if (s == SIGPIPE && a) cur->node->ignSigpipe = (a->sa_handler == SIG_IGN);
  if (o) memset(o, 0, sizeof *o);
  return 0;
}
}
