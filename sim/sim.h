// Deterministic simulator: one process, one seed, one execution.
// Threads of all simulated processes ("nodes") are real pthreads that run one at a time;
// who runs, every delay, every short transfer and every fault is a decision of the simulator.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

constexpr u64 US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;

struct Rng {
  u64 s[2];
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(u64 seed) {
    s[0] = mix(seed);
    s[1] = mix(s[0] ^ 0xabcdef);
  }
  u64 next() {
    u64 a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  bool chance(u32 num, u32 den) { return below(den) < num; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---- plan: what a run does (operations, configuration, scheduled faults); plain text, minimisable ----
struct Line {
  std::string kind;
  std::vector<i64> a;
  i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
  std::map<std::string, i64> knob;
  std::vector<Line> lines;
  i64 k(const std::string& n, i64 d = 0) const {
    auto it = knob.find(n);
    return it == knob.end() ? d : it->second;
  }
  std::string text() const;
  static Plan parse(const std::string&);
};

// ---- decision kinds ----
enum Kind : u8 {
  K_MEM = 0,     // preemption at a memory access
  K_SCHED,       // who runs next at a synchronisation point / system call
  K_STALL,       // thread loses the processor for a while
  K_SPUR,        // spurious condition-variable wake-up
  K_SEND,        // short send
  K_RECV,        // short receive
  K_DELAY,       // delivery delay of a segment
  K_EINTR,       // interrupted system call
  K_NETERR,      // accept/connect/socket failure
  K_DISK,        // file-system call failure or short transfer
  K_GPU,         // progress of simulated device streams
  K_NCCL,        // errors of the simulated collective library
  K_ALLOC,       // failing allocation
  K_USER,        // decisions of a scenario
  K_SPLIT,       // a segment is split, its rest arrives much later
  K_COUNT
};
u32 choose(Kind k, u32 n, u32 pPerMille);  // 0 = default
bool flip(Kind k, u32 pPerMille);          // counted decision
u64 detRand(u64 salt);                     // deterministic pseudo-random value of this run (not a decision)

// ---- faults / probes statistics ----
void fault(const char* name);  // a fault really fired
void probe(const char* name);  // a rare condition was reached
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log (hash + text)
void mixHash(u64 v);
void stateHash(u64 v);  // contributes to the coverage measure

// ---- outcome ----
[[noreturn]] void violation(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void inconclusive(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- nodes (simulated processes) and threads ----
struct Node;
struct Thread;
Node* newNode(const std::string& name);
Node* nodeById(int id);
int nodeId(const Node*);
Thread* spawn(Node* n, const std::string& name, std::function<void()> fn);
bool finished(Thread*);
bool join(Thread*, u64 vtimeout);  // false on timeout
void kill(Node*);                  // SIGKILL: only files survive
void pauseNode(Node*);             // SIGSTOP
void resumeNode(Node*);            // SIGCONT
bool alive(Node*);
int liveThreads(Node*);
std::string threadDump();
void setEnv(Node*, const std::string& k, const std::string& v);
Node* curNode();
int curThreadId();
u64 now();
u64 seq();  // global event sequence number
void sleepFor(u64 ns);
bool waitFor(const std::function<bool()>& pred, u64 vtimeout);  // polls at 1 ms of virtual time
void at(u64 t, std::function<void()> fn);                       // event at absolute virtual time
void after(u64 dt, std::function<void()> fn);
void yieldPoint();
extern int rtDepth;
// scenario code that updates shared records: not preempted inside instrumented templates the linker shares with the library
struct NoPreempt {
  NoPreempt() { ++rtDepth; }
  ~NoPreempt() { --rtDepth; }
};
void quiesce();  // no more faults, stalls or spurious events
bool quiesced();
// a hang (no thread can ever run again) is reported with this class unless a handler decides
void onHang(std::function<void()> fn);
void onCrash(std::function<std::string(int sig)> fn);  // called on SIGSEGV & co: class of the violation

// crash the node at its n-th file-system (or any) call from now; before=true: before it takes effect
struct CrashAt { int node = -1; i64 call = -1; bool before = true; };

// ---- network knobs ----
struct NetCfg {
  u32 pShortSend = 0, pShortRecv = 0, pEintr = 0, pDelay = 0, pAcceptErr = 0, pSockErr = 0, pSplit = 0;
  u64 baseLat = 50 * US, maxDelay = 20 * MS, maxSplit = 3 * SEC;
  u32 window = 65536;
  u32 maxFds = 1 << 20;
};
extern NetCfg net;
void partition(Node* a, Node* b, bool on);
void resetConnections(Node* n);  // every connection of n gets a RST
int openSockets(Node* n);
int openFds(Node* n);
bool portBusy(int port);
// cross-delivery oracle: descriptor operations that hit a connection they were not issued for
struct SchedCfg {
  u32 pSwitch = 100;   // per mille, at sync points
  u32 memMean = 0;     // mean memory accesses between preemptions; 0 = off
  u32 pStall = 0;      // per mille*? see rt.cpp (per 100000)
  u64 maxStall = 50 * MS;
  u32 pSpur = 0;
  u32 pct = 0;         // >0: priority scheduling with that many change points
  u32 pctLen = 20000;
};
extern SchedCfg sched;
extern u64 stepCap, vtimeCap, memCap;
void armSched();  // start preemption at memory accesses (scenario set-up done)

// ---- memory knobs ----
struct MemCfg {
  u8 fill = 0xA5;        // content of fresh memory (mode 1)
  int fillMode = 1;      // 0 zero, 1 constant, 2 pseudo-random, 3 leave recycled content
  u64 fillSeed = 0;
  u32 quarantine = 256;  // freed blocks kept before reuse
  u32 pad = 0;           // layout perturbation: extra granules per block
  i64 failAt = -1;       // fail n-th interposed base allocation
};
extern MemCfg mem;
bool memLive(const void* p, size_t n);
u64 memBytesLive();
extern u64 entropySeed;

// ---- file system ----
struct FsCfg {
  u32 pErr = 0;      // per mille: failing call
  u32 pShort = 0;    // short write/read
  u32 pEintrLock = 0;
  u64 diskFree = ~0ull;  // bytes until ENOSPC
};
extern FsCfg fs;
void crashAtFsCall(Node* n, i64 k, bool before);
void failFsCall(Node* n, i64 k, int err, i64 partial);  // err==0: short transfer of `partial` bytes
i64 fsCalls(Node* n);
int fsFaultsSeen(int thread);  // failing calls injected into that thread so far
bool fsExists(const std::string& path);
bool fsRead(const std::string& path, std::string& out);
void fsWrite(const std::string& path, const std::string& data);
void fsRemove(const std::string& path);
void fsMkdir(const std::string& path);
std::vector<std::string> fsList(const std::string& dir);

void atNodeStep(Node* n, i64 k, std::function<void()> fn);  // runs in the node's context at its k-th next scheduling point
i64 nodeSteps(Node* n);
// ---- output of the code under test (standard streams are captured) ----
struct LogEnt { int node, thread, stream; std::string text; };  // stream 0 stdout, 1 stderr
void onLog(std::function<void(const LogEnt&)> fn);
int errorsLogged(int thread);  // lines written to stderr by a simulated thread
u64 lastErrorAt(int thread);

// ---- checks ----
struct Check {
  std::string id;
  std::string rule;                          // how cases are made and what makes one non-trivial
  std::vector<std::string> real, stub;       // components
  std::function<Plan(Rng&, bool thorough)> gen;
  std::function<void(const Plan&)> exec;     // runs as thread 0
  int quickRuns = 2000, thoroughRuns = 60000;
  int quickSecs = 25, thoroughSecs = 600;
  // optional fixed plans executed first
  std::function<std::vector<Plan>()> fixed;
};
void registerCheck(const Check&);
struct Reg { explicit Reg(const Check& c) { registerCheck(c); } };

}  // namespace sim
