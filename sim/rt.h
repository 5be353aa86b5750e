// internal interfaces of the simulator
#pragma once
#include <pthread.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <memory>
#include <set>
#include "sim.h"

namespace sim {
extern int rtDepth;
extern bool rtActive;  // a run is in progress
struct RtGuard {
  RtGuard() { ++rtDepth; }
  ~RtGuard() { --rtDepth; }
};

struct Thread {
  int id = 0;
  Node* node = nullptr;
  std::string name;
  pthread_t real{};
  std::atomic<int> go{0};
  std::atomic<int> atGate{0};
  enum St { RUN, BLOCK, FIN, DEAD } st = RUN;
  const void* waitObj = nullptr;
  const char* why = "";
  u64 blockSeq = 0;
  bool intr = false;
  int wakeReason = 0;
  u64 prio = 0;
  bool detached = false, joined = false;
  std::function<void()> fn;
  void* (*cfn)(void*) = nullptr;
  void* carg = nullptr;
  void* ret = nullptr;
};
enum { WK_OK = 0, WK_TIMEOUT = 1, WK_INTR = 2 };

struct Sock;
struct OpenFile;
struct FdEnt {
  std::shared_ptr<Sock> sock;
  std::shared_ptr<OpenFile> file;
};
struct Node {
  int id = 0;
  std::string name;
  bool alive = true, paused = false, ignSigpipe = false;
  u8* img = nullptr;
  std::map<int, FdEnt> fds;
  std::map<std::string, std::string> env;
  i64 fsCount = 0;
  i64 crashCall = -1;
  bool crashBefore = true;
  struct FsFail { i64 call; int err; i64 partial; };
  std::vector<FsFail> fails;
  i64 clockSkew = 0;
  u64 netDelay = 0;
  i64 steps = 0;
  std::map<i64, std::function<void()>> hooks;
};

extern Thread* cur;
extern u64 now_;
extern std::vector<std::unique_ptr<Thread>> threads;
extern std::vector<std::unique_ptr<Node>> nodes;

int block(const void* obj, const char* why, u64 deadline, bool intr);
int wakeAll(const void* obj, Node* n = nullptr);  // n: only waiters of that node
int wakeOne(const void* obj, Node* n = nullptr);
void schedPoint(u64 cost = 1 * US);
void dieIfDead();  // if the current thread's node was killed: never returns
void netKill(Node*);
void fsKill(Node*);
void netInit();
void fsInit();
void checkMapped(const void* p, size_t n, const char* what);
inline bool inMapped(const void* p) { return (uintptr_t)p - 0x300000000000ull < (1ull << 40); }
// simulated devices (dist binary only)
extern bool gpuExec;
extern void (*gpuAccHook)(const void*, size_t, bool);
extern void (*gpuHostHook)(const void*, size_t, bool);
inline bool inDevMem(const void* p) { return (uintptr_t)p - 0x400000000000ull < (1ull << 36) + (1ull << 32); }
void checkAccess(const void* p, size_t n, bool write, const char* what);
[[noreturn]] void endRun(int status, const std::string& cls, const std::string& msg);

// fd helpers
int allocFd(Node*);

// memory
void memSwitchRegion(int k);
bool inArena(const void* p);
const char* memDescribe(const void* p);
extern u64 memSwitchPeak;

// results shared with the supervisor
struct TraceEnt {
  u32 kind;
  u32 val;
  u64 idx;
};
constexpr u32 MAXTRACE = 1 << 17, MAXLOG = 1 << 20, MAXFAULT = 96;
struct NamedCount {
  char name[48];
  u64 n;
};
struct RunResult {
  int status;  // 0 ok, 1 violation, 2 inconclusive, 3 harness error, 9 not finished
  char cls[160];
  char msg[6000];
  u64 hash, steps, mem, vtime, state, decisions;
  NamedCount faults[MAXFAULT];
  NamedCount probes[MAXFAULT];
  u32 nTrace, nLog;
  u32 traceOverflow;
  TraceEnt trace[MAXTRACE];
  char log[MAXLOG];
  u32 nPlan;
  char plan[1 << 18];
};
extern RunResult* res;
extern bool verboseLog;
// replay: decisions given explicitly
extern bool replayMode;
extern std::vector<TraceEnt> replayTrace;
void loadReplay();
void startRun(u64 schedSeed, const std::function<void()>& main);
}  // namespace sim
