// simulated devices: streams, events, device memory, kernels (gpu.cpp) and the collective library (nccl.cpp)
#pragma once
#include "../sim/rt.h"
#include "include/nccl.h"

namespace simgpu {
using namespace sim;
struct Stream;
struct Event;
struct Op {
  u64 seq = 0;
  const char* name = "";
  std::function<void()> run;      // executed at the end of its duration
  std::function<bool()> ready;    // may the operation begin (null: yes)
  std::function<void()> onHead;   // external operation: completes by streamOpDone
  bool external = false;
  u64 base = 3 * US;
};
struct Stream {
  int id, dev;
  Node* node;
  bool nonBlocking = false, destroyed = false, busy = false;
  u64 slow = 0;
  std::deque<Op> q;
  u64 last = 0, done = 0;
};
struct GpuCfg {
  int devices = 2;
  u32 pLag = 0;          // per mille: an operation takes longer
  u64 lagUnit = 20 * US; // lag = v*v*unit, v < 32
  u32 pSlow = 0;         // per mille: a stream is slow as a whole
  u32 pPerm = 0;         // per mille: a kernel's blocks and threads run in a random order
  u32 pPre = 0;          // per cent of those with preemption at memory accesses
  u32 pMallocFail = 0;   // per mille: cudaMalloc fails
  u64 memLimit = 1ull << 30;
};
extern GpuCfg gpu;
Stream* streamOf(cudaStream_t s, int dev = -1);  // null stream of the current device
void enqueue(Stream* s, Op op);
void opDone(Stream* s);  // external operation at the head has completed
void pumpNode(Node* n);
int curDevice();
bool inGpu(const void* p);
bool gpuLive(const void* p, size_t n);
int devOf(const void* p);
Node* ownerOf(const void* p);
void gpuReset();
u64 gpuLiveBytes(Node* n);
u64 kernelsRun();

// collective library
struct NcclCfg {
  u32 pErr = 0;        // per mille: a call returns an error
  u32 pAsync = 0;      // per mille: a communicator fails asynchronously
  u32 pEager = 500;    // per mille: one-sided completion of small messages
  u32 pInProgress = 500;
  u32 pLag = 300;      // per mille: completion lag on a rank
  u64 lagUnit = 20 * US;
};
extern NcclCfg nccl;
void ncclFailCall(Node* n, i64 k, ncclResult_t err);  // the k-th next call of the node fails
i64 ncclCalls(Node* n);
i64 ncclErrors(Node* n);     // errors returned to the node so far
int ncclLiveComms(Node* n);
struct CommInfo { int rank, nranks; bool ready; u64 group; int state; Node* owner; };
std::vector<CommInfo> ncclComms(Node* n);
}  // namespace simgpu
