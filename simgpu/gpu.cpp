// simulated devices
#include "gpu.h"

#include <string.h>
#include <sys/mman.h>

#include "include/cublas_v2.h"
#include "include/cuda_bf16.h"

uint3 threadIdx, blockIdx;
dim3 blockDim, gridDim;


namespace simgpu {
GpuCfg gpu;

// ---------------------------------------------------------------- memory
constexpr uintptr_t DBASE = 0x400000000000ull, DSZ = 1ull << 36, PBASE = DBASE + DSZ, PSZ = 1ull << 32, END = PBASE + PSZ;
constexpr uintptr_t SHB = 0x480000000000ull;
static u8* const shadow = (u8*)SHB;
static u64 dbump = 4096, pbump = 4096;
struct Block { size_t n; int dev; Node* node; };
static std::map<uintptr_t, Block>* blocks;
static bool mapped = false;
static void mapAll() {
  if (mapped) return;
  mapped = true;
  auto m = [](uintptr_t a, size_t n) {
    if (mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void*)a)
      harnessError("device memory mmap");
  };
  m(DBASE, DSZ + PSZ);
  m(SHB, (DSZ + PSZ) / 16);
  blocks = new std::map<uintptr_t, Block>();
}
bool inGpu(const void* p) { return (uintptr_t)p - DBASE < DSZ + PSZ; }
static bool pinned(const void* p) { return (uintptr_t)p - PBASE < PSZ; }
bool gpuLive(const void* p, size_t n) {
  if (!n) return true;
  if (!mapped) return false;
  uintptr_t a = (uintptr_t)p - DBASE;
  size_t g = a >> 4, off = a & 15;
  if (off + n <= 16) return shadow[g] >= off + n;
  if (shadow[g] != 16) return false;
  n -= 16 - off;
  g++;
  while (n >= 16) {
    if (shadow[g] != 16) return false;
    g++;
    n -= 16;
  }
  return n == 0 || shadow[g] >= n;
}
static const Block* find(const void* p, uintptr_t* base = nullptr) {
  if (!mapped) return nullptr;
  auto it = blocks->upper_bound((uintptr_t)p);
  if (it == blocks->begin()) return nullptr;
  --it;
  if (base) *base = it->first;
  return (uintptr_t)p < it->first + std::max<size_t>(it->second.n, 1) + 4096 ? &it->second : nullptr;
}
int devOf(const void* p) {
  auto b = find(p);
  return b ? b->dev : -1;
}
Node* ownerOf(const void* p) {
  auto b = find(p);
  return b ? b->node : nullptr;
}
static std::string describe(const void* p) {
  uintptr_t base = 0;
  auto b = find(p, &base);
  char t[160];
  if (b)
    snprintf(t, sizeof t, "offset %ld of a %s of %zu bytes%s", (long)((uintptr_t)p - base), b->dev < 0 ? "pinned block" : "device block",
             b->n, gpuLive(p, 1) ? "" : " (not inside a live block)");
  else
    snprintf(t, sizeof t, "%p", p);
  return t;
}
static void* devAlloc(size_t n, int dev) {
  mapAll();
  u64& bp = dev < 0 ? pbump : dbump;
  u64 lim = dev < 0 ? PSZ : DSZ;
  u64 sz = (n + 511) & ~511ull;
  if (n > gpu.memLimit || bp + sz + 512 > lim) return nullptr;
  uintptr_t a = (dev < 0 ? PBASE : DBASE) + bp;
  bp += sz + 512;
  size_t g = (a - DBASE) >> 4;
  memset(shadow + g, 16, n / 16);
  if (n & 15) shadow[g + n / 16] = n & 15;
  (*blocks)[a] = {n, dev, cur->node};
  if (mem.fillMode == 1)
    memset((void*)a, mem.fill, std::min<size_t>(n, 4 << 20));
  else if (mem.fillMode == 2) {
    u64 x = Rng::mix(mem.fillSeed ^ a);
    for (size_t k = 0; k + 8 <= n && k < (4 << 20); k += 8) {
      memcpy((u8*)a + k, &x, 8);
      x = x * 6364136223846793005ull + 1442695040888963407ull;
    }
  }
  return (void*)a;
}
static bool devFree(void* p) {
  if (!mapped) return false;
  auto it = blocks->find((uintptr_t)p);
  if (it == blocks->end() || !it->second.n) return false;
  size_t n = it->second.n;
  memset(shadow + (((uintptr_t)p - DBASE) >> 4), 0, (n + 15) / 16);
  it->second.n = 0;
  return true;
}
u64 gpuLiveBytes(Node* n) {
  u64 s = 0;
  if (mapped)
    for (auto& b : *blocks)
      if (b.second.node == n) s += b.second.n;
  return s;
}
// address range handed to the device by the host
static void checkRange(const void* p, size_t n, const char* what) {
  if (!n) return;
  if (inGpu(p)) {
    if (!gpuLive(p, n)) violation("invalid-device-access", "%s of %zu bytes at %s", what, n, describe(p).c_str());
  } else if (inArena(p) && !memLive(p, n))
    violation("invalid-memory-access", "%s of %zu bytes at %s", what, n, memDescribe(p));
}

// ---------------------------------------------------------------- fibers
struct Fiber {
  void* sp = nullptr;
  u8* stack = nullptr;
  struct Blk* blk = nullptr;
  u32 tid = 0;
  bool done = true;
};
struct Warp {
  u32 live = 0, arrived = 0;
  u64 gen = 0;
  u8 val[2][32][16];
  u64 valGen[2][32];
  std::vector<Fiber*> waiting;
};
struct Blk {
  uint3 idx{};
  std::vector<u32> order;
  size_t next = 0;
  u32 live = 0;
  std::vector<Fiber*> ready, barrier;
  std::vector<Warp> warps;
  std::vector<std::pair<const void*, u8*>> shared;
  u32 slot = 0, special = 0;  // warp that runs ahead or falls behind
  size_t used = 0;
};
asm(R"(
.text
.globl simgpu_swap
simgpu_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
extern "C" void simgpu_swap(void** save, void* to);
constexpr size_t FSTK = 64 * 1024;
constexpr uintptr_t FBASE = 0x410000000000ull + (1ull << 40);
static std::vector<Fiber*>* freeF;
static u32 nFibers = 0;
static void* mainSp;
static Fiber* curF;
static void (*kBody)(void*);
static void* kArgs;
static Rng krng(1);
static bool kPerm;
static u32 kPreMean, kPick;  // kPick 0: any thread, 1: newest, 2: one warp runs ahead, 3: one warp falls behind
static u64 kPreLeft;
static u64 kTotal = 0;
static bool inKernel = false, lenient = false;
static size_t kDyn;
u64 kernelsRun() { return kTotal; }

struct Off {  // the simulator's own accesses are not those of the kernel
  bool g = gpuExec;
  Off() { gpuExec = false; }
  ~Off() { gpuExec = g; }
};
static inline void setIdx(Fiber* f) {
  u32 t = f->tid;
  threadIdx = {t % blockDim.x, t / blockDim.x % blockDim.y, t / (blockDim.x * blockDim.y)};
  blockIdx = f->blk->idx;
}
static void releaseBarrier(Blk* b) {
  if (b->barrier.empty() || b->barrier.size() < b->live) return;
  for (auto f : b->barrier) b->ready.push_back(f);
  b->barrier.clear();
}
static void releaseWarp(Blk* b, Warp& w) {
  if (w.waiting.empty() || w.arrived < w.live) return;
  w.gen++;
  w.arrived = 0;
  for (auto f : w.waiting) b->ready.push_back(f);
  w.waiting.clear();
}
static void fiberMain() {
  for (;;) {
    Fiber* f = curF;
    Blk* b = f->blk;
    kBody(kArgs);
    Off off;
    b->live--;
    Warp& w = b->warps[f->tid >> 5];
    w.live--;
    releaseBarrier(b);
    releaseWarp(b, w);
    if (b->ready.empty() && b->next < b->order.size() && !(kPerm && krng.below(64) == 0)) {
      f->tid = b->order[b->next++];
      setIdx(f);
      continue;
    }
    f->done = true;
    simgpu_swap(&f->sp, mainSp);
  }
}
static void yieldFiber() {
  Fiber* f = curF;
  simgpu_swap(&f->sp, mainSp);
}
static Fiber* takeFiber() {
  if (!freeF) freeF = new std::vector<Fiber*>();
  if (!freeF->empty()) {
    Fiber* f = freeF->back();
    freeF->pop_back();
    return f;
  }
  Fiber* f = new Fiber();
  uintptr_t base = FBASE + (u64)nFibers++ * FSTK;
  if (mmap((void*)base, FSTK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != (void*)base)
    harnessError("fiber stack");
  f->stack = (u8*)base;
  return f;
}
static void start(Fiber* f) {
  void** sp = (void**)(f->stack + FSTK - 64);
  *--sp = nullptr;
  *--sp = (void*)fiberMain;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  f->done = false;
}
static void resume(Fiber* f) {
  curF = f;
  setIdx(f);
  gpuExec = true;
  simgpu_swap(&mainSp, f->sp);
  gpuExec = false;
  if (f->done) freeF->push_back(f);
  curF = nullptr;
}
static size_t pickReady(Blk* k) {
  size_t n = k->ready.size();
  if (kPick == 1) return krng.below(16) ? n - 1 : krng.below(n);
  if (kPick >= 2) {
    if (k->warps.size() > 1 && krng.below(512) == 0) k->special = (u32)krng.below(k->warps.size());
    size_t from = krng.below(n);
    for (size_t j = 0; j < n; j++) {
      size_t i = from + j < n ? from + j : from + j - n;
      if ((k->ready[i]->tid >> 5 == k->special) == (kPick == 2)) return i;
    }
    return from;
  }
  return krng.below(n);
}
static void runKernel(dim3 g, dim3 b, size_t dyn, void (*body)(void*), void* args, u32 perm) {
  kTotal++;
  u32 nt = b.x * b.y * b.z;
  u64 nb = (u64)g.x * g.y * g.z;
  kBody = body;
  kArgs = args;
  kDyn = dyn;
  krng.reseed(0x6b65726eull + perm);
  kPerm = perm != 0;
  kPreMean = kPerm && krng.below(100) < gpu.pPre ? (krng.below(2) ? 3 : 40) : 0;
  kPreLeft = kPreMean ? 1 + krng.below(2 * kPreMean) : ~0ull;
  kPick = kPerm ? (u32)krng.below(4) : 0;
  if (kPerm) fault("kernel-order-shuffled");
  if (kPreMean) fault("kernel-threads-preempted");
  u32 width = kPerm ? 1 + (u32)krng.below(3) : 1;
  gridDim = g;
  blockDim = b;
  std::vector<u32> bo(nb);
  for (u64 i = 0; i < nb; i++) bo[i] = (u32)i;
  if (kPerm)
    for (u64 i = nb; i > 1; i--) std::swap(bo[i - 1], bo[krng.below(i)]);
  u64 nextB = 0;
  std::vector<std::unique_ptr<Blk>> act;
  inKernel = true;
  u64 guard = 0;
  u32 slots = ~0u;
  for (;;) {
    while (act.size() < width && nextB < nb) {
      auto k = std::make_unique<Blk>();
      u32 id = bo[nextB++];
      k->idx = {id % g.x, id / g.x % g.y, id / (g.x * g.y)};
      k->live = nt;
      k->slot = __builtin_ctz(slots);
      slots &= slots - 1;
      k->order.resize(nt);
      for (u32 i = 0; i < nt; i++) k->order[i] = i;
      if (kPerm) {
        u64 how = krng.below(4);  // any order, reversed, warps permuted, natural
        if (how == 0)
          for (u32 i = nt; i > 1; i--) std::swap(k->order[i - 1], k->order[krng.below(i)]);
        else if (how == 1)
          std::reverse(k->order.begin(), k->order.end());
        else if (how == 2) {
          u32 nw = (nt + 31) / 32, r = (u32)krng.below(nw);
          for (u32 i = 0; i < nt; i++) k->order[i] = (i + r * 32) % nt;
        }
      }
      k->warps.resize((nt + 31) / 32);
      if (kPick >= 2) k->special = krng.below(2) ? 0 : (u32)krng.below(k->warps.size());
      for (size_t i = 0; i < k->warps.size(); i++) {
        k->warps[i].live = std::min<u32>(32, nt - i * 32);
        memset(k->warps[i].valGen, 0, sizeof k->warps[i].valGen);
      }
      act.push_back(std::move(k));
    }
    if (act.empty()) break;
    size_t ai = act.size() > 1 ? krng.below(act.size()) : 0;
    Blk* k = act[ai].get();
    Fiber* f;
    bool un = k->next < k->order.size();
    if (!k->ready.empty() && (!un || (kPerm && krng.below(2)))) {
      size_t i = kPerm ? pickReady(k) : 0;
      f = k->ready[i];
      if (kPerm) {
        k->ready[i] = k->ready.back();
        k->ready.pop_back();
      } else
        k->ready.erase(k->ready.begin());
    } else if (un) {
      f = takeFiber();
      f->blk = k;
      f->tid = k->order[k->next++];
      start(f);
    } else {
      violation("kernel-deadlock", "block %u of a kernel: %u threads never reach the barrier %zu wait at", k->idx.x, k->live, k->barrier.size());
    }
    resume(f);
    if (k->live == 0) {
      slots |= 1u << k->slot;
      act.erase(act.begin() + ai);
      guard = 0;
    }
    if (++guard > 30000000) violation("kernel-livelock", "a kernel does not end");
  }
  inKernel = false;
}
// shared memory: a slot of its own for every running block
constexpr uintptr_t SMBASE = 0x430000000000ull;
constexpr size_t SMSZ = 256 * 1024;
void* sharedVar(const void* key, size_t n) {
  Off off;
  Blk* b = curF->blk;
  for (auto& s : b->shared)
    if (s.first == key) return s.second;
  static bool mp = false;
  if (!mp) {
    mp = true;
    if (mmap((void*)SMBASE, SMSZ * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != (void*)SMBASE)
      harnessError("shared memory");
  }
  if (!key) n = kDyn;
  u8* p = (u8*)SMBASE + b->slot * SMSZ + b->used;
  b->used += (n + 127) & ~63ull;
  if (b->used > SMSZ) violation("shared-memory-exhausted", "%zu bytes of shared memory", b->used);
  memset(p, 0xC7, n);
  b->shared.push_back({key, p});
  return p;
}
void syncThreads() {
  if (!curF) return;
  Off off;
  Blk* b = curF->blk;
  b->barrier.push_back(curF);
  if (b->barrier.size() == b->live && !kPerm) {
    // last one: everybody continues
  }
  releaseBarrier(b);
  yieldFiber();
}
void warpPublish(const void* v, size_t n) {
  Off off;
  Fiber* f = curF;
  Warp& w = f->blk->warps[f->tid >> 5];
  u32 lane = f->tid & 31, par = w.gen & 1;
  memcpy(w.val[par][lane], v, n);
  w.valGen[par][lane] = w.gen + 1;
  w.arrived++;
  w.waiting.push_back(f);
  releaseWarp(f->blk, w);
  yieldFiber();
}
void warpFetch(int lane, void* v, size_t n) {
  if (lane < 0) return;
  Off off;
  Warp& w = curF->blk->warps[curF->tid >> 5];
  u64 g = w.gen - 1;  // the round that has just been completed
  if (w.valGen[g & 1][lane] == g + 1) memcpy(v, w.val[g & 1][lane], n);
}
static void gpuAcc(const void* p, size_t n, bool w) {
  Off off;
  uintptr_t a = (uintptr_t)p;
  if (a - DBASE < DSZ + PSZ) {
    if (!gpuLive(p, n)) {
      violation("invalid-device-access", "%s of %zu bytes at %s by a kernel", w ? "write" : "read", n, describe(p).c_str());
    }
  } else if (inArena(p)) {
    if (inKernel || !memLive(p, n)) {
      violation("kernel-host-access", "%s of %zu bytes of host memory (%s) by a kernel", w ? "write" : "read", n, memDescribe(p));
    }
  } else if (inKernel && a - 0x200000000000ull < (1ull << 32)) {
    violation("kernel-host-access", "%s of %zu bytes of a host stack by a kernel", w ? "write" : "read", n);
  }
  if (inKernel && curF && --kPreLeft == 0) {
    kPreLeft = kPreMean ? 1 + krng.below(2 * kPreMean) : ~0ull;
    curF->blk->ready.push_back(curF);
    yieldFiber();
  }
}
void atomicPoint(const void* p, size_t n) {
  gpuAcc(p, n, true);
}
static void hostAcc(const void* p, size_t n, bool w) {
  if (pinned(p)) {
    if (gpuLive(p, n)) return;
    violation("invalid-memory-access", "%s of %zu bytes at %s by the host", w ? "write" : "read", n, describe(p).c_str());
  }
  violation("host-access-to-device-memory", "%s of %zu bytes at %s by the host", w ? "write" : "read", n, describe(p).c_str());
}
static struct Hooks {
  Hooks() {
    gpuAccHook = gpuAcc;
    gpuHostHook = hostAcc;
  }
} hooks_;

// ---------------------------------------------------------------- streams
struct Dev {
  std::vector<Stream*> streams;
  Stream* null_ = nullptr;
  u64 seq = 0;
};
static std::map<std::pair<int, int>, Dev>* devs_;
static std::set<const void*>* handles;
static thread_local int curDev_ = 0;
static int streamIds = 0;
int curDevice() { return curDev_; }
static Dev& dev(Node* n, int d) {
  if (!devs_) devs_ = new std::map<std::pair<int, int>, Dev>();
  Dev& v = (*devs_)[{n->id, d}];
  if (!v.null_) {
    v.null_ = new Stream();
    v.null_->id = ++streamIds;
    v.null_->dev = d;
    v.null_->node = n;
    v.streams.push_back(v.null_);
  }
  return v;
}
static Stream* check(cudaStream_t s) {
  if (!s) return dev(cur->node, curDev_).null_;
  if (!handles || !handles->count(s)) violation("invalid-stream", "a handle that is no stream is used");
  Stream* t = (Stream*)s;
  if (t->node != cur->node) violation("invalid-stream", "a stream of another process is used");
  return t->destroyed ? nullptr : t;
}
Stream* streamOf(cudaStream_t s, int) { return check(s); }
static bool mayStart(Stream* s) {
  Op& o = s->q.front();
  Dev& d = dev(s->node, s->dev);
  if (s == d.null_) {
    for (auto t : d.streams)
      if (t != s && !t->nonBlocking && !t->q.empty() && t->q.front().seq < o.seq) return false;
  } else if (!s->nonBlocking && !d.null_->q.empty() && d.null_->q.front().seq < o.seq)
    return false;
  return !o.ready || o.ready();
}
static void pump(Stream* s) {
  if (s->busy || s->q.empty() || !s->node->alive || !mayStart(s)) return;
  s->busy = true;
  Op& o = s->q.front();
  u64 lag = 0;
  if (gpu.pLag) {
    u64 v = choose(K_GPU, 32, gpu.pLag);
    if (v) fault("device-operation-slow");
    lag = v * v * gpu.lagUnit;
  }
  after(o.base + lag + s->slow, [s] {
    if (!s->node->alive || s->q.empty()) return;
    Op& o = s->q.front();
    if (o.external) {
      o.onHead();
      return;
    }
    auto fn = std::move(o.run);
    if (fn) fn();
    opDone(s);
  });
}
void pumpNode(Node* n) {
  if (!devs_) return;
  for (auto& d : *devs_)
    if (d.first.first == n->id)
      for (auto s : d.second.streams) pump(s);
}
void opDone(Stream* s) {
  s->done = s->q.front().seq;
  mixHash(0x6bull * s->id + s->done);
  s->q.pop_front();
  s->busy = false;
  wakeAll(s);
  pumpNode(s->node);
}
void enqueue(Stream* s, Op op) {
  RtGuard g;
  Dev& d = dev(s->node, s->dev);
  op.seq = s->last = ++d.seq;
  s->q.push_back(std::move(op));
  pump(s);
}
static bool idleUpTo(Stream* s, u64 seq) { return s->done >= seq || s->q.empty() || s->q.front().seq > seq; }
static void waitSeq(Stream* s, u64 seq, const char* why) {
  while (!idleUpTo(s, seq)) block(s, why, ~0ull, false);
}
void runOnStream(cudaStream_t st, const std::function<void()>& body) {
  schedPoint();
  RtGuard g;
  Stream* s = check(st);
  if (!s) violation("invalid-stream", "operation on a destroyed stream");
  Op o;
  o.name = "host-visible";
  o.run = [&body] {
    gpuExec = lenient = true;
    body();
    gpuExec = lenient = false;
  };
  enqueue(s, std::move(o));
  waitSeq(s, s->last, "device operation");
}
void deviceRead(void* dst, const void* src, size_t n) {
  RtGuard g;
  cudaMemcpy(dst, src, n, cudaMemcpyDeviceToHost);
}
void deviceWrite(void* dst, const void* src, size_t n) {
  RtGuard g;
  cudaMemcpy(dst, src, n, cudaMemcpyHostToDevice);
}
// launch arguments live outside the heap
static constexpr uintptr_t ABASE = 0x420000000000ull + (1ull << 41);
static u64 abump = 0, amapped = 0;
void* argAlloc(size_t n) {
  n = (n + 63) & ~63ull;
  if (abump + n > amapped) {
    RtGuard g;
    size_t chunk = std::max<size_t>(1 << 20, n);
    if (mmap((void*)(ABASE + amapped), chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
      harnessError("argument memory");
    amapped += chunk;
    abump = std::max(abump, amapped - chunk);
  }
  void* p = (void*)(ABASE + abump);
  abump += n;
  return p;
}
static thread_local cudaError_t lastErr = cudaSuccess;
static cudaError_t E(cudaError_t e) {
  if (e != cudaSuccess && e != cudaErrorNotReady) lastErr = e;
  return e;
}
void launchKernel(dim3 g, dim3 b, size_t shmem, cudaStream_t st, void (*body)(void*), void* args) {
  schedPoint(2 * US);
  RtGuard gd;
  u64 nt = (u64)b.x * b.y * b.z;
  if (!g.x || !g.y || !g.z || !nt || nt > 1024 || b.z > 64 || g.y > 65535 || g.z > 65535 || g.x > 2147483647u || shmem > 49152) {
    E(cudaErrorInvalidConfiguration);
    probe("invalid-launch-configuration");
    return;
  }
  Stream* s = check(st);
  if (!s) {
    E(cudaErrorInvalidResourceHandle);
    return;
  }
  if (s->dev != curDev_) {  // launching needs the stream's device to be current
    E(cudaErrorInvalidResourceHandle);
    probe("launch-on-wrong-device");
    return;
  }
  u32 perm = gpu.pPerm ? choose(K_GPU, 4096, gpu.pPerm) : 0;
  Op o;
  o.name = "kernel";
  o.base = 3 * US + (u64)g.x * g.y * g.z * nt / 50;
  o.run = [=] { runKernel(g, b, shmem, body, args, perm); };
  enqueue(s, std::move(o));
}
struct Event {
  Node* node;
  int dev;
  bool destroyed = false;
  u64 ver = 0, done = 0;
};
}  // namespace simgpu
using namespace simgpu;

extern "C" {
cudaError_t cudaGetDeviceCount(int* n) {
  *n = gpu.devices;
  return cudaSuccess;
}
cudaError_t cudaGetDevice(int* d) {
  *d = curDev_;
  return cudaSuccess;
}
cudaError_t cudaSetDevice(int d) {
  if (d < 0 || d >= gpu.devices) return E(cudaErrorInvalidDevice);
  curDev_ = d;
  return cudaSuccess;
}
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d) {
  RtGuard g;
  memset(p, 0, sizeof *p);
  strcpy(p->name, "simulated");
  p->totalGlobalMem = gpu.memLimit;
  p->sharedMemPerBlock = 49152;
  p->regsPerBlock = 65536;
  p->warpSize = 32;
  p->maxThreadsPerBlock = 1024;
  p->maxThreadsDim[0] = p->maxThreadsDim[1] = 1024;
  p->maxThreadsDim[2] = 64;
  p->maxGridSize[0] = 2147483647;
  p->maxGridSize[1] = p->maxGridSize[2] = 65535;
  p->major = 8;
  p->multiProcessorCount = 8;
  return cudaSuccess;
}
cudaError_t cudaGetLastError() {
  cudaError_t e = lastErr;
  lastErr = cudaSuccess;
  return e;
}
cudaError_t cudaPeekAtLastError() { return lastErr; }
const char* cudaGetErrorString(cudaError_t e) { return e == cudaSuccess ? "no error" : "simulated device error"; }
cudaError_t cudaMalloc(void** p, size_t n) {
  schedPoint(5 * US);
  RtGuard g;
  *p = nullptr;
  if (n == 0) return cudaSuccess;
  if (gpu.pMallocFail && flip(K_ALLOC, gpu.pMallocFail)) {
    fault("cudaMalloc-failure");
    return E(cudaErrorMemoryAllocation);
  }
  *p = devAlloc(n, curDev_);
  return *p ? cudaSuccess : E(cudaErrorMemoryAllocation);
}
cudaError_t cudaFree(void* p) {
  schedPoint(5 * US);
  RtGuard g;
  if (!p) return cudaSuccess;
  int d = devOf(p);
  Node* o = ownerOf(p);
  if (o != cur->node) violation("invalid-device-free", "free of %s", describe(p).c_str());
  cudaDeviceSynchronize();
  (void)d;
  if (!devFree(p)) violation("invalid-device-free", "free of %s", describe(p).c_str());
  return cudaSuccess;
}
cudaError_t cudaHostAlloc(void** p, size_t n, unsigned) {
  schedPoint(5 * US);
  RtGuard g;
  *p = n ? devAlloc(n, -1) : nullptr;
  return *p || !n ? cudaSuccess : E(cudaErrorMemoryAllocation);
}
cudaError_t cudaFreeHost(void* p) {
  schedPoint(5 * US);
  RtGuard g;
  if (!p) return cudaSuccess;
  cudaDeviceSynchronize();
  if (!devFree(p)) violation("invalid-free", "cudaFreeHost of %s", describe(p).c_str());
  return cudaSuccess;
}
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st) {
  schedPoint(2 * US);
  RtGuard g;
  if (!n) return cudaSuccess;
  Stream* t = check(st);
  if (!t) return E(cudaErrorInvalidResourceHandle);
  bool dg = inGpu(d) && !pinned(d), sg = inGpu(s) && !pinned(s);
  if (k != cudaMemcpyDefault) {
    bool wd = k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice, ws = k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice;
    if (wd != dg || ws != sg) return E(cudaErrorInvalidValue);
  }
  checkRange(d, n, "copy destination");
  checkRange(s, n, "copy source");
  Op o;
  o.name = "copy";
  o.base = 3 * US + n / 10;
  if (!sg && !inGpu(s)) {  // pageable source: staged before the call returns
    auto b = std::make_shared<std::vector<u8>>((u8*)s, (u8*)s + n);
    o.run = [=] {
      checkRange(d, n, "copy destination");
      memcpy(d, b->data(), n);
    };
    enqueue(t, std::move(o));
  } else {
    o.run = [=] {
      checkRange(d, n, "copy destination");
      checkRange(s, n, "copy source");
      memmove(d, s, n);
    };
    enqueue(t, std::move(o));
    if (!dg && !inGpu(d)) waitSeq(t, t->last, "copy to pageable memory");
  }
  return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) {
  cudaError_t e = cudaMemcpyAsync(d, s, n, k, nullptr);
  if (e == cudaSuccess && n) {
    RtGuard g;
    Stream* t = check(nullptr);
    waitSeq(t, t->last, "cudaMemcpy");
  }
  return e;
}
cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t st) {
  schedPoint(2 * US);
  RtGuard g;
  if (!n) return cudaSuccess;
  Stream* t = check(st);
  if (!t) return E(cudaErrorInvalidResourceHandle);
  if (!inGpu(d)) return E(cudaErrorInvalidValue);
  checkRange(d, n, "memset");
  Op o;
  o.name = "memset";
  o.run = [=] {
    checkRange(d, n, "memset");
    memset(d, v, n);
  };
  enqueue(t, std::move(o));
  return cudaSuccess;
}
cudaError_t cudaMemset(void* d, int v, size_t n) { return cudaMemsetAsync(d, v, n, nullptr); }
cudaError_t cudaStreamCreateWithFlags(cudaStream_t* s, unsigned f) {
  schedPoint(5 * US);
  RtGuard g;
  Dev& d = dev(cur->node, curDev_);
  Stream* t = new Stream();
  t->id = ++streamIds;
  t->dev = curDev_;
  t->node = cur->node;
  t->nonBlocking = f & cudaStreamNonBlocking;
  if (gpu.pSlow) {
    t->slow = choose(K_GPU, 8, gpu.pSlow) * 150 * US;
    if (t->slow) fault("slow-stream");
  }
  d.streams.push_back(t);
  if (!handles) handles = new std::set<const void*>();
  handles->insert(t);
  *s = (cudaStream_t)t;
  return cudaSuccess;
}
cudaError_t cudaStreamCreate(cudaStream_t* s) { return cudaStreamCreateWithFlags(s, 0); }
cudaError_t cudaStreamDestroy(cudaStream_t s) {
  schedPoint(2 * US);
  RtGuard g;
  if (!s) return E(cudaErrorInvalidResourceHandle);
  Stream* t = check(s);
  if (!t) return E(cudaErrorInvalidResourceHandle);
  t->destroyed = true;  // work in flight completes
  return cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t s) {
  schedPoint(2 * US);
  RtGuard g;
  Stream* t = check(s);
  if (!t) return E(cudaErrorInvalidResourceHandle);
  waitSeq(t, t->last, "cudaStreamSynchronize");
  return cudaSuccess;
}
cudaError_t cudaStreamQuery(cudaStream_t s) {
  schedPoint(1 * US);
  RtGuard g;
  Stream* t = check(s);
  if (!t) return E(cudaErrorInvalidResourceHandle);
  return t->q.empty() ? cudaSuccess : cudaErrorNotReady;
}
cudaError_t cudaDeviceSynchronize() {
  schedPoint(2 * US);
  RtGuard g;
  Dev& d = dev(cur->node, curDev_);
  std::vector<std::pair<Stream*, u64>> w;
  for (auto s : d.streams) w.push_back({s, s->last});
  for (auto& p : w) waitSeq(p.first, p.second, "cudaDeviceSynchronize");
  return cudaSuccess;
}
static Event* checkEv(cudaEvent_t e) {
  if (!e || !handles || !handles->count(e)) violation("invalid-event", "a handle that is no event is used");
  Event* v = (Event*)e;
  if (v->node != cur->node) violation("invalid-event", "an event of another process is used");
  return v->destroyed ? nullptr : v;
}
cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) {
  schedPoint(2 * US);
  RtGuard g;
  Event* v = new Event();
  v->node = cur->node;
  v->dev = curDev_;
  if (!handles) handles = new std::set<const void*>();
  handles->insert(v);
  *e = (cudaEvent_t)v;
  return cudaSuccess;
}
cudaError_t cudaEventDestroy(cudaEvent_t e) {
  schedPoint(1 * US);
  RtGuard g;
  Event* v = checkEv(e);
  if (!v) return E(cudaErrorInvalidResourceHandle);
  v->destroyed = true;
  return cudaSuccess;
}
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s) {
  schedPoint(1 * US);
  RtGuard g;
  Event* v = checkEv(e);
  Stream* t = check(s);
  if (!v || !t || v->dev != t->dev) return E(cudaErrorInvalidResourceHandle);
  u64 ver = ++v->ver;
  Op o;
  o.name = "event-record";
  o.base = 500;
  o.run = [v, ver] { v->done = std::max(v->done, ver); };
  enqueue(t, std::move(o));
  return cudaSuccess;
}
cudaError_t cudaStreamWaitEvent_(cudaStream_t s, cudaEvent_t e, unsigned) {
  schedPoint(1 * US);
  RtGuard g;
  Event* v = checkEv(e);
  Stream* t = check(s);
  if (!v || !t) return E(cudaErrorInvalidResourceHandle);
  u64 ver = v->ver;
  if (!ver) return cudaSuccess;
  Op o;
  o.name = "event-wait";
  o.base = 500;
  o.ready = [v, ver] { return v->done >= ver; };
  enqueue(t, std::move(o));
  return cudaSuccess;
}
cudaError_t cudaEventQuery(cudaEvent_t e) {
  schedPoint(1 * US);
  RtGuard g;
  Event* v = checkEv(e);
  if (!v) return E(cudaErrorInvalidResourceHandle);
  return v->done >= v->ver ? cudaSuccess : cudaErrorNotReady;
}
cudaError_t cudaEventSynchronize(cudaEvent_t e) {
  schedPoint(1 * US);
  RtGuard g;
  Event* v = checkEv(e);
  if (!v) return E(cudaErrorInvalidResourceHandle);
  u64 ver = v->ver;
  while (v->done < ver) block(nullptr, "cudaEventSynchronize", now_ + 100 * US, false);
  return cudaSuccess;
}

// ---------------------------------------------------------------- cublas
struct cublasContext {
  Node* node;
  int dev;
  cudaStream_t st;
};
cublasStatus_t cublasCreate(cublasHandle_t* h) {
  schedPoint(50 * US);
  RtGuard g;
  *h = new cublasContext{cur->node, curDev_, nullptr};
  return CUBLAS_STATUS_SUCCESS;
}
cublasStatus_t cublasDestroy(cublasHandle_t h) {
  RtGuard g;
  delete h;
  return CUBLAS_STATUS_SUCCESS;
}
cublasStatus_t cublasSetStream(cublasHandle_t h, cudaStream_t s) {
  RtGuard g;
  h->st = s;
  return CUBLAS_STATUS_SUCCESS;
}
cublasStatus_t cublasSetMathMode(cublasHandle_t, cublasMath_t) { return CUBLAS_STATUS_SUCCESS; }
}
namespace {
float ld(const void* p, size_t i, cudaDataType_t t) {
  if (t == CUDA_R_32F) return ((const float*)p)[i];
  if (t == CUDA_R_16F) return (float)((const __half*)p)[i];
  return (float)((const __nv_bfloat16*)p)[i];
}
void stv(void* p, size_t i, cudaDataType_t t, float v) {
  if (t == CUDA_R_32F) ((float*)p)[i] = v;
  else if (t == CUDA_R_16F) ((__half*)p)[i] = __half(v);
  else ((__nv_bfloat16*)p)[i] = __nv_bfloat16(v);
}
size_t esz(cudaDataType_t t) { return t == CUDA_R_32F ? 4 : 2; }
struct Gemm {
  cublasOperation_t ta, tb;
  int m, n, k;
  float al, be;
  cudaDataType_t at, bt, ct;
  int lda, ldb, ldc;
};
void gemm1(const Gemm& q, const void* A, const void* B, void* C) {
  auto span = [](int rows, int cols, int l) { return (size_t)(cols - 1) * l + rows; };
  if (q.m <= 0 || q.n <= 0) return;
  if (q.k > 0) {
    checkRange(A, (q.ta == CUBLAS_OP_N ? span(q.m, q.k, q.lda) : span(q.k, q.m, q.lda)) * esz(q.at), "matrix A");
    checkRange(B, (q.tb == CUBLAS_OP_N ? span(q.k, q.n, q.ldb) : span(q.n, q.k, q.ldb)) * esz(q.bt), "matrix B");
  }
  checkRange(C, span(q.m, q.n, q.ldc) * esz(q.ct), "matrix C");
  std::vector<float> out((size_t)q.m * q.n);
  for (int j = 0; j < q.n; j++)
    for (int i = 0; i < q.m; i++) {
      float s = 0;
      for (int l = 0; l < q.k; l++) {
        float a = ld(A, q.ta == CUBLAS_OP_N ? (size_t)l * q.lda + i : (size_t)i * q.lda + l, q.at);
        float b = ld(B, q.tb == CUBLAS_OP_N ? (size_t)j * q.ldb + l : (size_t)l * q.ldb + j, q.bt);
        s += a * b;
      }
      float c = q.be == 0.f ? 0.f : q.be * ld(C, (size_t)j * q.ldc + i, q.ct);
      out[(size_t)j * q.m + i] = q.al * s + c;
    }
  for (int j = 0; j < q.n; j++)
    for (int i = 0; i < q.m; i++) stv(C, (size_t)j * q.ldc + i, q.ct, out[(size_t)j * q.m + i]);
}
cublasStatus_t gemmOp(cublasHandle_t h, const Gemm& q, std::function<void()> run) {
  schedPoint(3 * US);
  RtGuard g;
  int ra = q.ta == CUBLAS_OP_N ? q.m : q.k, rb = q.tb == CUBLAS_OP_N ? q.k : q.n;
  if (q.m < 0 || q.n < 0 || q.k < 0 || q.lda < std::max(1, ra) || q.ldb < std::max(1, rb) || q.ldc < std::max(1, q.m)) return CUBLAS_STATUS_INVALID_VALUE;
  Stream* s = check(h->st);
  if (!s) return CUBLAS_STATUS_EXECUTION_FAILED;
  if (s->dev != h->dev || h->node != cur->node) return CUBLAS_STATUS_INVALID_VALUE;
  Op o;
  o.name = "gemm";
  o.base = 5 * US;
  o.run = std::move(run);
  enqueue(s, std::move(o));
  return CUBLAS_STATUS_SUCCESS;
}
}  // namespace
extern "C" {
cublasStatus_t cublasGemmEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al, const void* A,
                            cudaDataType_t at, int lda, const void* B, cudaDataType_t bt, int ldb, const void* be, void* C, cudaDataType_t ct, int ldc,
                            cudaDataType_t, cublasGemmAlgo_t) {
  Gemm q{ta, tb, m, n, k, *(const float*)al, *(const float*)be, at, bt, ct, lda, ldb, ldc};
  return gemmOp(h, q, [=] { gemm1(q, A, B, C); });
}
cublasStatus_t cublasSgemm(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al, const float* A, int lda,
                           const float* B, int ldb, const float* be, float* C, int ldc) {
  return cublasGemmEx(h, ta, tb, m, n, k, al, A, CUDA_R_32F, lda, B, CUDA_R_32F, ldb, be, C, CUDA_R_32F, ldc, CUDA_R_32F, CUBLAS_GEMM_DEFAULT);
}
cublasStatus_t cublasGemmStridedBatchedEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al,
                                          const void* A, cudaDataType_t at, int lda, long long sa, const void* B, cudaDataType_t bt, int ldb,
                                          long long sb, const void* be, void* C, cudaDataType_t ct, int ldc, long long sc, int batch,
                                          cudaDataType_t, cublasGemmAlgo_t) {
  Gemm q{ta, tb, m, n, k, *(const float*)al, *(const float*)be, at, bt, ct, lda, ldb, ldc};
  return gemmOp(h, q, [=] {
    for (int i = 0; i < batch; i++)
      gemm1(q, (const u8*)A + i * sa * (long long)esz(at), (const u8*)B + i * sb * (long long)esz(bt), (u8*)C + i * sc * (long long)esz(ct));
  });
}
cublasStatus_t cublasSgemmStridedBatched(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al,
                                         const float* A, int lda, long long sa, const float* B, int ldb, long long sb, const float* be, float* C,
                                         int ldc, long long sc, int batch) {
  return cublasGemmStridedBatchedEx(h, ta, tb, m, n, k, al, A, CUDA_R_32F, lda, sa, B, CUDA_R_32F, ldb, sb, be, C, CUDA_R_32F, ldc, sc, batch,
                                    CUDA_R_32F, CUBLAS_GEMM_DEFAULT);
}
// the pointer arrays are device memory, read when the operation runs
cublasStatus_t cublasGemmBatchedEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al,
                                   const void* const A[], cudaDataType_t at, int lda, const void* const B[], cudaDataType_t bt, int ldb,
                                   const void* be, void* const C[], cudaDataType_t ct, int ldc, int batch, cudaDataType_t, cublasGemmAlgo_t) {
  Gemm q{ta, tb, m, n, k, *(const float*)al, *(const float*)be, at, bt, ct, lda, ldb, ldc};
  return gemmOp(h, q, [=] {
    if (batch > 0 && !(inGpu(A) && inGpu(B) && inGpu(C))) violation("host-pointer-array", "pointer arrays of a batched product are not device memory");
    checkRange(A, batch * 8, "pointer array");
    checkRange(B, batch * 8, "pointer array");
    checkRange(C, batch * 8, "pointer array");
    for (int i = 0; i < batch; i++) gemm1(q, A[i], B[i], C[i]);
  });
}
cublasStatus_t cublasSgemmBatched(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al,
                                  const float* const A[], int lda, const float* const B[], int ldb, const float* be, float* const C[], int ldc,
                                  int batch) {
  return cublasGemmBatchedEx(h, ta, tb, m, n, k, al, (const void* const*)A, CUDA_R_32F, lda, (const void* const*)B, CUDA_R_32F, ldb, be,
                             (void* const*)C, CUDA_R_32F, ldc, batch, CUDA_R_32F, CUBLAS_GEMM_DEFAULT);
}
}
