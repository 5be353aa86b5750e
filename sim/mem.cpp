// deterministic memory: fixed-address arena, liveness shadow, quarantine, fill and layout perturbation
#include <errno.h>
#include <malloc.h>
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
#include "rt.h"

namespace sim {
MemCfg mem;
static constexpr uintptr_t BASE = 0x10000000000ull;
static constexpr size_t RSZ = 1ull << 32;  // per region
static constexpr int NR = 4;
static constexpr uintptr_t SHADOW = 0x18000000000ull;
static constexpr uintptr_t META = 0x1a000000000ull;
struct Meta {
  u32 req_lo;   // requested size (low)
  u32 gran;     // granules incl. red zone
  u32 next;     // free list
  u32 st;       // 1 live, 2 freed, 0 none
};
static u8* const shadow = (u8*)SHADOW;
static Meta* const meta = (Meta*)META;
static bool inited = false;
static int region = 0;
static u64 bump_[NR], liveBytes[NR];
constexpr u32 NCLS = 1024 + 8 * 40;
static u32 freeList[NR][NCLS];
static u64 allocSeq = 0;
struct Q {
  u32 g[8192];
  u32 h, n;
  u64 bytes;
};
static Q quar;

static void init() {
  inited = true;
  auto m = [](uintptr_t a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void*)a) {
      static const char e[] = "arena mmap failed\n";
      (void)!write(2, e, sizeof e - 1);
      _exit(3);
    }
  };
  m(BASE, RSZ * NR);
  m(SHADOW, RSZ * NR / 16);
  m(META, RSZ * NR / 16 * sizeof(Meta));
}
bool inArena(const void* p) { return (uintptr_t)p - BASE < RSZ * NR; }
void memSwitchRegion(int k) {
  region = k;
  quar.h = quar.n = 0;
  quar.bytes = 0;
  allocSeq = 0;
}
static inline u32 clsOf(u32 g, u32& rounded) {
  if (g < 1024) {
    rounded = g;
    return g;
  }
  int b = 31 - __builtin_clz(g);
  u32 step = 1u << (b - 3);
  u32 r = (g + step - 1) & ~(step - 1);
  if (r == (1u << (b + 1))) {
    rounded = r;
    return 1024 + (b + 1 - 10) * 8;
  }
  rounded = r;
  return 1024 + (b - 10) * 8 + ((r >> (b - 3)) & 7);
}
static inline u32 gi(const void* p) { return (u32)(((uintptr_t)p - BASE) >> 4); }
static inline u8* ga(u32 g) { return (u8*)(BASE + ((u64)g << 4)); }

static void shadowSet(u32 g, size_t n) {
  size_t full = n / 16;
  memset(shadow + g, 16, full);
  if (n & 15) shadow[g + full] = n & 15;
}
static void shadowClear(u32 g, size_t n) { memset(shadow + g, 0, (n + 15) / 16); }

bool memLive(const void* p, size_t n) {
  if (!n) return true;
  uintptr_t a = (uintptr_t)p;
  u32 g = gi(p);
  u32 off = a & 15;
  if (off + n <= 16) return shadow[g] >= off + n;
  if (shadow[g] != 16) return false;
  n -= 16 - off;
  g++;
  while (n >= 16) {
    if (shadow[g] != 16) return false;
    g++;
    n -= 16;
  }
  return n == 0 || shadow[g] >= n;
}
const char* memDescribe(const void* p) {
  static char b[160];
  if (!inArena(p)) {
    snprintf(b, sizeof b, "%p", p);
    return b;
  }
  u32 g = gi(p);
  for (u32 i = 0; i < (1u << 20) && i <= g; i++) {
    Meta& m = meta[g - i];
    if (m.st) {
      snprintf(b, sizeof b, "%p: offset %ld of a %s block of %u bytes", p, (long)((uintptr_t)p - (uintptr_t)ga(g - i)),
               m.st == 1 ? "live" : "freed", m.req_lo);
      return b;
    }
  }
  snprintf(b, sizeof b, "%p: unallocated", p);
  return b;
}
u64 memBytesLive() { return liveBytes[region]; }

static void realFree(u32 g) {
  Meta& m = meta[g];
  u32 r;
  u32 c = clsOf(m.gran, r);
  int rg = (int)(((u64)g << 4) / RSZ);
  m.next = freeList[rg][c];
  freeList[rg][c] = g;
}
static void* alloc(size_t n, size_t align, bool zero) {
  if (!inited) init();
  if (n > (1ull << 31)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (rtActive && rtDepth == 0 && mem.failAt >= 0 && mem.failAt-- == 0) {
    errno = ENOMEM;
    return nullptr;
  }
  u32 need = (u32)((n + 15) / 16 + 1);
  if (mem.pad && rtActive) need += (u32)(Rng::mix(mem.fillSeed ^ ++allocSeq) % (mem.pad + 1));
  u32 r;
  u32 c = clsOf(need, r);
  u32 g = 0;
  if (align <= 16) {
    g = freeList[region][c];
    if (g) freeList[region][c] = meta[g].next;
  }
  bool fresh = false;
  if (!g) {
    u64& bp = bump_[region];
    if (!bp) bp = 4096;
    u64 a = bp;
    if (align > 16) a = (a + align - 1) & ~(u64)(align - 1);
    if (a + (u64)r * 16 > RSZ) {
      errno = ENOMEM;
      return nullptr;
    }
    bp = a + (u64)r * 16;
    g = gi((void*)(BASE + (u64)region * RSZ + a));
    fresh = true;
  }
  Meta& m = meta[g];
  m.req_lo = (u32)n;
  m.gran = r;
  m.st = 1;
  shadowSet(g, n ? n : 1);
  liveBytes[region] += n;
  u8* p = ga(g);
  if (zero) {
    if (!fresh) memset(p, 0, n);
  } else if (rtActive && n) {
    switch (mem.fillMode) {
      case 0: if (!fresh) memset(p, 0, n); break;
      case 1: memset(p, mem.fill, n); break;
      case 2: {
        u64 x = Rng::mix(mem.fillSeed ^ ++allocSeq);
        size_t k = 0;
        for (; k + 8 <= n; k += 8) {
          memcpy(p + k, &x, 8);
          x = x * 6364136223846793005ull + 1442695040888963407ull;
        }
        memset(p + k, (int)x, n - k);
        break;
      }
      default: break;
    }
  }
  return p;
}
static void dealloc(void* p) {
  if (!p) return;
  if (!inArena(p)) {
    if (rtActive && cur) violation("invalid-free", "free of %p which is not a heap block", p);
    return;
  }
  u32 g = gi(p);
  Meta& m = meta[g];
  if (((uintptr_t)p & 15) || m.st != 1) {
    if (rtActive && cur) {
      RtGuard gd;
      violation("invalid-free", "free of %s in thread %d (%s) of node %d", memDescribe(p), cur->id, cur->name.c_str(), cur->node->id);
    }
    return;
  }
  int rg = (int)(((u64)g << 4) / RSZ);
  if (rg != region) return;  // blocks of an earlier phase are never reused
  m.st = 2;
  shadowClear(g, m.req_lo ? m.req_lo : 1);
  liveBytes[rg] -= m.req_lo;
  if (rtActive && mem.fillMode != 3) memset(p, 0xDD, m.req_lo < 4096 ? m.req_lo : 4096);
  if (mem.quarantine == 0) {
    realFree(g);
    return;
  }
  u32 cap = mem.quarantine > 8192 ? 8192 : mem.quarantine;
  while (quar.n && (quar.n >= cap || quar.bytes > (64u << 20))) {
    u32 o = quar.g[quar.h];
    quar.h = (quar.h + 1) & 8191;
    quar.n--;
    quar.bytes -= meta[o].req_lo;
    realFree(o);
  }
  quar.g[(quar.h + quar.n) & 8191] = g;
  quar.n++;
  quar.bytes += m.req_lo;
}
}  // namespace sim
using namespace sim;
extern "C" {
void* malloc(size_t n) { return alloc(n, 16, false); }
void free(void* p) { dealloc(p); }
void cfree(void* p) { dealloc(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return alloc(n, 16, true);
}
size_t malloc_usable_size(void* p) { return p && inArena(p) ? meta[gi(p)].req_lo : 0; }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) {
    free(p);
    return nullptr;
  }
  size_t o = malloc_usable_size(p);
  void* q = malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return alloc(n, al, false); }
int posix_memalign(void** out, size_t al, size_t n) {
  if (al < sizeof(void*) || (al & (al - 1))) return EINVAL;
  void* p = alloc(n, al, false);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* valloc(size_t n) { return alloc(n, 4096, false); }
void* pvalloc(size_t n) { return alloc((n + 4095) & ~(size_t)4095, 4096, false); }
void* reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return realloc(p, n);
}

// bulk memory functions called from instrumented code
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
static inline void chk(const void* p, size_t n, bool w, const char* what) {
  if (gpuExec) {
    if (n) gpuAccHook(p, n, w);
    return;
  }
  if (rtActive && rtDepth == 0 && cur && n) {
    if (__builtin_expect(inDevMem(p), 0)) gpuHostHook(p, n, w);
    else if (inArena(p)) {
      if (!memLive(p, n)) checkAccess(p, n, w, what);
    } else if (inMapped(p)) checkMapped(p, n, what);
  }
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  chk(d, n, true, "memcpy write");
  chk(s, n, false, "memcpy read");
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  chk(d, n, true, "memmove write");
  chk(s, n, false, "memmove read");
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  chk(d, n, true, "memset");
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) { return __real_memcmp(a, b, n); }
}
