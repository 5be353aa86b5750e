// C20: the caching allocator over a system that refuses memory
#include <string.h>
#include <sys/mman.h>

#include <algorithm>

#include "Tensor/CachedAllocator.h"
#include "common.h"

using namespace sim;
using namespace tinytorch;
namespace {
uintptr_t VA;
constexpr u64 VASZ = 1ull << 40, MB = 1 << 20;
struct Live {
  u64 size, id;
  bool freeing = false;
};
struct World {
  std::map<uintptr_t, u64> owned;  // segments held by the allocator
  std::map<uintptr_t, Live> live;  // blocks handed out (in the base's or the cache's memory)
  u64 ownedBytes = 0, budget = ~0ull, top = 4096, ids = 0;
  int refuse = 0;       // base calls to refuse
  u32 pRefuse = 0;
  int gap = 0;
  u64 refusals = 0, grants = 0, returned = 0;
  std::vector<std::pair<uintptr_t, u64>> holes;
  bool quiet = false;   // single thread: exact oracle on retries
  int inAlloc = 0;
  u64 refusedThisCall = 0, lastCallRefused = 0;
  u64 giveBack = 0;
};
World* W;
// true if some live block lies in [a, a+n)
bool hasLive(uintptr_t a, u64 n) {
  auto it = W->live.lower_bound(a);
  if (it != W->live.end() && it->first < a + n) return true;
  return false;
}
struct Base : Allocator {
  void* allocate(int64_t n) override {
    NoPreempt np;
    if (n < 0 || (u64)n > VASZ) {
      W->refusals++, W->refusedThisCall++, W->lastCallRefused = 1;
      fault("alloc-impossible-size");
      return nullptr;
    }
    u64 sz = n;
    bool no = W->ownedBytes + sz > W->budget || W->refuse > 0 || flip(K_ALLOC, W->pRefuse);
    if (W->refuse > 0) W->refuse--;
    if (no) {
      W->refusals++, W->refusedThisCall++, W->lastCallRefused = 1;
      fault("alloc-refused");
      note("system refuses %llu", (unsigned long long)sz);
      return nullptr;
    }
    W->lastCallRefused = 0;
    W->grants++;
    uintptr_t a = 0;
    u64 r = (sz + 31) & ~31ull;
    if (!r) r = 32;
    // reuse returned ranges, so that segments are often neighbours
    if (W->gap != 2)
      for (size_t i = 0; i < W->holes.size(); i++)
        if (W->holes[i].second >= r) {
          a = W->holes[i].first;
          W->holes[i].first += r;
          W->holes[i].second -= r;
          if (!W->holes[i].second) W->holes.erase(W->holes.begin() + i);
          break;
        }
    if (!a) {
      if (W->gap == 1) W->top += 32 * (1 + detRand(W->top) % 5000);
      a = VA + W->top;
      W->top += r;
      if (W->top > VASZ) harnessError("address space used up");
    }
    W->owned[a] = sz;
    W->ownedBytes += sz;
    note("system grants %llu", (unsigned long long)sz);
    return (void*)a;
  }
  void deallocate(void* p) override {
    NoPreempt np;
    auto it = W->owned.find((uintptr_t)p);
    if (it == W->owned.end()) violation("foreign-memory-returned", "%p is returned to the system but was not obtained from it", p);
    u64 n = it->second;
    auto l = W->live.lower_bound(it->first);
    if (l != W->live.end() && l->first < it->first + std::max<u64>(n, 1) && !l->second.freeing)
      violation("live-memory-returned", "a segment of %llu bytes is returned to the system, a block of %llu bytes in it is live", (unsigned long long)n, (unsigned long long)l->second.size);
    W->ownedBytes -= n;
    W->returned++;
    W->owned.erase(it);
    u64 r = (n + 31) & ~31ull;
    W->holes.push_back({(uintptr_t)p, r ? r : 32});
  }
};
// contents: a stamp in the first and last bytes and in some places between
void spots(uintptr_t a, u64 n, u64 id, bool write) {
  auto at = [&](u64 off, u64 len) {
    for (u64 k = 0; k < len; k++) {
      u8 v = (u8)(Rng::mix(id * 1000003 + off + k) >> 11);
      u8* q = (u8*)a + off + k;
      if (write) *q = v;
      else if (*q != v) violation("contents-changed", "byte %llu of a live block of %llu bytes changed", (unsigned long long)(off + k), (unsigned long long)n);
    }
  };
  u64 e = std::min<u64>(n, 24);
  at(0, e);
  if (n > 24) at(n - std::min<u64>(n - 24, 24), std::min<u64>(n - 24, 24));
  for (u64 off = 4096; off + 64 < n; off = off * 3 + 512) at(off, 8);
  if (n > 2048)
    for (u64 off = 512; off + 32 < std::min<u64>(n, 4096); off += 512) at(off, 4);
}
struct Slot {
  uintptr_t p = 0;
  u64 size = 0, id = 0;
};
void exec(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  VA = (uintptr_t)mmap(nullptr, VASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if ((void*)VA == MAP_FAILED) harnessError("mmap");
  World w;
  W = &w;
  w.gap = p.k("gap");
  w.pRefuse = p.k("prefuse");
  int nt = p.k("threads", 1);
  w.quiet = nt == 1;
  std::vector<std::vector<Line>> todo(nt);
  for (auto& l : p.lines) todo[l.arg(0) % nt].push_back(l);
  std::vector<Slot> slots(40);
  Node* n = newNode("proc");
  armSched();
  CachedAllocator* ca = nullptr;
  bool started = false;
  auto put = [&](Slot& s) {  // free a block taken out of its slot
    {
      NoPreempt np;
      spots(s.p, s.size, s.id, false);
      auto it = w.live.find(s.p);
      if (it == w.live.end() || it->second.id != s.id) harnessError("slot table");
      it->second.freeing = true;  // may be reused or returned from now on
      w.live.erase(it);
    }
    ca->deallocate((void*)s.p);
  };
  auto body = [&](int t) {
    for (auto& l : todo[t]) {
      if (l.kind == "alloc") {
        u64 sz = l.arg(2);
        Slot s;
        {
          NoPreempt np;
          std::swap(s, slots[l.arg(1) % slots.size()]);
        }
        if (s.p) put(s);
        u64 ref0, g0;
        {
          NoPreempt np;
          ref0 = w.refusals, g0 = w.grants;
          w.refusedThisCall = w.lastCallRefused = 0;
        }
        void* q = ca->allocate((int64_t)sz);
        NoPreempt np;
        note("allocate %llu -> %s", (unsigned long long)sz, q ? "block" : "failure");
        stateHash((w.grants - g0) * 8 + (w.refusals - ref0) * 2 + (q != nullptr) + w.owned.size() * 64);
        if (!q) {
          probe("allocation-failed");
          if (w.refusals == ref0 && !w.refusedThisCall) violation("failed-without-reason", "allocating %llu bytes failed, the system refused nothing", (unsigned long long)sz);
          if (w.quiet) {
            if (!w.lastCallRefused) violation("failed-without-reason", "allocating %llu bytes failed although the system granted the last request", (unsigned long long)sz);
            if (p.k("nocache") == 0 && !w.owned.empty())
              for (auto& o : w.owned)
                if (!hasLive(o.first, std::max<u64>(o.second, 1)))
                  violation("cache-not-given-back", "allocating %llu bytes failed although %llu bytes of unused cached memory were not given back", (unsigned long long)sz, (unsigned long long)o.second);
            if (w.refusedThisCall < 2 && w.giveBack != w.returned && p.k("nocache") == 0)
              violation("not-retried", "cached memory was given back but the request was not tried again");
          }
          w.giveBack = w.returned;
          continue;
        }
        w.giveBack = w.returned;
        uintptr_t a = (uintptr_t)q;
        if (a % 32) violation("misaligned", "block at offset %llu modulo 32", (unsigned long long)(a % 32));
        u64 len = std::max<u64>(sz, 1);
        auto o = w.owned.upper_bound(a);
        bool in = false;
        if (o != w.owned.begin()) {
          --o;
          in = sz ? a + sz <= o->first + o->second : a <= o->first + o->second;
        }
        if (!in) violation("outside-owned-memory", "a block of %llu bytes is not inside memory obtained from the system", (unsigned long long)sz);
        auto nx = w.live.lower_bound(a);
        if (nx != w.live.end() && nx->first < a + len) violation("overlap", "a new block of %llu bytes overlaps a live block of %llu bytes", (unsigned long long)sz, (unsigned long long)nx->second.size);
        if (nx != w.live.begin()) {
          auto pv = std::prev(nx);
          if (pv->first + std::max<u64>(pv->second.size, 1) > a) violation("overlap", "a new block of %llu bytes overlaps a live block of %llu bytes", (unsigned long long)sz, (unsigned long long)pv->second.size);
        }
        u64 id = ++w.ids;
        w.live[a] = {sz, id};
        spots(a, sz, id, true);
        Slot& d = slots[l.arg(1) % slots.size()];
        Slot old = d;
        d = {a, sz, id};
        if (old.p) {  // another thread filled it meanwhile
          --rtDepth;
          put(old);
          ++rtDepth;
        }
      } else if (l.kind == "free") {
        Slot s;
        {
          NoPreempt np;
          std::swap(s, slots[l.arg(1) % slots.size()]);
        }
        if (s.p) put(s);
      } else if (l.kind == "budget") {
        w.budget = l.arg(2) < 0 ? ~0ull : w.ownedBytes + l.arg(2);
      } else if (l.kind == "refuse") {
        w.refuse = l.arg(2);
      } else if (l.kind == "cache") {
        CachedAllocator::setCacheEnabled(l.arg(2));
        probe(l.arg(2) ? "cache-switched-on" : "cache-switched-off");
      } else if (l.kind == "verify") {
        NoPreempt np;
        for (auto& s : slots)
          if (s.p) spots(s.p, s.size, s.id, false);
      }
    }
  };
  auto* first = spawn(n, "thread0", [&] {
    ca = new CachedAllocator(std::make_unique<Base>());
    if (p.k("nocache")) CachedAllocator::setCacheEnabled(false);
    started = true;
    body(0);
  });
  std::vector<Thread*> ts{first};
  for (int t = 1; t < nt; t++)
    ts.push_back(spawn(n, "thread" + std::to_string(t), [&, t] {
      waitFor([&] { return started; }, 100 * SEC);
      body(t);
    }));
  for (auto* t : ts)
    if (!join(t, 100000 * SEC)) violation("hang", "%s", threadDump().c_str());
  auto* last = spawn(n, "end", [&] {
    w.budget = ~0ull, w.refuse = 0, w.pRefuse = 0;
    for (auto& s : slots)
      if (s.p) spots(s.p, s.size, s.id, false);
    // after the faults every request succeeds again
    for (u64 sz : {(u64)1, 3 * MB, 30 * MB}) {
      void* q = ca->allocate(sz);
      if (!q) violation("failed-without-reason", "allocating %llu bytes failed although the system grants everything again", (unsigned long long)sz);
      w.live[(uintptr_t)q] = {sz, ++w.ids};
      slots.push_back({(uintptr_t)q, sz, w.ids});
      spots((uintptr_t)q, sz, w.ids, true);
    }
    u64 x = p.k("order");
    for (size_t i = 0; i < slots.size(); i++) std::swap(slots[i], slots[i + (x = Rng::mix(x)) % (slots.size() - i)]);
    for (auto& s : slots)
      if (s.p) put(s);
    delete ca;
    if (!w.owned.empty()) violation("memory-not-returned", "%zu segments (%llu bytes) were not returned to the system when the allocator was destroyed", w.owned.size(), (unsigned long long)w.ownedBytes);
  });
  if (!join(last, 100000 * SEC)) violation("hang", "%s", threadDump().c_str());
}
i64 size(Rng& g) {
  static const i64 edge[] = {0, 1, 511, 512, 513, 1024, MB - 512, MB - 1, MB, MB + 1, MB + 512, 2 * MB, 10 * MB - 1, 10 * MB, 10 * MB + 1, 12 * MB, 19 * MB, 20 * MB - 1, 20 * MB, 20 * MB + 1, 22 * MB, 40 * MB};
  switch (g.below(5)) {
    case 0: return edge[g.below(22)];
    case 1: return g.below(4000);
    case 2: return g.below(2 * MB);
    case 3: return g.below(24 * MB);
    default: return (i64)512 * (i64)g.below(3000);
  }
}
Plan gen(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  genSwarm(g, p, s);
  int nt = g.chance(1, 3) ? 2 + g.below(3) : 1;
  if (nt == 1) p.knob.erase("mem");
  p.knob["threads"] = nt;
  p.knob["gap"] = g.below(3);
  p.knob["order"] = g.below(1000000);
  if (g.chance(1, 12)) p.knob["nocache"] = 1;
  if (g.chance(1, 3)) p.knob["prefuse"] = 1 + g.below(400);
  bool toggles = g.chance(1, 4), small = g.chance(1, 3);
  if (toggles) p.knob["nocache"] = 2;  // no statement about cached memory once the cache was off
  int k = 5 + g.below(thorough ? 300 : 120), nslots = 2 + g.below(39);
  for (int i = 0; i < k; i++) {
    i64 t = g.below(nt);
    switch (g.below(20)) {
      case 0: p.lines.push_back({"budget", {t, 0, g.chance(1, 3) ? -1 : (i64)g.below(60 * MB)}}); break;
      case 1: if (g.chance(1, 2)) p.lines.push_back({"refuse", {t, 0, (i64)g.below(4)}}); break;
      case 2: p.lines.push_back({"verify", {t}}); break;
      case 3:
        if (toggles) p.lines.push_back({"cache", {t, 0, (i64)g.below(2)}});
        else if (g.chance(1, 5)) p.lines.push_back({"alloc", {t, (i64)g.below(nslots), g.chance(1, 2) ? INT64_MAX - (i64)g.below(3000) : (1ll << 41) + (i64)g.below(1000000)}});
        break;
      case 4:
      case 5:
      case 6:
      case 7:
      case 8:
      case 9: p.lines.push_back({"free", {t, (i64)g.below(nslots)}}); break;
      default: p.lines.push_back({"alloc", {t, (i64)g.below(nslots), small ? (i64)g.below(300000) : size(g)}});
    }
  }
  return p;
}
Reg r({"C20", "1-4 threads make 5-125 allocations and frees of 0 bytes to 40 MB (and impossible sizes) over a system that refuses single requests, is limited to a changing number of bytes or refuses at random, hands out neighbouring or scattered segments, with the cache switched on and off meanwhile; every block is compared with a model of owned and live memory and its contents are checked.", {"src/Tensor/CachedAllocator.cpp", "src/Tensor/CachedAllocator.h"}, {"system memory (recording base allocator)"}, gen, exec, 200000, 8000000, 20, 600, {}});
}  // namespace
