// C14, C15: samplers and data loader (compiled with instrumentation: the loader is a header)
#include "Data/DataLoader.h"
#include "Distributed/DistributedSampler.h"
#include "common.h"
#include "tt.h"

using namespace sim;
using namespace tinytorch;
using data::DataLoader;
using distributed::DistributedSampler;
namespace {
void runIn(Node* n, const char* what, const std::function<void()>& fn) {
  if (!join(spawn(n, what, fn), 100000 * SEC) && alive(n)) violation("hang", "%s: %s", what, threadDump().c_str());
}
// random work a process may have done before
void noise(i64 k) {
  if (k & 1) (void)RandomGeneratorCPU::getGenerator()();
  if (k & 2) manualSeed((unsigned long)k * 7);
  for (i64 i = 0; i < (k >> 2) % 5; i++) (void)Tensor::randn({3});
  if (k & 64) data::RandomSampler(5, 3).setEpoch(2);
}
// =================================================================== C14
void execC14(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  size_t n = p.k("n"), R = p.k("replicas", 1);
  bool shuffle = p.k("shuffle", 1), drop = p.k("drop");
  unsigned long seed = p.k("seed");
  int epochs = 1 + p.k("epochs");
  if (n > 1000000) memCap = 1ull << 33;
  armSched();
  std::vector<std::vector<std::vector<size_t>>> got(epochs, std::vector<std::vector<size_t>>(R));
  u64 life = 0;
  auto one = [&](size_t r, int from, bool again) {
    entropySeed = Rng::mix(p.k("ent") * 1000 + ++life);
    Node* nd = newNode("rank" + std::to_string(r));
    runIn(nd, "rank", [&] {
      noise(p.k("noise") * 31 + life * 5);
      DistributedSampler s(n, R, r, shuffle, seed, drop);
      for (int e = from; e < epochs; e++) {
        if (e || p.k("set0")) s.setEpoch(e);
        noise(p.k("noise") * 17 + e);
        auto v = s.indices();
        NoPreempt np;
        if (s.size() != v.size()) violation("wrong-size", "size() %zu, %zu indices", s.size(), v.size());
        if (again && v != got[e][r]) violation("not-reproducible", "rank %zu of %zu computes another shard of %zu for epoch %d after a restart", r, R, n, e);
        got[e][r] = std::move(v);
      }
    });
    kill(nd);
  };
  for (size_t r = 0; r < R; r++) one(r, 0, false);
  for (auto& l : p.lines)
    if (l.kind == "restart") {
      fault("rank-restarted");
      one(l.arg(0) % R, l.arg(1) % epochs, true);
    }
  size_t per = drop ? n / R : (n + R - 1) / R;
  for (int e = 0; e < epochs; e++) {
    std::vector<u8> cnt(n, 0);
    size_t tot = 0;
    for (size_t r = 0; r < R; r++) {
      auto& v = got[e][r];
      if (v.size() != per) violation("wrong-shard-size", "rank %zu of %zu has %zu of %zu samples, expected %zu (drop-last %d)", r, R, v.size(), n, per, drop);
      for (size_t i : v) {
        if (i >= n) violation("invalid-index", "%zu of %zu", i, n);
        if (cnt[i] < 255) cnt[i]++;
        tot++;
      }
    }
    size_t missing = 0, twice = 0;
    for (size_t i = 0; i < n; i++) missing += cnt[i] == 0, twice += cnt[i] > 1;
    if (!drop && missing && n) violation("not-covered", "%zu of %zu indices in no shard (%zu replicas, epoch %d)", missing, n, R, e);
    if (drop && (twice || missing >= R)) violation("not-covered", "drop-last: %zu missing, %zu twice (%zu replicas)", missing, twice, R);
    if (!drop && n && tot - n >= R) violation("too-much-padding", "%zu", tot - n);
    stateHash(tot * 64 + e);
  }
}
Plan genC14(Rng& g, bool) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  s.faults = false;
  genSwarm(g, p, s);
  i64 R = 1 + g.below(g.chance(1, 3) ? 40 : 9), n = g.chance(1, 2) ? g.below(30) : g.below(700);
  p.knob["shuffle"] = g.chance(3, 4);
  p.knob["epochs"] = g.below(4);
  if (g.chance(1, 4)) n = R * (i64)g.below(12) + g.range(-1, 1);
  if (g.chance(1, 2500)) {  // sizes beyond the precision of float
    n = (1 << 24) + (i64)g.below(9);
    p.knob["shuffle"] = 0;
    p.knob["epochs"] = 0;
    R = 1 + g.below(4);
  }
  p.knob["n"] = std::max<i64>(0, n);
  p.knob["replicas"] = R;
  p.knob["drop"] = g.below(2);
  p.knob["seed"] = g.chance(1, 4) ? g.below(1ull << 40) : g.below(100);
  p.knob["ent"] = g.below(1000);
  p.knob["noise"] = g.below(1000);
  p.knob["set0"] = g.below(2);
  int k = g.below(4);
  if (n < 100000)
    for (int i = 0; i < k; i++) p.lines.push_back({"restart", {(i64)g.below(R), (i64)g.below(4)}});
  return p;
}
Reg r14({"C14", "1-40 simulated rank processes with different entropy, different earlier random work and restarts (at any epoch) compute their shards of 0-700 (sometimes 2^24+) samples for several epochs; the shards are compared with the definition and with each other.", {"src/Distributed/DistributedSampler.cpp", "src/Utils/RandomGenerator.cpp"}, {"entropy (simulated)"}, genC14, execC14, 200000, 8000000, 20, 600, [] {
  std::vector<Plan> v;
  for (i64 d = 0; d < 2; d++) {
    Plan p;
    p.knob = {{"n", (1 << 24) + 1 + d * 2}, {"replicas", 2 + d}, {"drop", d}, {"noise", 5}, {"shuffle", 0}};
    v.push_back(p);
  }
  return v;
}});

// =================================================================== C15
struct Toy : data::Dataset {
  size_t n;
  int fields;
  std::vector<u32>* asked;
  Toy(size_t n, int f, std::vector<u32>* a) : n(n), fields(f), asked(a) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override {
    if (i >= n) violation("invalid-index", "sample %zu of %zu requested", i, n);
    if (asked->size() == n) (*asked)[i]++;
    std::vector<Tensor> r;
    r.push_back(Tensor::scalar((int64_t)i, options::dtype(DType::Int64)));
    if (fields > 1) {
      Tensor t(Array1d<float>{(float)i, (float)i * 2, 7.f});
      if (fields > 2) t.reshape_({3, 1});
      r.push_back(t);
    }
    if (fields > 3) r.push_back(Tensor(Array1d<int64_t>{(int64_t)i, (int64_t)i + 1}, options::dtype(DType::Int64)));
    return r;
  }
};
void execC15(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  size_t n = p.k("n"), bs = 1 + p.k("bs");
  bool drop = p.k("drop"), shuffle = p.k("shuffle");
  int kind = p.k("sampler"), fields = 1 + p.k("fields"), lives = 1 + p.k("lives");
  bool big = n > 1000000;
  if (big) memCap = 1ull << 33;
  armSched();
  std::vector<std::vector<size_t>> orders;  // by life
  for (int life = 0; life < lives; life++) {
    entropySeed = Rng::mix(p.k("ent") * 1000 + life);
    Node* nd = newNode("trainer");
    runIn(nd, "trainer", [&] {
      noise(p.k("noise") * 31 + life * 5);
      std::shared_ptr<data::Sampler> smp;
      size_t R = 1 + p.k("replicas");
      switch (kind) {
        case 1: smp = std::make_shared<data::SequentialSampler>(n); break;
        case 2: smp = std::make_shared<data::RandomSampler>(n, (unsigned long)p.k("seed")); break;
        case 3: smp = std::make_shared<DistributedSampler>(n, R, p.k("rank") % R, true, (unsigned long)p.k("seed"), p.k("sdrop")); break;
      }
      if (smp && p.k("epoch")) smp->setEpoch(p.k("epoch"));
      noise(p.k("noise") * 13 + life);
      std::vector<u32> asked(big ? 0 : n, 0);
      auto ds = std::make_shared<Toy>(n, fields, &asked);
      DataLoader dl(ds, bs, smp, shuffle, drop);
      std::vector<size_t> order;
      if (smp) order = smp->indices();
      if (smp && smp->size() != order.size()) violation("wrong-size", "sampler size() %zu, %zu indices", smp->size(), order.size());
      size_t total = smp ? order.size() : n, batches = drop ? total / bs : (total + bs - 1) / bs;
      if (dl.size() != batches) violation("wrong-batch-count", "%zu instead of %zu batches of %zu from %zu samples (drop-last %d)", dl.size(), batches, bs, total, drop);
      if (dl.batchSize() != bs || &dl.dataset() != ds.get()) violation("wrong-accessor", "batchSize");
      if (kind <= 1 || !smp) {
        std::vector<size_t> seq(n);
        for (size_t i = 0; i < n; i++) seq[i] = i;
        if (kind == 1 && order != seq) violation("wrong-order", "sequential sampler");
      }
      for (int pass = 0; pass < (big ? 1 : 2); pass++) {
        std::vector<size_t> seen;
        size_t b = 0;
        std::fill(asked.begin(), asked.end(), 0);
        auto it = dl.begin();
        for (; it != dl.end(); ++it, b++) {
          if (big && b + 3 < batches) continue;
          auto [no, t] = *it;
          size_t want = std::min(bs, total - b * bs);
          if (no != b) violation("wrong-batch-number", "%zu instead of %zu", no, b);
          if ((int)t.size() != std::min(fields, fields > 3 ? 3 : fields > 1 ? 2 : 1)) violation("wrong-batch", "%zu tensors", t.size());
          if (t[0].dim() != 1 || t[0].size(0) != (i64)want) violation("wrong-batch-size", "%lld instead of %zu samples in batch %zu of %zu", (long long)t[0].size(0), want, b, batches);
          auto idx = t[0].toList<int64_t>();
          for (auto i : idx) seen.push_back(i);
          if (fields > 1) {
            auto v = t[1].toList<float>();
            if (v.size() != want * 3 || t[1].dim() != (fields > 2 ? 3 : 2)) violation("wrong-stack", "%zu values", v.size());
            for (size_t i = 0; i < want; i++)
              if (v[i * 3] != (float)idx[i] || v[i * 3 + 1] != (float)idx[i] * 2 || v[i * 3 + 2] != 7.f) violation("wrong-stack", "sample %zu of batch %zu", i, b);
          }
          if (fields > 3) {
            auto v = t[2].toList<int64_t>();
            for (size_t i = 0; i < want; i++)
              if (v[i * 2] != idx[i] || v[i * 2 + 1] != idx[i] + 1) violation("wrong-stack", "sample %zu of batch %zu, third tensor", i, b);
          }
          if (b > batches) violation("too-many-batches", "%zu", b);
        }
        if (b != batches) violation("wrong-batch-count", "%zu batches delivered instead of %zu", b, batches);
        size_t deliver = drop ? batches * bs : total;
        if (big) continue;
        if (seen.size() != deliver) violation("wrong-sample-count", "%zu delivered instead of %zu", seen.size(), deliver);
        if (smp) {
          for (size_t i = 0; i < deliver; i++)
            if (seen[i] != order[i]) violation("wrong-order", "position %zu: sample %zu instead of %zu", i, seen[i], order[i]);
        } else {
          std::set<size_t> u(seen.begin(), seen.end());
          if (u.size() != seen.size()) violation("sample-twice", "%zu distinct of %zu", u.size(), seen.size());
          if (!shuffle)
            for (size_t i = 0; i < deliver; i++)
              if (seen[i] != i) violation("wrong-order", "position %zu: %zu without shuffling", i, seen[i]);
        }
        for (size_t i = 0; i < n; i++) {
          u32 expect = 0;
          for (size_t s : seen) expect += s == i;
          if (n < 300 && asked[i] != expect) violation("sample-read-twice", "sample %zu read %u times, delivered %u times", i, asked[i], expect);
        }
        if (pass == 0) orders.push_back(seen);
        else if (orders.back() != seen) violation("pass-differs", "the second pass over one loader delivers another order");
      }
      stateHash(total * 100 + batches);
    });
    kill(nd);
    if (!big && (kind >= 1 || !shuffle) && orders[life] != orders[0]) violation("not-reproducible", "life %d delivers another order", life);
  }
}
Plan genC15(Rng& g, bool) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  s.faults = false;
  genSwarm(g, p, s);
  i64 n = g.chance(1, 2) ? g.below(30) : g.below(200);
  p.knob["bs"] = g.chance(1, 3) ? g.below(200) : g.below(9);
  if (g.chance(1, 4)) n = (p.knob["bs"] + 1) * (i64)g.below(8) + g.range(-1, 1);
  p.knob["shuffle"] = g.below(2);
  p.knob["sampler"] = g.below(4);
  p.knob["lives"] = g.below(3);
  if (g.chance(1, 2000)) {
    n = (1 << 24) + 1 + (i64)g.below(3);
    p.knob["bs"] = (g.chance(1, 2) ? 1 << 12 : 1000) - 1;
    p.knob["shuffle"] = 0;
    p.knob["sampler"] = g.below(2);
    p.knob["lives"] = 0;
  }
  p.knob["n"] = std::max<i64>(0, n);
  p.knob["drop"] = g.below(2);
  p.knob["fields"] = g.below(4);
  p.knob["replicas"] = g.below(5);
  p.knob["rank"] = g.below(5);
  p.knob["sdrop"] = g.below(2);
  p.knob["epoch"] = g.below(5);
  p.knob["seed"] = g.below(1000);
  p.knob["ent"] = g.below(1000);
  p.knob["noise"] = g.below(1000);
  return p;
}
Reg r15({"C15", "data loaders over 0-200 (sometimes 2^24+) samples with every combination of sampler, shuffle, drop-last and batch sizes around the dataset size are iterated twice in up to three processes with different entropy and earlier random work; batches are compared with the definition.", {"src/Data/DataLoader.h", "src/Data/Sampler.h", "src/Distributed/DistributedSampler.cpp", "src/Operation (stack)", "src/Tensor"}, {"entropy (simulated)"}, genC15, execC15, 200000, 8000000, 20, 600, [] {
  std::vector<Plan> v;
  for (i64 d = 0; d < 2; d++) {
    Plan p;
    p.knob = {{"n", (1 << 24) + 1 + d}, {"bs", d ? 999 : 4095}, {"drop", d}, {"sampler", 1 - d}};
    v.push_back(p);
  }
  return v;
}});
}  // namespace
