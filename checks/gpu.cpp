// C24: tensor programs on a simulated device against the same program on the CPU, under seeded orders of blocks, warps and threads
#define VM_GPU
#include "tensor.cpp"

#include "../simgpu/gpu.h"
#include "Utils/CUDAUtils.h"

namespace {
struct HostVal {
  Sh sh;
  DType dt;
  std::vector<double> v;
  std::vector<u8> raw;
};
HostVal host(const Tensor& t0) {
  Tensor t = t0.device().isCpu() ? t0 : t0.to(Device::cpu());
  NoPreempt np;
  HostVal h{shapeOf(t), t.dtype(), {}, {}};
  i64 n = t.numel();
  const u8* p = (const u8*)((const Tensor&)t).dataPtr<void>();
  h.raw.assign(p, p + n * dtypeSize(t.dtype()));
  h.v.resize(n);
  for (i64 i = 0; i < n; i++) switch (t.dtype()) {
      case DType::Float32: h.v[i] = ((const float*)p)[i]; break;
      case DType::Float16: h.v[i] = (float)((const Half*)p)[i]; break;
      case DType::BFloat16: h.v[i] = (float)((const BFloat16*)p)[i]; break;
      case DType::Int32: h.v[i] = ((const int32_t*)p)[i]; break;
      case DType::Int64: h.v[i] = (double)((const int64_t*)p)[i]; break;
      default: h.v[i] = p[i]; break;
    }
  return h;
}
constexpr double BOUND = 8;  // operands in the pool are at most this
double epsOf(DType d) { return d == DType::Float32 ? 1.2e-7 : d == DType::Float16 ? 9.8e-4 : d == DType::BFloat16 ? 7.9e-3 : 0; }
const char* dtName(DType d) { return d == DType::Float32 ? "float" : d == DType::Float16 ? "half" : d == DType::BFloat16 ? "bfloat16" : d == DType::Bool ? "bool" : "integer"; }
// empty when the device's result is the CPU's up to rounding
std::string differs(const VM::Out& c, const HostVal& a, const VM::Out& g, const HostVal& b) {
  if (a.sh != b.sh || a.dt != b.dt) return "shape " + shText(b.sh) + dtName(b.dt) + " on the device, " + shText(a.sh) + dtName(a.dt) + " on the CPU";
  if (a.raw == b.raw) return "";
  char t[300];
  if (c.src.defined()) {  // positions may differ where the values are equal
    HostVal s = host(c.src);
    i64 n = s.v.size(), inner = 1, len = n;
    if (c.dim != -100) {
      i64 d = c.dim < 0 ? c.dim + s.sh.size() : c.dim;
      len = s.sh.empty() ? 1 : s.sh[d];
      for (size_t i = d + 1; i < s.sh.size(); i++) inner *= s.sh[i];
    }
    i64 per = a.v.size() / std::max<i64>(1, n / len);  // indices per reduced line
    for (size_t i = 0; i < a.v.size(); i++)
      if (a.v[i] != b.v[i]) {
        i64 o = c.dim == -100 ? 0 : (i64)i / (inner * per), in = c.dim == -100 ? 0 : (i64)i % inner;
        i64 ka = a.v[i], kb = b.v[i];
        if (kb < 0 || kb >= len || s.v[o * len * inner + ka * inner + in] != s.v[o * len * inner + kb * inner + in]) {
          snprintf(t, sizeof t, "index %zu is %lld on the device, %lld on the CPU (of %lld)", i, (long long)kb, (long long)ka, (long long)len);
          return t;
        }
      }
    return "";
  }
  double eps = epsOf(a.dt), big = 0;
  for (double x : a.v)
    if (std::isfinite(x)) big = std::max(big, std::fabs(x));
  for (size_t i = 0; i < a.v.size(); i++) {
    double x = a.v[i], y = b.v[i];
    if (x == y || (std::isnan(x) && std::isnan(y))) continue;
    double tol = 24 * eps * std::fabs(x) + 8 * eps * BOUND + (c.scale ? (4e-7 + (eps > 1e-6 ? eps / 8 : 0)) * c.scale : 0);
    // around the largest number of the type
    double lim = a.dt == DType::Float16 ? 65504. : 3.38e38;
    if ((std::isinf(x) && std::fabs(y) > lim * 0.98) || (std::isinf(y) && std::fabs(x) > lim * 0.98)) continue;
    if (!(std::fabs(x - y) <= tol)) {
      snprintf(t, sizeof t, "%s element %zu of %s is %.9g on the device, %.9g on the CPU (tolerance %.3g, largest %.3g)", dtName(a.dt), i, shText(a.sh).c_str(), y, x, tol, big);
      return t;
    }
  }
  return "";
}
// both pools hold the CPU's values, bounded
bool tame(HostVal& h, double bound) {
  bool ch = false;
  for (size_t i = 0; i < h.v.size(); i++)
    if (!(std::fabs(h.v[i]) <= bound)) h.v[i] = (double)((i64)(Rng::mix(i * 7 + 1) % 4001) - 2000) / 777., ch = true;
  return ch;
}
// a sequence of draws from one seed: repeatable, without repetitions, of the distribution asked for
void drawSequence(const Line& l, unsigned long seed) {
  auto a = [&](size_t i) -> u64 { return l.a[i]; };
  int kind = a(0) % 9, reps = 2 + a(1) % 3;
  i64 n = a(2) % 4 == 0 ? 1 + a(2) / 4 % 40 : 200 + a(2) / 4 % 2500, cats = a(3) % 3 ? 3000 + a(3) / 3 % 2000 : 40;
  static const char* names[] = {"uniform", "normal", "bernoulli", "dropout", "multinomial", "multinomial without replacement", "batched multinomial", "in place uniform", "sparse multinomial"};
  const char* what = names[kind];
  i64 k = kind == 5 || kind == 6 ? 30 : 60, batch = 2 + a(4) % 3;
  auto once = [&] {
    std::vector<HostVal> r;
    manualSeed(seed);
    for (int i = 0; i < reps; i++) {
      Tensor t;
      switch (kind) {
        case 0: t = Tensor::rand({n}); break;
        case 1: t = Tensor::randn({n}); break;
        case 2: t = Tensor::bernoulli({n}, 0.3f); break;
        case 3: t = op::dropout(Tensor::ones({n}), 0.6f); break;
        case 4: t = function::multinomial(Tensor::ones({cats}), k, true); break;
        case 5: t = function::multinomial(Tensor::ones({cats}), k, false); break;
        case 6: t = function::multinomial(Tensor::ones({batch, cats}), k, a(4) & 8); break;
        case 7:
          t = Tensor::zeros({n});
          t.fillUniform_(-3.f, -1.f);
          break;
        default: {
          std::vector<float> w(cats, 0.f);
          for (i64 j = 0; j < cats; j++) w[j] = (j * 7 + (i64)a(4)) % 5 < 2 ? 1.f : 0.f;
          t = function::multinomial(Tensor(w), 10, a(4) & 8);
        }
      }
      r.push_back(host(t));
      NoPreempt np;
      for (u8 b : r.back().raw) stateHash(b);
    }
    return r;
  };
  std::vector<HostVal> x = once(), y = once();
  NoPreempt np;
  for (int i = 0; i < reps; i++) {
    if (x[i].raw != y[i].raw) violation("seeded-draws-differ", "%s: draw %d after the same seed gives different values", what, i);
    auto& v = x[i].v;
    i64 m = v.size();
    double lo = kind == 7 ? -3 : kind == 1 ? -9 : 0, hi = kind == 0 ? 1 : kind == 1 ? 9 : kind == 2 ? 1 : kind == 3 ? 1 / 0.6 + 1e-5 : kind == 7 ? -1 : cats - 1, sum = 0;
    for (double e : v) {
      if (!(e >= lo - 1e-6 && e <= hi + 1e-6)) violation("draw-out-of-range", "%s: %g is not between %g and %g", what, e, lo, hi);
      if ((kind == 2 && e != 0 && e != 1) || (kind == 3 && e != 0 && e < 1.6)) violation("draw-out-of-range", "%s: %g", what, e);
      if (kind == 8 && ((i64)e * 7 + (i64)a(4)) % 5 >= 2) violation("draw-out-of-range", "%s: category %g has no weight", what, e);
      sum += e;
    }
    double mean = kind == 0 ? 0.5 : kind == 1 ? 0 : kind == 2 ? 0.3 : kind == 3 ? 1 : kind == 7 ? -2 : (cats - 1) / 2.;
    double sd = kind == 0 ? 0.2887 : kind == 1 ? 1 : kind == 2 ? 0.4583 : kind == 3 ? 0.8165 : kind == 7 ? 0.5774 : cats * 0.2887;
    if (kind != 8 && !(std::fabs(sum / m - mean) <= 7 * sd / std::sqrt(m) + 1e-6)) violation("draw-biased", "%s: mean of %lld values is %g, expected %g", what, (long long)m, sum / m, mean);
    bool cont = kind == 0 || kind == 1 || kind == 7, wide = kind >= 4 && kind <= 6 && cats >= 3000;
    if (cont || kind == 5) {
      std::set<double> d(v.begin(), v.end());
      if ((i64)d.size() + (cont ? 3 + m / 500 : 0) < m) violation("draws-repeat", "%s: only %zu different values of %lld", what, d.size(), (long long)m);
    }
    if ((cont && m >= 8) || (wide && m >= 20))
      for (int j = 0; j < reps; j++)
        for (i64 s = i == j ? 1 : 0; s < std::min<i64>(m - 6, 64); s++) {
          // values of draw i from position s on against those of draw j: near misses come from categories already taken
          i64 same = 0;
          for (i64 q = s; q < m; q++) same += std::fabs(v[q] - x[j].v[q - s]) <= (cont ? 0 : 2. * k);
          if (same >= 6 && same * 10 >= (m - s) * 9) violation("draws-repeat", "%s: draw %d from element %lld on repeats draw %d", what, i, (long long)s, j);
        }
    if (kind == 2 || kind == 3)  // a hundred coin flips never agree by chance
      for (int j = 0; j < reps; j++)
        for (i64 s = i == j ? 1 : 0; s < 64 && m - s >= 100; s++) {
          i64 q = s;
          while (q < m && v[q] == x[j].v[q - s]) q++;
          if (q == m) violation("draws-repeat", "%s: draw %d from element %lld on repeats draw %d", what, i, (long long)s, j);
        }
  }
}
void execC24(const Plan& p) {
  applySwarm(p);
  simgpu::gpu.pLag = p.k("glag");
  simgpu::gpu.lagUnit = p.k("glagu", 20) * US;
  simgpu::gpu.pSlow = p.k("gslow");
  simgpu::gpu.pPerm = p.k("gperm");
  simgpu::gpu.pPre = p.k("gpre");
  MAXN = p.k("maxn", 4096);
  static std::string cur;
  cur = "start";
  onCrash([](int) { return "crash in " + cur; });
  armSched();
  Node* nd = newNode("process");
  auto body = [&] {
    const Device cpu = Device::cpu();
    const Device dev(DeviceType::CUDA, (DeviceIndex)p.k("dev"));
    cuda::setDevice(dev.index);
    CachedAllocator::setCacheEnabled(p.k("cache"));
    VM C, G;
    int lineNo = 0;
    auto run = [&](VM& m, const Line& l, const Named* f, bool onDev) {
      setDefaultDevice(onDev ? dev : cpu);
      m.L = &l;
      m.outs.clear();
      m.scale = 0;
      m.skip = false;
      m.back.reset();
      f->fn(m);
      setDefaultDevice(cpu);
    };
    static const std::set<std::string> randOps{"rand", "refill", "multinomial", "dropout", "init"};
    for (auto& l : p.lines) {
      if (l.kind == "devDraws") {
        lineNo++;
        {
          NoPreempt np;
          cur = l.kind;
        }
        setDefaultDevice(dev);
        drawSequence(l, (unsigned long)p.k("seed") + lineNo);
        setDefaultDevice(cpu);
        continue;
      }
      const Named* f = find(l.kind);
      if (!f || l.kind == "seed" || l.kind == "draws") continue;
      lineNo++;
      {
        NoPreempt np;
        cur = l.kind;
      }
      if (randOps.count(l.kind)) {
        // the same seed gives the same numbers whatever the device does meanwhile
        VM R;
        std::vector<HostVal> first;
        for (int k = 0; k < 2; k++) {
          VM& m = k ? G : R;
          R.P.clear();
          if (!k)
            for (auto& t : G.P) R.P.push_back(t.clone());
          manualSeed((unsigned long)p.k("seed") + lineNo);
          run(m, l, f, true);
          std::vector<HostVal> hs;
          for (auto& o : m.outs) {
            if (o.t.device().isCpu()) violation("wrong-device", "%s: a result is on the CPU", o.what.c_str());
            hs.push_back(host(o.t));
          }
          if (!k) first = std::move(hs);
          else {
            if (first.size() != hs.size()) violation("seeded-draws-differ", "%s: %zu and %zu results", l.kind.c_str(), first.size(), hs.size());
            for (size_t i = 0; i < hs.size(); i++) {
              if (first[i].raw != hs[i].raw || first[i].sh != hs[i].sh) violation("seeded-draws-differ", "%s: the same seed gives different values", m.outs[i].what.c_str());
              for (u8 b : hs[i].raw) stateHash(b);
            }
          }
        }
        R.fresh.clear();
        C.fresh.clear();
        for (auto& t : G.fresh) C.fresh.push_back(t.to(cpu));
        for (size_t i = 0; i < G.P.size(); i++) C.P[i] = G.P[i].to(cpu);
      } else {
        run(C, l, f, false);
        std::vector<HostVal> hc;
        for (auto& o : C.outs) hc.push_back(host(o.t));
        run(G, l, f, true);
        if (C.outs.size() != G.outs.size() && !C.skip) violation("results-differ", "%s: %zu results on the device, %zu on the CPU", l.kind.c_str(), G.outs.size(), C.outs.size());
        for (size_t i = 0; i < std::min(C.outs.size(), G.outs.size()); i++) {
          if (G.outs[i].t.device().isCpu()) violation("wrong-device", "%s: a result is on the CPU", C.outs[i].what.c_str());
          HostVal b = host(G.outs[i].t);
          for (u8 x : b.raw) stateHash(x);
          if (C.skip) continue;
          std::string d = differs(C.outs[i], hc[i], G.outs[i], b);
          if (!d.empty()) {
            std::string args;
            for (i64 a : l.a) args += std::to_string(a) + " ";
            violation("results-differ", "%s: %s", C.outs[i].what.c_str(), d.c_str());
          }
        }
      }
      C.outs.clear();
      G.outs.clear();
      C.trace.clear();
      G.trace.clear();
      C.flush();
      G.flush();
      if (C.P.size() != G.P.size()) violation("results-differ", "%zu tensors on the device, %zu on the CPU", G.P.size(), C.P.size());
      for (size_t i = 0; i < C.P.size(); i++) {
        if (shapeOf(C.P[i]) != shapeOf(G.P[i])) violation("results-differ", "%s: shapes %s and %s", l.kind.c_str(), shText(shapeOf(G.P[i])).c_str(), shText(shapeOf(C.P[i])).c_str());
        HostVal h = host(C.P[i]);
        bool ch = isF(h.dt) && tame(h, BOUND);
        if (ch) {
          std::vector<float> v(h.v.begin(), h.v.end());
          C.P[i] = Tensor(v, sv(h.sh), options::dtype(DType::Float32)).to(h.dt);
          h = host(C.P[i]);
        }
        if (ch || h.raw != host(G.P[i]).raw) G.P[i] = C.P[i].to(dev);
      }
    }
    C.P.clear();
    G.P.clear();
    NoPreempt np;
    cur = "end";
  };
  if (!join(spawn(nd, "program", body), 100000 * SEC) && alive(nd)) violation("hang", "%s", threadDump().c_str());
  stateHash(simgpu::kernelsRun());
}
Plan genC24(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  s.faults = false;
  genSwarm(g, p, s);
  auto& k = p.knob;
  k["seed"] = g.below(100000);
  k["dev"] = g.below(2);
  k["cache"] = g.below(2);
  k["maxn"] = g.chance(1, 3) ? 300 : g.chance(1, 2) ? 2500 : g.chance(3, 4) ? 6000 : 16000;
  if (g.chance(3, 4)) k["glag"] = 50 + g.below(800), k["glagu"] = 1 + g.below(40);
  k["gperm"] = g.chance(1, 8) ? 0 : g.chance(1, 2) ? 1000 : 500;
  k["gpre"] = g.chance(1, 3) ? 0 : g.chance(1, 2) ? 100 : 40;
  std::vector<int> w;
  bool all = g.chance(1, 3);
  static const std::set<std::string> none{"seed", "draws", "list"};
  for (auto& o : ops()) w.push_back(none.count(o.name) ? 0 : all || g.chance(2, 5) ? o.weight : 0);
  int sum = 0;
  for (int x : w) sum += x;
  int n = g.range(4, thorough ? 30 : 16);
  for (int i = 0; i < n; i++) {
    size_t q = 0;
    if (i < 3 || !sum || g.chance(1, 6)) {
      static const char* mk[] = {"pattern", "pattern", "rand", "ints"};
      const char* nm = mk[g.below(4)];
      while (strcmp(ops()[q].name, nm)) q++;
    } else {
      int r = g.below(sum);
      while (r >= w[q]) r -= w[q++];
    }
    Line l{ops()[q].name, {}};
    for (int j = 0; j < 5; j++) l.a.push_back(g.below(1ull << 40));
    p.lines.push_back(l);
  }
  if (g.chance(1, 250)) {
    k["gperm"] = k["gpre"] = 0;  // millions of threads
    Line l{"manyRows", {}};
    for (int j = 0; j < 5; j++) l.a.push_back(g.below(1ull << 40));
    p.lines.push_back(l);
  }
  if (g.chance(1, 12)) {
    Line l{"devDraws", {}};
    for (int j = 0; j < 5; j++) l.a.push_back(g.below(1ull << 40));
    p.lines.push_back(l);
  }
  return p;
}
Reg r24({"C24", "random programs of tensor operations, layers, losses, backward passes and optimiser steps run on a simulated device whose kernels execute the library's own kernel code thread by thread, with blocks, warps and threads in seeded orders, up to three blocks interleaved, pre-emption at single device memory accesses and lagging streams; every result is compared with the CPU's, seeded device draws are repeated under another schedule and compared bit by bit, accesses outside live device blocks, to host memory, unmet barriers and endless kernels are faults of the simulated device.", {"src/Operation (CUDA kernels and launch code, CPU reference)", "src/Tensor", "src/Function", "src/Module", "src/Optimizer.cpp", "src/Utils/CUDAUtils.*", "src/Utils/RandomGenerator.*"}, {"CUDA runtime, cuBLAS, cuRAND, thrust (simulated)", "entropy, heap (simulated)"}, genC24, execC24, 400000, 16000000, 45, 600, {}});
}  // namespace
