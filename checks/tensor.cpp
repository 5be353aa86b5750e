// C21: random tensor programs executed by processes with different entropy, memory contents, addresses and caching
// (gpu.cpp includes this file with VM_GPU for the programs of C24)
#include <string.h>

#include <algorithm>
#include <cmath>

#include "Tensor/CachedAllocator.h"
#include "Utils/RandomGenerator.h"
#include "common.h"
#include "tt.h"

using namespace sim;
using namespace tinytorch;
namespace {
#ifdef VM_GPU
constexpr bool DEV = true;
#else
constexpr bool DEV = false;
#endif
i64 MAXN = 4096;
constexpr size_t POOL = 10;
u64 hashBytes(const void* p, size_t n, u64 h) {
  const u8* b = (const u8*)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    u64 v;
    __builtin_memcpy(&v, b + i, 8);
    h = (h ^ v) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  for (; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
using Sh = std::vector<i64>;
Sh shapeOf(const Tensor& t) {
  Sh s;
  for (i64 i = 0; i < t.dim(); i++) s.push_back(t.shape(i));
  return s;
}
i64 numel(const Sh& s) {
  i64 n = 1;
  for (i64 d : s) n *= d;
  return n;
}
SizeVector sv(const Sh& s) {
  SizeVector r;
  for (i64 d : s) r.pushBack(d);
  return r;
}
// shape from one number
Sh mkShape(u64 v, i64 cap = 1500) {
  Sh s;
  int nd = v % 5;
  v /= 5;
  static const i64 small[] = {1, 2, 3, 4, 5, 7, 8, 11, 16, 33, 64, 1}, big[] = {1, 2, 3, 5, 8, 31, 64, 129, 300, 513, 1025, 2100};
  const i64* dims = small;
  if (DEV && (cap = std::min(cap, MAXN), (v / 3) % 2)) dims = big;
  for (int i = 0; i < nd; i++, v /= 12) {
    i64 d = dims[v % 12];
    if (numel(s) * d <= cap) s.push_back(d);
  }
  if (s.empty() && (v & 1)) s.push_back(1 + (v >> 1) % 40);
  return s;
}
std::string shText(const Sh& s) {
  std::string r = "[";
  for (i64 d : s) r += std::to_string(d) + " ";
  return r + "]";
}
const DType FLT[] = {DType::Float32, DType::Float32, DType::Float32, DType::Float16, DType::BFloat16};
bool isF(DType d) { return d == DType::Float32 || d == DType::Float16 || d == DType::BFloat16; }
struct Step {
  u64 h;
  std::string what;
};
struct VM;
struct VM {
  std::vector<Tensor> P, fresh;
  size_t next = 0;
  std::vector<Step> trace;
  const Line* L = nullptr;
  bool seeded = false;
  std::vector<std::string> sameDraws;
  // what C24 compares: results, the magnitude of what was summed in them, index results with their source
  struct Out {
    Tensor t, src;
    i64 dim = 0;
    std::string what;
    double scale = 0;
  };
  std::vector<Out> outs;
  double scale = 0;
  bool skip = false;
  u64 a(size_t i) const { return (u64)L->arg(i); }
  void rec(u64 h, std::string what) {
    NoPreempt np;
    trace.push_back({h, std::move(what)});
  }
  static u64 hash(const Tensor& x) {
    if (!x.defined()) return 1;
    if (DEV) return 2;
    const Tensor& t = x;
    u64 h = 7 + (u64)t.dtype() * 131;
    for (i64 i = 0; i < t.dim(); i++) h = Rng::mix(h + t.shape(i));
    return hashBytes(t.dataPtr<void>(), t.numel() * dtypeSize(t.dtype()), h);
  }
  void see(const Tensor& t, const char* what) {
    rec(hash(t), what);
    if (DEV && t.defined()) outs.push_back({t.clone(), Tensor(), 0, L->kind + " " + what, scale});
  }
  // positions in src along dim (dim == -100: in the flattened tensor)
  void putIdx(Tensor t, const Tensor& src, i64 dim) {
    size_t n = outs.size();
    put(t);
    if (DEV && outs.size() > n) outs[n].src = src, outs[n].dim = dim;
  }
  // the CPU's side of a comparison sums half precision numbers in single precision, as devices do
  std::optional<DType> back;
  static double sumScale(i64 n) { return n * (4. + n / 100.); }  // sums of equal numbers round to the same side
  Tensor wide(const Tensor& t) {
    if (!DEV || !t.defined() || !t.device().isCpu() || t.dtype() == DType::Float32 || !isF(t.dtype())) return t;
    back = t.dtype();
    return t.to(DType::Float32);
  }
  // parameters do not come from the generator when results are compared with another device's
  template <class Mod>
  static void init(Mod& l) {
    if (!DEV) return l.initParameters();
    u64 k = 1;
    WithNoGrad {
      for (auto* p : l.parameters()) p->copy_(pattern(shapeOf(*p), p->dtype(), 900 + k++));
    }
  }
  void put(Tensor t) {
    if (!t.defined()) return;
    if (back && t.dtype() == DType::Float32) t = t.to(*back);
    rec(hash(t), L->kind + " -> " + shText(shapeOf(t)));
    if (DEV) outs.push_back({t, Tensor(), 0, L->kind + " -> " + shText(shapeOf(t)), scale});
    if (t.numel() <= MAXN) fresh.push_back(std::move(t));
  }
  void flush() {  // operands stay valid until an operation has finished
    for (auto& t : fresh)
      if (P.size() < POOL) P.push_back(std::move(t));
      else P[next++ % POOL] = std::move(t);
    fresh.clear();
  }
  std::vector<const Tensor*> written;
  void touched(const Tensor& t) {
    written.push_back(&t);
    rec(hash(t), L->kind + " in place " + shText(shapeOf(t)));
    if (DEV) outs.push_back({t.clone(), Tensor(), 0, L->kind + " in place " + shText(shapeOf(t)), scale});
  }
  template <class F>
  Tensor* pick(u64 r, F f) {
    size_t n = 0;
    for (auto& t : P) n += f(t);
    if (!n) return nullptr;
    size_t k = r % n;
    for (auto& t : P)
      if (f(t) && k-- == 0) return &t;
    return nullptr;
  }
  Tensor* any(u64 r) {
    return pick(r, [](const Tensor&) { return true; });
  }
  Tensor* flt(u64 r) {
    return pick(r, [](const Tensor& t) { return isF(t.dtype()); });
  }
  Tensor* f32(u64 r) {
    return pick(r, [](const Tensor& t) { return t.dtype() == DType::Float32; });
  }
  Tensor* ranked(u64 r, i64 lo, i64 hi = 9, bool f = true) {
    return pick(r, [=](const Tensor& t) { return t.dim() >= lo && t.dim() <= hi && (!f || isF(t.dtype())); });
  }
  static bool broadcasts(const Sh& x, const Sh& y, Sh* out = nullptr) {
    Sh r;
    for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
      i64 p = i < x.size() ? x[x.size() - 1 - i] : 1, q = i < y.size() ? y[y.size() - 1 - i] : 1;
      if (p != q && p != 1 && q != 1) return false;
      r.insert(r.begin(), std::max(p, q));
    }
    if (numel(r) > MAXN) return false;
    if (out) *out = r;
    return true;
  }
  Tensor* mate(const Tensor& x, u64 r, bool intoX = false) {
    Sh s = shapeOf(x);
    return pick(r, [&](const Tensor& t) {
      Sh o;
      return t.dtype() == x.dtype() && broadcasts(s, shapeOf(t), &o) && (!intoX || o == s);
    });
  }
  // a fresh seeded-content tensor that consumes no random draws
  static Tensor pattern(const Sh& s, DType d, u64 salt, bool special = false) {
    i64 n = numel(s);
    std::vector<float> v(n);
    static const float odd[] = {0.f, -0.f, 1.f, -1.f, INFINITY, -INFINITY, NAN, 1e-40f, 65504.f, -65505.f, 3.4e38f, 1e-8f, 0.5f, 2.f};
    for (i64 i = 0; i < n; i++) {
      u64 h = Rng::mix(salt * 1000003 + i);
      if (DEV) v[i] = (float)((i64)(h % 1000003) - 500001) / (salt & 8 ? 200003.f : 524288.f);
      else v[i] = special && h % 5 == 0 ? odd[(h >> 8) % 14] : (float)((i64)(h % 4001) - 2000) / 777.f;
    }
    Tensor t(v, sv(s), options::dtype(DType::Float32));
    return d == DType::Float32 ? t : t.to(d);
  }
  // dim >= 0: no position twice along it (which of two writes to one element lasts is not defined on a device)
  static Tensor indices(const Sh& s, i64 n, u64 salt, bool neg = false, i64 dim = -1) {
    std::vector<i64> v(numel(s));
    i64 inner = 1;
    for (size_t i = dim + 1; DEV && dim >= 0 && i < s.size(); i++) inner *= s[i];
    for (size_t i = 0; i < v.size(); i++) {
      v[i] = Rng::mix(salt * 77 + i) % n;
      if (DEV && dim >= 0) v[i] = ((i64)i / inner % s[dim] + salt % 1000) % n;
      if (neg && Rng::mix(salt + i) % 4 == 0) v[i] -= n;
    }
    return Tensor(v, sv(s), options::dtype(DType::Int64));
  }
  void draws(const char* what, const std::function<Tensor()>& f) {
    Tensor x = f(), y = f();
    if (seeded && hash(x) == hash(y)) {
      NoPreempt np;
      sameDraws.push_back(what);
    }
    put(std::move(x));
    put(std::move(y));
  }
};
using OpFn = std::function<void(VM&)>;
struct Named {
  const char* name;
  int weight;
  OpFn fn;
};
i64 dimOf(const Tensor& t, u64 r) {  // any dimension, sometimes counted from the end
  i64 d = r % t.dim();
  return (r >> 20) & 1 ? d - t.dim() : d;
}
i64 norm(const Tensor& t, i64 d) { return d < 0 ? d + t.dim() : d; }
const std::vector<Named>& ops() {
  static const std::vector<Named> v = {
      // ---- randomness
      {"seed", 2, [](VM& m) {
         manualSeed((unsigned long)m.a(0) % 1000);
         m.seeded = true;
       }},
      {"rand", 6, [](VM& m) {
         Sh s = mkShape(m.a(0));
         Options o = options::dtype(FLT[m.a(1) % 5]);
         switch (m.a(2) % 4) {
           case 0: m.put(Tensor::rand(sv(s), o)); break;
           case 1: m.put(Tensor::randn(sv(s), o)); break;
           case 2: m.put(Tensor::uniform(sv(s), -2.f, 3.f, o)); break;
           default: m.put(Tensor::bernoulli(sv(s), 0.3f, o));
         }
       }},
      {"refill", 3, [](VM& m) {
         Tensor* t = m.flt(m.a(0));
         if (!t) return;
         switch (m.a(1) % 3) {
           case 0: t->fillUniform_(-1.f, 1.f); break;
           case 1: t->fillNormal_(0.5f, 2.f); break;
           default: t->fillBernoulli_(0.5f);
         }
         m.touched(*t);
       }},
      {"draws", 3, [](VM& m) {
         if (!m.seeded) return;
         i64 n = 8 + m.a(1) % 200;
         switch (m.a(0) % 8) {
           case 0: m.draws("uniform", [&] { return Tensor::rand({n}); }); break;
           case 1: m.draws("normal", [&] { return Tensor::randn({n}); }); break;
           case 2: m.draws("bernoulli", [&] { return Tensor::bernoulli({64 + n}, 0.5f); }); break;
           case 3: m.draws("dropout", [&] { return op::dropout(Tensor::ones({64 + n}), 0.5f); }); break;
           case 4: m.draws("function dropout", [&] { return function::dropout(Tensor::ones({64 + n}), 0.5f, true); }); break;
           case 5: m.draws("multinomial", [&] { return function::multinomial(Tensor::ones({16}), 40, true); }); break;
           case 6: m.draws("in place uniform", [&] {
             Tensor t = Tensor::zeros({n});
             t.fillUniform_(0.f, 1.f);
             return t;
           }); break;
           default: m.draws("layer initialisation", [&] {
             nn::Linear l(3, 4);
             l.resetParameters();
             return l.weight().clone().to(DType::Float32);
           });
         }
       }},
      {"multinomial", 2, [](VM& m) {
         i64 n = 1 + m.a(0) % 30, k = 1 + m.a(1) % 20, b = m.a(2) % 4;
         bool rep = m.a(3) & 1;
         if (!rep) k = std::min(k, n);
         Tensor p = VM::pattern(b ? Sh{b, n} : Sh{n}, DType::Float32, m.a(4));
         op::absInplace(p);
         op::addInplace(p, Tensor::scalar(0.01f), 1);
         m.put(function::multinomial(p, k, rep));
       }},
      {"dropout", 2, [](VM& m) {
         if (Tensor* t = m.flt(m.a(0))) m.put(m.a(1) & 1 ? function::dropout(*t, 0.4f, m.a(1) & 2) : op::dropout(*t, 0.6f));
       }},
      // ---- creation without randomness
      {"pattern", 6, [](VM& m) { m.put(VM::pattern(mkShape(m.a(0)), FLT[m.a(1) % 5], m.a(2), m.a(3) & 1)); }},
      {"ints", 2, [](VM& m) {
         Tensor t = VM::indices(mkShape(m.a(0)), 1 + m.a(1) % 50, m.a(2), m.a(3) & 1);
         m.put(m.a(3) & 2 ? t.to(DType::Int32) : t);
       }},
      {"const", 2, [](VM& m) {
         Options o = options::dtype(FLT[m.a(1) % 5]);
         SizeVector s = sv(mkShape(m.a(0)));
         switch (m.a(2) % 7) {
           case 0: m.put(Tensor::zeros(s, o)); break;
           case 1: m.put(Tensor::ones(s, o)); break;
           case 2: m.put(Tensor::full(s, 2.5f, o)); break;
           case 3: m.put(Tensor::full(s, true, options::dtype(DType::Bool))); break;
           case 4: m.put(Tensor::scalar(3.25f, o)); break;
           case 5: m.put(Tensor::linspace<float>(-1.f, 2.f, 1 + m.a(3) % 60)); break;
           default: m.put(Tensor::arange<float>(0.f, 1.f + m.a(3) % 30, 0.5f));
         }
       }},
      {"like", 1, [](VM& m) {
         Tensor* t = m.flt(m.a(0));
         if (!t) return;
         m.put(m.a(1) % 3 == 0 ? Tensor::zerosLike(*t) : m.a(1) % 3 == 1 ? Tensor::onesLike(*t) : Tensor::fullLike(*t, 0.75f));
       }},
      {"clone", 2, [](VM& m) {
         Tensor* t = m.any(m.a(0));
         if (!t) return;
         if (m.a(1) & 1) return m.put(t->clone());
         Tensor e = Tensor::empty(t->shape(), t->options());
         e.copy_(*t);
         m.put(e);
       }},
      {"to", 3, [](VM& m) {
         Tensor* t = m.any(m.a(0));
         if (!t) return;
         static const DType D[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Bool};
         m.put(t->to(D[m.a(1) % 4]));
       }},
      {"list", 1, [](VM& m) {
         Tensor* t = m.flt(m.a(0));
         if (!t) return;
         auto l = t->toList<float>();
         if (DEV) m.see(t->clone(), "toList");
         else m.rec(hashBytes(l.data(), l.size() * 4, 5), "toList");
       }},
      {"copyInto", 2, [](VM& m) {
         // a clone and a snapshot of what is then overwritten
         Tensor* t = m.any(m.a(0));
         if (!t) return;
         Tensor c = t->clone();
         if (m.a(1) & 1) c.copy_(isF(t->dtype()) ? VM::pattern(shapeOf(*t), t->dtype(), m.a(2)) : Tensor::zerosLike(*t));
         else {
           Tensor z = Tensor::zerosLike(*t);
           t->copyOnWrite();
           t->copy_(z);
           m.touched(*t);
         }
         m.put(c);
       }},
      {"drop", 1, [](VM& m) {
         if (m.P.size() > 3) m.P.erase(m.P.begin() + m.a(0) % m.P.size());
       }},
      // ---- element-wise
      {"unary", 6, [](VM& m) {
         Tensor* t = m.flt(m.a(0));
         if (!t) return;
         using U = Tensor (*)(const Tensor&);
         static const U f[] = {[](const Tensor& x) { return op::abs(x); }, [](const Tensor& x) { return op::neg(x); }, [](const Tensor& x) { return op::sign(x); }, [](const Tensor& x) { return op::sqrt(x); }, [](const Tensor& x) { return op::square(x); }, [](const Tensor& x) { return op::exp(x); }, [](const Tensor& x) { return op::log(x); }, [](const Tensor& x) { return op::sin(x); }, [](const Tensor& x) { return op::cos(x); }, [](const Tensor& x) { return op::sigmoid(x); }, [](const Tensor& x) { return op::tanh(x); }, [](const Tensor& x) { return function::relu(x); }, [](const Tensor& x) { return function::gelu(x); }, [](const Tensor& x) { return function::silu(x); }};
         m.put(f[m.a(1) % 14](*t));
       }},
      {"unaryOut", 2, [](VM& m) {
         Tensor* t = m.flt(m.a(0));
         if (!t) return;
         Tensor o = Tensor::empty(t->shape(), t->options());
         switch (m.a(1) % 7) {
           case 0: op::absOut(o, *t); break;
           case 1: op::sqrtOut(o, *t); break;
           case 2: op::expOut(o, *t); break;
           case 3: op::tanhOut(o, *t); break;
           case 4: op::reluOut(o, *t); break;
           case 5:
             if (!t->dim()) return;
             op::softmaxOut(o, *t, t->dim() - 1);
             break;
           default: op::geluOut(o, *t);
         }
         m.put(o);
       }},
      {"unaryIn", 3, [](VM& m) {
         Tensor* t = m.flt(m.a(0));
         if (!t) return;
         switch (m.a(1) % 8) {
           case 0: op::absInplace(*t); break;
           case 1: op::negInplace(*t); break;
           case 2: op::sinInplace(*t); break;
           case 3: op::sigmoidInplace(*t); break;
           case 4: op::reluInplace(*t); break;
           case 5: op::siluInplace(*t); break;
           case 6: op::signInplace(*t); break;
           default: op::squareInplace(*t);
         }
         m.touched(*t);
       }},
      {"binary", 8, [](VM& m) {
         Tensor* x = m.flt(m.a(0));
         if (!x) return;
         Tensor* y = m.mate(*x, m.a(1));
         if (!y) return;
         switch (m.a(2) % 14) {
           case 0: m.put(op::add(*x, *y, 0.5f)); break;
           case 1: m.put(op::sub(*x, *y, 2)); break;
           case 2: m.put(*x * *y); break;
           case 3: m.put(*x / *y); break;
           case 4: m.put(op::pow(*x, *y)); break;
           case 5: m.put(Tensor::maximum(*x, *y)); break;
           case 6: m.put(Tensor::minimum(*x, *y)); break;
           case 7: m.put(*x < *y); break;
           case 8: m.put(*x >= *y); break;
           case 9: m.put(*x == *y); break;
           case 10: m.put(*x != *y); break;
           case 11: m.put(op::clampMin(*x, *y)); break;
           case 12: m.put(op::clampMax(*x, *y)); break;
           default: m.put(*x + 1.5f);
         }
       }},
      {"binaryIn", 4, [](VM& m) {
         Tensor* x = m.flt(m.a(0));
         if (!x) return;
         Tensor* y = m.mate(*x, m.a(1), true);
         if (!y) return;
         switch (m.a(2) % 7) {
           case 0: op::addInplace(*x, *y, 1); break;
           case 1: op::subInplace(*x, *y, 0.5f); break;
           case 2: op::mulInplace(*x, *y); break;
           case 3: op::divInplace(*x, *y); break;
           case 4: op::clampMinInplace(*x, *y); break;
           case 5: *x += *y; break;
           default: *x *= 0.5f;
         }
         m.touched(*x);
       }},
      {"binaryOut", 2, [](VM& m) {
         Tensor* x = m.flt(m.a(0));
         if (!x) return;
         Tensor* y = m.mate(*x, m.a(1));
         Sh s;
         if (!y || !VM::broadcasts(shapeOf(*x), shapeOf(*y), &s)) return;
         Tensor o = Tensor::empty(sv(s), x->options());
         switch (m.a(2) % 4) {
           case 0: op::addOut(o, *x, *y, 1); break;
           case 1: op::mulOut(o, *x, *y); break;
           case 2: op::divOut(o, *x, *y); break;
           default: op::maximumOut(o, *x, *y);
         }
         m.put(o);
       }},
      // results written into a tensor that already has contents, and perhaps shares them
      {"outInto", 3, [](VM& m) {
         Tensor* x = m.flt(m.a(0));
         if (!x) return;
         Sh s = shapeOf(*x);
         u64 k = m.a(3) % 14;
         Tensor* o = m.pick(m.a(4), [&](const Tensor& t) { return t.dtype() == x->dtype() && shapeOf(t) == s && !(k < 2 && &t == x); });
         Tensor *y = m.mate(*x, m.a(1), true), *z = m.mate(*x, m.a(2), true);
         if (!o || !y || !z || o->requiresGrad()) return;
         switch (k) {
           case 0:
           case 1:
             if (!x->dim()) return;
             k ? op::softmaxOut(*o, *x, (m.a(4) >> 20) % x->dim()) : op::logSoftmaxOut(*o, *x, (m.a(4) >> 20) % x->dim());
             break;
           case 2: op::sqrtOut(*o, *x); break;
           case 3: op::negOut(*o, *x); break;
           case 4: op::siluOut(*o, *x); break;
           case 5: op::squareOut(*o, *x); break;
           case 6: op::sigmoidOut(*o, *x); break;
           case 7: op::addOut(*o, *x, *y, 0.5f); break;
           case 8: op::mulOut(*o, *x, *y); break;
           case 9: op::minimumOut(*o, *x, *y); break;
           case 10: op::clampOut(*o, *x, *y, *z); break;
           case 11: op::addcmulOut(*o, *x, *y, *z, 0.3f); break;
           case 12: op::fillMaskedOut(*o, *x, *x < Tensor::scalar(0.2f, x->options()), 7.f); break;
           default: op::subOut(*o, *x, *y, 1); break;
         }
         m.touched(*o);
       }},
      {"ternary", 2, [](VM& m) {
         Tensor* x = m.flt(m.a(0));
         if (!x) return;
         Tensor *y = m.mate(*x, m.a(1), true), *z = m.mate(*x, m.a(2), true);
         if (!y || !z) return;
         if (m.a(3) % 3 == 0) m.put(op::clamp(*x, *y, *z));
         else if (m.a(3) % 3 == 1) m.put(op::addcmul(*x, *y, *z, 0.3f));
         else {
           op::addcmulInplace(*x, *y, *z, 0.3f);
           m.touched(*x);
         }
       }},
      {"logic", 1, [](VM& m) {
         Tensor* x = m.pick(m.a(0), [](const Tensor& t) { return t.dtype() == DType::Bool; });
         if (!x) return;
         Tensor* y = m.mate(*x, m.a(1));
         m.put(m.a(2) % 3 == 0 || !y ? ~*x : m.a(2) % 3 == 1 ? *x & *y : *x | *y);
       }},
      {"masked", 2, [](VM& m) {
         Tensor* x = m.flt(m.a(0));
         if (!x) return;
         Tensor mask = *x < Tensor::scalar(0.2f, x->options());
         if (m.a(1) & 1) m.put(op::fillMasked(*x, mask, -1.f));
         else {
           x->fillMasked_(mask, 9.f);
           m.touched(*x);
         }
       }},
      {"fill", 1, [](VM& m) {
         Tensor* x = m.any(m.a(0));
         if (!x) return;
         if (m.a(1) % 3 == 0) x->fillZero_();
         else if (m.a(1) % 3 == 1) x->fillOne_();
         else x->fill_(3);
         m.touched(*x);
       }},
      // ---- reductions
      {"reduce", 4, [](VM& m) {
         Tensor *src = m.flt(m.a(0)), wide, *t = &wide;
         if (!src) return;
         wide = m.wide(*src);
         m.scale = m.a(1) % 8 == 0 ? VM::sumScale(t->numel()) : m.a(1) % 8 == 1 ? 4 + t->numel() / 100. : 200 + t->numel();
         switch (m.a(1) % 8) {
           case 0: m.put(t->sum()); break;
           case 1: m.put(t->mean()); break;
           case 2: m.put(t->min()); break;
           case 3: m.put(t->max()); break;
           case 4: m.putIdx(t->argmin(), *src, -100); break;
           case 5: m.putIdx(t->argmax(), *src, -100); break;
           case 6: m.put(t->var(m.a(2) & 1)); break;
           default: {
             auto p = t->varMean(m.a(2) & 1);
             m.put(p.first);
             m.put(p.second);
           }
         }
       }},
      {"reduceDim", 4, [](VM& m) {
         Tensor *src = m.ranked(m.a(0), 1), wide, *t = &wide;
         if (!src) return;
         wide = m.wide(*src);
         i64 d = dimOf(*t, m.a(2));
         bool k = m.a(3) & 1;
         m.scale = m.a(1) % 6 == 0 ? VM::sumScale(t->shape(norm(*t, d))) : m.a(1) % 6 == 1 ? 40 : m.a(1) % 6 > 3 ? 2000 : 0;
         switch (m.a(1) % 6) {
           case 0: m.put(t->sum(d, k)); break;
           case 1: m.put(t->mean(d, k)); break;
           case 2: {
             auto p = t->min(d, k);
             m.put(p.first);
             m.putIdx(p.second, *src, d);
             break;
           }
           case 3: {
             auto p = t->max(d, k);
             if (DEV) m.put(p.first);
             m.putIdx(p.second, *src, d);
             break;
           }
           case 4: m.put(t->var(d, m.a(3) & 2, k)); break;
           default: {
             auto p = t->varMean(d, m.a(3) & 2, k);
             m.put(p.first);
             m.put(p.second);
           }
         }
       }},
      {"reduceDims", 2, [](VM& m) {
         Tensor *src = m.ranked(m.a(0), 1), wide, *t = &wide;
         if (!src) return;
         wide = m.wide(*src);
         m.scale = m.a(1) % 3 == 0 ? VM::sumScale(t->numel()) : m.a(1) % 3 == 1 ? 4 + t->numel() / 100. : 200 + t->numel();
         std::vector<i64> d;
         for (i64 i = 0; i < t->dim(); i++)
           if ((m.a(2) >> i) & 1) d.push_back((m.a(2) >> (8 + i)) & 1 ? i - t->dim() : i);
         if (d.empty()) d.push_back(0);
         SizeVector v = sv(d);
         bool k = m.a(3) & 1;
         if (m.a(1) % 3 == 0) m.put(t->sum(IntArrayView(v), k));
         else if (m.a(1) % 3 == 1) m.put(t->mean(IntArrayView(v), k));
         else m.put(t->var(IntArrayView(v), m.a(3) & 2, k));
       }},
      // ---- shape
      {"reshape", 3, [](VM& m) {
         Tensor* t = m.any(m.a(0));
         if (!t) return;
         i64 n = t->numel();
         Sh s;
         for (u64 r = m.a(1); s.size() < 3; r /= 7) {
           i64 d = 1 + r % 7;
           if (n % d) d = 1;
           s.push_back(d);
           n /= d;
         }
         s.push_back(m.a(2) & 1 ? -1 : n);
         switch (m.a(2) / 2 % 5) {
           case 0: m.put(t->reshape(sv(s))); break;
           case 1: m.put(t->view(sv(s))); break;
           case 2: t->reshape_(sv(s)); m.touched(*t); break;
           case 3: m.put(t->flatten()); break;
           default: if (t->dim()) m.put(t->flatten(m.a(3) % t->dim(), -1));
         }
       }},
      {"squeeze", 2, [](VM& m) {
         Tensor* t = m.any(m.a(0));
         if (!t) return;
         if (m.a(1) & 1 && t->dim() < 5) m.put(t->unsqueeze((i64)(m.a(2) % (t->dim() + 1)) - (m.a(3) & 1 ? t->dim() + 1 : 0)));
         else if (t->dim()) m.put(m.a(1) & 2 ? t->squeeze(dimOf(*t, m.a(2))) : function::squeeze(*t, IntArrayView{}));
       }},
      {"permute", 4, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 5, false);
         if (!t) return;
         Sh d(t->dim());
         for (size_t i = 0; i < d.size(); i++) d[i] = i;
         Rng g(m.a(1));
         for (size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[g.below(i)]);
         switch (m.a(2) % 4) {
           case 0: m.put(t->permute()); break;
           case 1: m.put(t->transpose(dimOf(*t, m.a(1)), dimOf(*t, m.a(3)))); break;
           case 2: if (t->dim() == 2) m.put(t->t()); break;
           default: m.put(t->permute(sv(d)));
         }
       }},
      {"split", 3, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 5, false);
         if (!t) return;
         i64 d = dimOf(*t, m.a(2)), n = t->shape(norm(*t, d));
         std::vector<Tensor> r;
         if (m.a(1) % 3 == 0) r = t->chunk(1 + m.a(3) % 5, d);
         else if (m.a(1) % 3 == 1) {
           i64 k = 1 + m.a(3) % n;
           while (n % k) k--;
           r = t->split(k, d);
         } else {
           i64 x = m.a(3) % (n + 1);
           if (x == 0 || x == n) return;
           r = t->split(IntArrayView{x, n - x}, d);
         }
         for (size_t i = 0; i < r.size(); i++) {
           if (i < 2) m.put(r[i]);
           else m.see(r[i], "part");
         }
       }},
      {"narrow", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 5, false);
         if (!t) return;
         i64 d = dimOf(*t, m.a(1)), n = t->shape(norm(*t, d)), s = m.a(2) % n, len = 1 + m.a(3) % (n - s);
         m.put(t->narrow(d, s, len));
       }},
      {"concat", 3, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, false);
         if (!t) return;
         std::vector<Tensor> v{*t};
         Sh s = shapeOf(*t);
         i64 d = dimOf(*t, m.a(1));
         for (auto& x : m.P)
           if (v.size() < 4 && x.dtype() == t->dtype() && x.dim() == t->dim()) {
             Sh q = shapeOf(x);
             q[norm(*t, d)] = s[norm(*t, d)];
             if (q == s) v.push_back(x);
           }
         i64 tot = 0;
         for (auto& x : v) tot += x.numel();
         if (tot <= MAXN) m.put(function::concat(ArrayView<Tensor>(v), d));
       }},
      {"stack", 3, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 0, 4, false);
         if (!t) return;
         std::vector<Tensor> v{*t};
         for (auto& x : m.P)
           if (v.size() < 4 && x.dtype() == t->dtype() && shapeOf(x) == shapeOf(*t)) v.push_back(x);
         if (t->numel() * (i64)v.size() > MAXN) return;
         if (m.a(2) % 3 == 0 || !t->dim()) m.put(function::stack(ArrayView<Tensor>(v), (i64)(m.a(1) % (t->dim() + 1)) - (m.a(1) & 64 ? t->dim() + 1 : 0)));
         else if (m.a(2) % 3 == 1) m.put(function::hstack(ArrayView<Tensor>(v)));
         else m.put(function::vstack(ArrayView<Tensor>(v)));
       }},
      {"expand", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 0, 4, false);
         if (!t) return;
         Sh s = shapeOf(*t);
         for (size_t i = 0; i < s.size(); i++)
           if (s[i] == 1) s[i] = 1 + (m.a(1) >> (3 * i)) % 5;
           else if ((m.a(2) >> i) & 1) s[i] = -1;
         if (m.a(2) & 64 && s.size() < 4) s.insert(s.begin(), 1 + m.a(3) % 4);
         i64 tot = t->numel() * 5 * 5 * 5;
         if (tot <= MAXN * 8) m.put(function::expand(*t, sv(s)));
       }},
      {"repeat", 1, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, false);
         if (t && t->numel() * 4 <= MAXN) m.put(function::repeatInterleave(*t, 1 + m.a(1) % 4, dimOf(*t, m.a(2))));
       }},
      {"tri", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 2, 4, false);
         if (t) m.put(m.a(1) & 1 ? t->tril((i64)(m.a(2) % 7) - 3) : t->triu((i64)(m.a(2) % 7) - 3));
       }},
      // ---- indexing
      {"gather", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, false);
         if (!t) return;
         i64 d = dimOf(*t, m.a(1));
         Sh s = shapeOf(*t);
         for (size_t i = 0; i < s.size(); i++) s[i] = (i64)i == norm(*t, d) ? 1 + m.a(2) % 6 : 1 + (m.a(2) >> (i + 3)) % s[i];
         m.put(function::gather(*t, d, VM::indices(s, t->shape(norm(*t, d)), m.a(3), true)));
       }},
      {"scatter", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, true);
         if (!t) return;
         i64 d = dimOf(*t, m.a(1));
         Sh s = shapeOf(*t);
         for (size_t i = 0; i < s.size(); i++) s[i] = 1 + (m.a(2) >> i) % s[i];
         Tensor ix = VM::indices(s, t->shape(norm(*t, d)), m.a(3), true, norm(*t, d)), src = VM::pattern(s, t->dtype(), m.a(3) + 1);
         if (m.a(4) & 1) m.put(function::scatter(*t, d, ix, src));
         else {
           t->scatter_(d, ix, src);
           m.touched(*t);
         }
       }},
      {"select", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, false);
         if (!t) return;
         i64 d = dimOf(*t, m.a(1)), n = t->shape(norm(*t, d)), k = 1 + m.a(2) % 6;
         if (t->numel() / n * k <= MAXN) m.put(function::indexSelect(*t, d, VM::indices({k}, n, m.a(3))));
       }},
      {"index", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, false);
         if (!t) return;
         Sh ix;
         for (i64 i = 0; i < 1 + (i64)(m.a(1) % t->dim()); i++) {
           i64 n = t->shape(i), x = (m.a(2) >> (5 * i)) % n;
           ix.push_back((m.a(3) >> i) & 1 ? x - n : x);
         }
         m.put(op::index(*t, sv(ix)));
       }},
      {"indexPut", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, true);
         if (!t) return;
         Sh ix, rest;
         for (i64 i = 0; i < 1 + (i64)(m.a(1) % t->dim()); i++) ix.push_back((m.a(2) >> (5 * i)) % t->shape(i));
         for (i64 i = ix.size(); i < t->dim(); i++) rest.push_back(t->shape(i));
         op::indexPut(*t, sv(ix), m.a(3) & 1 ? Tensor::scalar(2.f, t->options()) : VM::pattern(rest, t->dtype(), m.a(3)));
         m.touched(*t);
       }},
      {"indexAdv", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4, true);
         if (!t) return;
         i64 len = 1 + m.a(1) % t->dim(), k = 1 + m.a(2) % 6;
         if (DEV) k = std::min(k, t->shape(0));
         std::vector<Tensor> ix;
         for (i64 i = 0; i < len; i++) ix.push_back(VM::indices({k}, t->shape(i), m.a(3) + i, true, i ? -1 : 0));
         Sh s{k};
         for (i64 i = len; i < t->dim(); i++) s.push_back(t->shape(i));
         if (numel(s) > MAXN) return;
         if (m.a(4) & 1) m.put(op::indexAdvance(*t, ArrayView<Tensor>(ix)));
         else {
           op::indexPutAdvance(*t, ArrayView<Tensor>(ix), m.a(4) & 2 ? Tensor::scalar(4.f, t->options()) : VM::pattern(s, t->dtype(), m.a(3)));
           m.touched(*t);
         }
       }},
      // ---- linear algebra
      {"matmul", 6, [](VM& m) {
         // shapes are made here: pools rarely hold two that fit
         u64 r = m.a(0);
         i64 M = 1 + r % 6, K = 1 + r / 6 % 7, N = 1 + r / 42 % 5;
         DType d = FLT[m.a(1) % 5];
         Sh ba, bb;
         u64 q = m.a(2);
         int na = q % 3, nb = q / 3 % 3;
         q /= 9;
         for (int i = 0; i < std::max(na, nb); i++, q /= 16) {
           i64 n = 1 + q % 4;
           if (i < na) ba.insert(ba.begin(), (q >> 2) & 1 ? 1 : n);
           if (i < nb) bb.insert(bb.begin(), (q >> 3) & 1 ? 1 : n);
         }
         bool ta = m.a(3) & 1, tb = m.a(3) & 2;
         Sh sa = ba, sb = bb;
         bool va = !na && (m.a(3) & 12) == 12, vb = !nb && (m.a(3) & 48) == 48;
         if (va) sa = {K};
         else sa.push_back(ta ? K : M), sa.push_back(ta ? M : K);
         if (vb) sb = {K};
         else sb.push_back(tb ? N : K), sb.push_back(tb ? K : N);
         m.put(VM::pattern(sa, d, m.a(4)).matmul(VM::pattern(sb, d, m.a(4) + 1), ta, tb));
       }},
      {"dot", 1, [](VM& m) {
         i64 n = 1 + m.a(0) % 50;
         m.put(op::dot(VM::pattern({n}, FLT[m.a(1) % 5], m.a(2)), VM::pattern({n}, FLT[m.a(1) % 5], m.a(2) + 9)));
       }},
      {"im2col", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 3, 4);
         if (!t) return;
         i64 h = t->shape(-2), w = t->shape(-1), pad = m.a(1) % 3;
         i64 kh = 1 + m.a(2) % std::min<i64>(3, h), kw = 1 + m.a(2) / 3 % std::min<i64>(3, w), st = 1 + m.a(3) % 3;
         if (t->numel() * kh * kw > MAXN * 2) return;
         Tensor c = op::im2col(*t, Dim2D(kh, kw), Dim2D(st, st), Dim2D(pad, pad));
         m.put(c);
         m.put(op::col2im(c, t->shape(), Dim2D(kh, kw), Dim2D(st, st), Dim2D(pad, pad)));
       }},
      // ---- sampling-like
      {"topk", 3, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4);
         if (!t) return;
         i64 d = dimOf(*t, m.a(1)), n = t->shape(norm(*t, d));
         auto p = function::topk(*t, 1 + m.a(2) % n, d, m.a(3) & 1, m.a(3) & 2 || DEV);
         m.put(p.first);
         m.putIdx(p.second, *t, d);
       }},
      {"sort", 3, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4);
         if (!t) return;
         auto p = function::sort(*t, dimOf(*t, m.a(1)), m.a(2) & 1);
         m.put(p.first);
         m.putIdx(p.second, *t, dimOf(*t, m.a(1)));
       }},
      {"cumsum", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4);
         if (!t) return;
         Tensor x = m.wide(*t);
         m.scale = VM::sumScale(t->shape(norm(*t, dimOf(*t, m.a(1)))));
         if (DEV && t->dtype() != DType::Float32 && t->shape(norm(*t, dimOf(*t, m.a(1)))) > 60) m.skip = true;
         m.put(function::cumsum(x, dimOf(x, m.a(1))));
       }},
      // ---- layers
      {"softmax", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4);
         if (!t) return;
         Tensor x = m.wide(*t);
         t = &x;
         m.put(m.a(1) & 1 ? function::softmax(*t, dimOf(*t, m.a(2))) : function::logSoftmax(*t, dimOf(*t, m.a(2))));
       }},
      {"norm", 2, [](VM& m) {
         Tensor* t = m.ranked(m.a(0), 1, 4);
         if (!t) return;
         i64 n = t->shape(-1);
         Tensor w = m.wide(VM::pattern({n}, t->dtype(), m.a(1))), b = m.wide(VM::pattern({n}, t->dtype(), m.a(1) + 1)), x = m.wide(*t);
         t = &x;
         m.scale = 4000 + 20. * n;
         m.put(m.a(2) & 1 ? function::layerNorm(*t, IntArrayView{n}, w, m.a(2) & 2 ? b : Tensor()) : function::rmsNorm(*t, IntArrayView{n}, w));
       }},
      {"rope", 1, [](VM& m) {
         i64 hd = 2 * (1 + m.a(0) % 4), ctx = 6 + m.a(1) % 20, off = m.a(2) % 4, seq = 1 + m.a(3) % (ctx - off);
         DType d = FLT[m.a(4) % 5];
         std::optional<RopeScalingConfig> sc;
         if (m.a(4) & 64) sc = RopeScalingConfig(8.f, 4.f, 1.f, 16);
         nn::RoPE rope(hd, ctx, 10000.f, sc, options::dtype(d));
         rope.resetParameters();
         m.put(rope(VM::pattern({1 + (i64)m.a(0) % 2, 2, seq, hd}, d, m.a(3)), off));
       }},
      {"attention", 2, [](VM& m) {
         i64 b = 1 + m.a(0) % 2, h = 1 + m.a(0) / 2 % 2, l = 1 + m.a(1) % 6, s = 1 + m.a(1) / 6 % 6, e = 1 + m.a(2) % 6;
         DType d = FLT[m.a(3) % 5];
         bool causal = m.a(4) & 1;
         Tensor mask;
         if (!causal && (m.a(4) & 2)) {
           mask = VM::pattern({l, s}, d, m.a(2) + 5);
           if (m.a(4) & 4) mask = Tensor::scalar(-1.f, mask.options()) < mask;
         }
         m.put(function::sdpAttention(VM::pattern({b, h, l, e}, d, m.a(2)), VM::pattern({b, h, s, e}, d, m.a(2) + 1), VM::pattern({b, h, s, e}, d, m.a(2) + 2), causal, mask, !DEV && m.a(4) & 8 ? 0.3f : 0.f));
       }},
      {"embedding", 1, [](VM& m) {
         i64 n = 1 + m.a(0) % 20, e = 1 + m.a(1) % 8;
         nn::Embedding em(n, e);
         if (DEV) VM::init(em);
         else em.resetParameters();
         m.put(em(VM::indices(Sh{1 + (i64)m.a(2) % 4, 1 + (i64)m.a(2) / 4 % 4}, n, m.a(3))));
       }},
      {"siluMul", 1, [](VM& m) {
         Tensor* t = m.pick(m.a(0), [](const Tensor& x) { return x.dim() && isF(x.dtype()) && x.shape(-1) % 2 == 0; });
         if (t) m.put(function::siluMul(*t));
       }},
      {"loss", 2, [](VM& m) {
         i64 n = 1 + m.a(0) % 8, c = 1 + m.a(1) % 6;
         if (DEV && m.a(0) & 4096) n *= 130;
         m.scale = (LossReduction)(m.a(2) % 3) == LossReduction::SUM ? 40. * n : 40;
         auto red = (LossReduction)(m.a(2) % 3);
         DType d = FLT[m.a(3) % 5];
         Tensor x = m.wide(VM::pattern({n, c}, d, m.a(3))), y = m.wide(VM::pattern({n, c}, d, m.a(3) + 1));
         if (m.a(2) & 8) m.put(function::mseLoss(x, y, red));
         else m.put(function::nllLoss(function::logSoftmax(x, 1), VM::indices({n}, c, m.a(4)), red));
       }},
      {"conv", 2, [](VM& m) {
         i64 h = 1 + m.a(0) % 7, w = 1 + m.a(0) / 7 % 7;
         if (DEV && m.a(0) & (1 << 16)) h += 11, w += 9;
         i64 ci = 1 + m.a(1) % 3, co = 1 + m.a(1) / 3 % 3, k = 1 + m.a(2) % std::min<i64>(3, std::min(h, w));
         Tensor x = VM::pattern({1 + (i64)m.a(2) / 3 % 3, ci, h, w}, DType::Float32, m.a(3));
         m.put(function::conv2d(x, VM::pattern({co, ci, k, k}, DType::Float32, m.a(3) + 1), m.a(4) & 1 ? VM::pattern({co}, DType::Float32, m.a(4)) : Tensor(), 1 + m.a(4) % 2, (i64)m.a(4) / 2 % 2));
         m.put(function::maxPool2d(x, k, k, 0));
       }},
      // ---- autograd
      {"autograd", 6, [](VM& m) {
         // a random differentiable expression over a few leaves of one shape
         Sh s = mkShape(m.a(0), 200);
         if (s.empty()) s = {3};
         std::vector<Tensor> leaf, v;
         for (int i = 0; i < 3; i++) {
           Tensor t = !DEV && m.a(1) & (8 << i) ? Tensor::rand(sv(s)) : VM::pattern(s, DType::Float32, m.a(1) + i);
           t.setRequiresGrad(i == 0 || (m.a(1) >> i) & 1);
           leaf.push_back(t);
           v.push_back(t);
         }
         Rng g(m.a(2));
         int n = 1 + m.a(3) % 9;
         for (int i = 0; i < n; i++) {
           const Tensor &x = v[g.below(v.size())], &y = v[g.below(v.size())];
           Tensor z;
           switch (g.below(10)) {
             case 0: z = x + y; break;
             case 1: z = x - y; break;
             case 2: z = x * y; break;
             case 3: z = x / (y * y + 1.f); break;
             case 4: z = x.sin(); break;
             case 5: z = x.cos(); break;
             case 6: z = function::relu(x); break;
             case 7: z = function::softmax(x, -1); break;
             case 8: z = function::dropout(x, 0.3f, !DEV); break;
             default: z = x.reshape(sv(s)) * 0.5f;
           }
           v.push_back(z);
         }
         Tensor out = v.back().requiresGrad() ? v.back() : leaf[0] * v.back();
         if (m.a(4) & 1) out.sum().backward();
         else out.backward(VM::pattern(s, DType::Float32, m.a(4)));
         m.put(out.clone().to(DType::Float16));
         for (auto& t : leaf)
           if (t.requiresGrad() && t.grad().defined()) m.put(t.grad().clone());
       }},
      {"rowGrad", 2, [](VM& m) {
         // layers that work on rows, whose size decides which code computes them
         static const i64 rows[] = {1, 2, 3, 7, 31, 33, 64, 129, 500, 513, 1024, 1025, 1030, 2100};
         i64 d = rows[m.a(0) % 14], r = 1 + m.a(1) % 4;
         Sh s = m.a(1) & 64 ? Sh{d, r} : Sh{r, d};
         i64 dim = m.a(1) & 64 ? 0 : 1;
         Tensor x = VM::pattern(s, DType::Float32, m.a(2)), w = VM::pattern({s[1]}, DType::Float32, m.a(2) + 1);
         x.setRequiresGrad(true);
         m.scale = m.a(3) % 6 == 4 ? VM::sumScale(numel(s)) : 40;
         Tensor y;
         switch (m.a(3) % 6) {
           case 0: y = function::softmax(x, dim); break;
           case 1: y = function::logSoftmax(x, dim); break;
           case 2: y = function::relu(x); break;
           case 3: y = x.sin(); break;
           case 4: y = x.sum(); break;
           default: y = x * w;
         }
         m.put(y.clone());
         y.backward(VM::pattern(shapeOf(y), DType::Float32, m.a(4)));
         m.put(x.grad().clone());
         m.scale = 4000 + 20. * s[1];
         w = function::layerNorm(VM::pattern(s, DType::Float32, m.a(2) + 2), IntArrayView{s[1]}, w, Tensor());
         m.put(w);
       }},
      {"manyRows", 0, [](VM& m) {
         // more rows than a device can have blocks in the second and third dimension of a grid
         bool img = m.a(1) & 1;
         Sh s = img ? Sh{1, 2, 257, 256} : Sh{2, 65600};
         i64 dim = img ? 1 : 0;
         Tensor x = VM::pattern(s, DType::Float32, m.a(2));
         m.scale = 40;
         switch (m.a(0) % 4) {
           case 0: m.put(op::softmax(x, dim)); break;
           case 1: m.put(op::logSoftmax(x, dim)); break;
           case 2: m.put(op::softmaxBackward(VM::pattern(s, DType::Float32, m.a(3)), x, dim)); break;
           default: m.put(op::tril(VM::pattern({65540, 1, 2}, DType::Float32, m.a(2)), (i64)(m.a(3) % 3) - 1));
         }
       }},
      {"layerGrad", 4, [](VM& m) {
         i64 n = 1 + m.a(0) % 4, i = 1 + m.a(0) / 4 % 6, o = 1 + m.a(1) % 5;
         if (DEV && m.a(0) & 4096) n *= 150;
         nn::Linear lin(i, o, m.a(1) & 64);
         VM::init(lin);
         Tensor x = VM::pattern({n, i}, DType::Float32, m.a(2));
         x.setRequiresGrad(m.a(3) & 1);
         auto y = function::logSoftmax(lin(x), 1);
         function::nllLoss(y, VM::indices({n}, o, m.a(4)), (LossReduction)(1 + m.a(3) / 2 % 2)).backward();
         for (auto* p : lin.parameters()) m.put(p->grad().clone());
         if (m.a(3) & 1) m.put(x.grad().clone());
       }},
      {"convGrad", 3, [](VM& m) {
         i64 h = 2 + m.a(0) % 5, ci = 1 + m.a(1) % 2, co = 1 + m.a(1) / 2 % 3;
         nn::Conv2D c(ci, co, 2, 1, m.a(2) & 1, m.a(2) & 2);
         VM::init(c);
         Tensor x = VM::pattern({2, ci, h, h}, DType::Float32, m.a(3));
         x.setRequiresGrad(true);
         Tensor y = c(x);
         if (m.a(2) & 4) y = function::maxPool2d(y, 1 + (m.a(2) >> 3) % std::min<i64>(2, y.shape(-1)), 1, 0);
         y.sum().backward();
         for (auto* p : c.parameters()) m.put(p->grad().clone());
         m.put(x.grad().clone());
       }},
      {"train", 4, [](VM& m) {
         i64 n = 1 + m.a(0) % 4, i = 1 + m.a(0) / 4 % 5, h = 1 + m.a(1) % 5;
         nn::Linear l1(i, h);
         nn::Linear l2(h, 3);
         nn::Dropout dr(0.25f);
         if (DEV) dr.eval();
         VM::init(l1);
         VM::init(l2);
         std::vector<TensorPtr> ps = l1.parameters();
         for (auto* p : l2.parameters()) ps.push_back(p);
         float wd = m.a(2) & 8 ? 0.01f : 0.f;
         std::unique_ptr<optim::Optimizer> o;
         switch (m.a(2) % 6) {
           case 0: o = std::make_unique<optim::SGD>(std::vector<TensorPtr>(ps), 0.05f, m.a(2) & 16 ? 0.9f : 0.f, m.a(2) & 32 ? 0.1f : 0.f, wd, m.a(2) & 16 && !(m.a(2) & 32) && (m.a(2) & 64)); break;
           case 1: o = std::make_unique<optim::Adagrad>(std::vector<TensorPtr>(ps), 0.05f, m.a(2) & 16 ? 0.1f : 0.f, wd); break;
           case 2: o = std::make_unique<optim::RMSprop>(std::vector<TensorPtr>(ps), 0.05f, 0.9f, 1e-8f, wd, m.a(2) & 16 ? 0.9f : 0.f, m.a(2) & 32); break;
           case 3: o = std::make_unique<optim::AdaDelta>(std::vector<TensorPtr>(ps), 1.0f, 0.9f, 1e-6f, wd); break;
           case 4: o = std::make_unique<optim::Adam>(std::vector<TensorPtr>(ps), 0.01f, std::make_pair(0.9f, 0.99f), 1e-8f, wd, m.a(2) & 16); break;
           default: o = std::make_unique<optim::AdamW>(std::vector<TensorPtr>(ps), 0.01f, std::make_pair(0.9f, 0.99f), 1e-8f, wd, m.a(2) & 16);
         }
         int steps = 1 + m.a(3) % 4;
         m.scale = 1000;
         for (int k = 0; k < steps; k++) {
           Tensor x = !DEV && m.a(3) & 32 ? Tensor::randn({n, i}) : VM::pattern({n, i}, DType::Float32, m.a(4) + k);
           o->zeroGrad();
           Tensor y = function::logSoftmax(l2(dr(function::relu(l1(x)))), 1);
           function::nllLoss(y, VM::indices({n}, 3, m.a(4) + k)).backward();
           o->step();
           for (auto* p : ps) {
             m.see(*p, "parameter after step");
             if (DEV && op::abs(p->clone()).max().item<float>() > 30.f) m.skip = true;
           }
           if (m.skip) break;
         }
         m.put(l1.weight().clone().to(DType::Float16));
       }},
      {"init", 2, [](VM& m) {
         switch (m.a(0) % 6) {
           case 0: {
             nn::Linear l(1 + m.a(1) % 6, 1 + m.a(2) % 6, true, options::dtype(FLT[m.a(3) % 5]));
             l.initParameters();
             for (auto* p : l.parameters()) m.see(*p, "linear");
             break;
           }
           case 1: {
             nn::Conv2D l(1 + m.a(1) % 3, 1 + m.a(2) % 3, 3);
             l.initParameters();
             for (auto* p : l.parameters()) m.see(*p, "conv");
             break;
           }
           case 2: {
             nn::LayerNorm l(IntArrayView{1 + (i64)m.a(1) % 9});
             l.initParameters();
             for (auto* p : l.parameters()) m.see(*p, "layer norm");
             break;
           }
           case 3: {
             nn::RMSNorm l(IntArrayView{1 + (i64)m.a(1) % 9});
             l.initParameters();
             for (auto* p : l.parameters()) m.see(*p, "rms norm");
             break;
           }
           case 4: {
             nn::Embedding l(1 + m.a(1) % 9, 1 + m.a(2) % 5);
             l.initParameters();
             for (auto* p : l.parameters()) m.see(*p, "embedding");
             break;
           }
           default: {
             Tensor t = Tensor::zeros({1 + (i64)m.a(1) % 6, 1 + (i64)m.a(2) % 6});
             nn::Initializer::kaimingUniform(t);
             m.put(t);
           }
         }
       }},
  };
  return v;
}
const Named* find(const std::string& n) {
  for (auto& o : ops())
    if (n == o.name) return &o;
  return nullptr;
}
#ifndef VM_GPU
void runIn(Node* n, const char* what, const std::function<void()>& fn) {
  if (!join(spawn(n, what, fn), 100000 * SEC) && alive(n)) violation("hang", "%s: %s", what, threadDump().c_str());
}
void execC21(const Plan& p) {
  applySwarm(p);
  static std::string cur;
  cur = "start";
  onCrash([](int) { return "crash in " + cur; });
  armSched();
  std::vector<Step> ref;
  int k = 0;
  for (auto& l : p.lines)
    if (l.kind == "node") {
      mem.fillMode = l.arg(0) % 4;
      mem.fill = l.arg(1);
      mem.fillSeed = l.arg(1) * 131 + 7;
      mem.pad = l.arg(2) % 5;
      mem.quarantine = l.arg(3) % 2 ? 256 : 0;
      entropySeed = Rng::mix(l.arg(4));
      Node* nd = newNode("process" + std::to_string(k));
      VM m;
      runIn(nd, "program", [&] {
        Rng g(l.arg(6) + 1);
        CachedAllocator::setCacheEnabled(l.arg(5) & 1);
        // what the process did before
        std::vector<std::unique_ptr<char[]>> junk;
        std::vector<Tensor> old;
        for (i64 i = 0; i < l.arg(6) % 6; i++) {
          junk.emplace_back(new char[1 + g.below(5000)]);
          old.push_back(Tensor::randn({(i64)(1 + g.below(300))}));
          if (g.chance(1, 2)) (void)RandomGeneratorCPU::getGenerator()();
          if (g.chance(1, 4)) manualSeed(g.below(100));
          if (g.chance(1, 3)) old.erase(old.begin());
        }
        manualSeed((unsigned long)p.k("seed"));
        m.seeded = true;
        i64 at = 0;
        for (auto& o : p.lines) {
          const Named* f = find(o.kind);
          if (!f) continue;
          {
            NoPreempt np;
            cur = o.kind;
          }
          if (l.arg(5) & 2 && g.chance(1, 7)) {
            CachedAllocator::setCacheEnabled(g.chance(1, 2));
            fault("cache-switched");
          }
          if (l.arg(6) & 1 && g.chance(1, 5)) junk.emplace_back(new char[1 + g.below(300)]);
          m.L = &o;
          f->fn(m);
          m.flush();
          at++;
        }
        for (auto& t : m.P) m.rec(VM::hash(t), "final contents");
        m.P.clear();
        old.clear();
        NoPreempt np;
        cur = "end";
      });
      if (!m.sameDraws.empty()) violation("same-draws", "two consecutive draws of %s are identical", m.sameDraws[0].c_str());
      if (k == 0) ref = m.trace;
      else {
        for (size_t i = 0; i < std::min(ref.size(), m.trace.size()); i++)
          if (ref[i].h != m.trace[i].h || ref[i].what != m.trace[i].what)
            violation("results-differ", "result %zu (%s / %s) of process %d differs from process 0", i, ref[i].what.c_str(), m.trace[i].what.c_str(), k);
        if (ref.size() != m.trace.size()) violation("results-differ", "%zu and %zu results", ref.size(), m.trace.size());
      }
      for (auto& s : m.trace) stateHash(s.h);
      kill(nd);
      k++;
    }
}
Plan genC21(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  s.faults = false;
  genSwarm(g, p, s);
  p.knob["seed"] = g.below(10000);
  int nodes = 2 + g.chance(1, 3);
  for (int i = 0; i < nodes; i++) {
    i64 fm = i == 0 ? 1 : g.below(4);
    i64 cache = i == 0 ? 0 : g.below(4);
    p.lines.push_back({"node", {fm, i == 0 ? 0xA5 : (i64)g.below(256), (i64)g.below(5), (i64)g.below(2), (i64)g.below(100000), cache, (i64)g.below(1000)}});
  }
  int total = 0;
  for (auto& o : ops()) total += o.weight;
  // a swarm of operation kinds per run
  std::vector<int> w;
  bool all = g.chance(1, 3);
  for (auto& o : ops()) w.push_back(all || g.chance(2, 5) ? o.weight : 0);
  int sum = 0;
  for (int x : w) sum += x;
  int n = g.range(4, thorough ? 60 : 36);
  for (int i = 0; i < n; i++) {
    size_t k = 0;
    if (i < 3 || !sum || g.chance(1, 8)) {
      static const char* mk[] = {"pattern", "rand", "rand", "ints"};
      const char* nm = mk[g.below(4)];
      while (strcmp(ops()[k].name, nm)) k++;
    } else {
      int r = g.below(sum);
      while (r >= w[k]) r -= w[k++];
    }
    Line l{ops()[k].name, {}};
    for (int j = 0; j < 5; j++) l.a.push_back(g.below(1ull << 40));
    p.lines.push_back(l);
  }
  return p;
}
Reg r21({"C21", "random programs of 4-60 tensor operations (fills, element-wise, broadcasting, reductions, shape, indexing, linear algebra, sampling, layers, losses, autograd, training with all optimisers; float, half, bfloat16, integer, bool; special values) run in 2-3 simulated processes that differ in entropy, earlier work, contents of fresh and recycled memory, heap layout and caching (also switched mid-program); every result is compared bit by bit, accesses outside live blocks are faults of the simulated heap.", {"src/Operation (CPU)", "src/Tensor", "src/Function", "src/Module", "src/Optimizer.cpp", "src/Initializer.cpp", "src/Utils/RandomGenerator.*"}, {"entropy, heap (simulated)"}, genC21, execC21, 400000, 16000000, 30, 600, {}});

// ---- C25: tensors are values
// Some of the operations write into or share storage; "sharing" runs them on tensors as the operations left them, "apart" gives
// every tensor a storage of its own before each operation.
void execC25(const Plan& p) {
  applySwarm(p);
  static std::string cur;
  cur = "start";
  onCrash([](int) { return "crash in " + cur; });
  armSched();
  struct Snap {
    std::vector<u64> pool;
    std::vector<Sh> shape;
  };
  std::vector<Snap> ref;
  std::vector<Step> refTrace;
  for (int apart = 1; apart >= 0; apart--) {
    mem.fillMode = apart ? 1 : p.k("fm") % 4;
    mem.fill = apart ? 0xA5 : p.k("fm") / 4 % 256;
    Node* nd = newNode(apart ? "apart" : "sharing");
    VM m;
    runIn(nd, "program", [&] {
      CachedAllocator::setCacheEnabled(!apart && p.k("cache"));
      manualSeed((unsigned long)p.k("seed"));
      size_t at = 0;
      auto own = [](Tensor& t) {
        Tensor e = Tensor::empty(t.shape(), t.options());
        e.copy_(t);
        t = e;
      };
      for (auto& l : p.lines) {
        const Named* f = find(l.kind);
        if (!f) continue;
        {
          NoPreempt np;
          cur = l.kind;
        }
        if (apart)
          for (auto& t : m.P) own(t);
        m.L = &l;
        m.written.clear();
        std::vector<u64> before;
        std::vector<const Tensor*> at0;
        bool watch = apart && l.kind != "drop";
        if (watch)
          for (auto& t : m.P) before.push_back(VM::hash(t)), at0.push_back(&t);
        f->fn(m);
        for (size_t i = 0; i < before.size(); i++)
          if (before[i] != VM::hash(m.P[i]) && std::find(m.written.begin(), m.written.end(), at0[i]) == m.written.end())
            violation("operand-changed", "%s changed a tensor %s it only reads", l.kind.c_str(), shText(shapeOf(m.P[i])).c_str());
        // a result that is the operand itself is a second name, not a second tensor
        std::set<const void*> names;
        for (auto& t : m.P) names.insert(&t.getImpl());
        for (auto& t : m.fresh)
          if (!names.insert(&t.getImpl()).second) own(t);
        m.flush();
        Snap s;
        for (auto& t : m.P) s.pool.push_back(VM::hash(t)), s.shape.push_back(shapeOf(t));
        NoPreempt np;
        if (apart) ref.push_back(std::move(s));
        else {
          if (at < ref.size()) {
            auto& r = ref[at];
            for (size_t i = 0; i < std::min(r.pool.size(), s.pool.size()); i++)
              if (r.pool[i] != s.pool[i]) violation("sharing-observable", "after %s (line %zu) tensor %zu %s has other contents than without shared storage", l.kind.c_str(), at, i, shText(s.shape[i]).c_str());
            if (r.pool.size() != s.pool.size()) violation("sharing-observable", "%s gives %zu and %zu tensors", l.kind.c_str(), r.pool.size(), s.pool.size());
          }
          at++;
        }
      }
      m.P.clear();
    });
    if (apart) refTrace = std::move(m.trace);
    else {
      for (size_t i = 0; i < std::min(refTrace.size(), m.trace.size()); i++)
        if (refTrace[i].h != m.trace[i].h) violation("sharing-observable", "result %zu (%s) differs from the one computed without shared storage", i, m.trace[i].what.c_str());
      for (auto& x : m.trace) stateHash(x.h);
    }
    kill(nd);
  }
}
Plan genC25(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  s.faults = false;
  genSwarm(g, p, s);
  p.knob["seed"] = g.below(10000);
  p.knob["fm"] = g.below(1024);
  p.knob["cache"] = g.below(2);
  // operations that may share storage, operations that write, the rest
  static const std::set<std::string> share{"clone", "to", "reshape", "squeeze", "split", "narrow", "index", "permute", "expand", "concat", "dropout"};
  static const std::set<std::string> write{"refill", "unaryIn", "binaryIn", "masked", "fill", "scatter", "copyInto", "indexPut", "indexAdv", "ternary", "outInto"};
  static const std::set<std::string> none{"draws", "seed"};
  std::vector<int> w;
  bool some = g.chance(1, 2);
  for (auto& o : ops()) {
    int x = share.count(o.name) ? 8 : write.count(o.name) ? 8 : none.count(o.name) ? 0 : 1;
    w.push_back(some && g.chance(1, 2) ? 0 : x);
  }
  int sum = 0;
  for (int x : w) sum += x;
  int n = g.range(4, thorough ? 50 : 30);
  for (int i = 0; i < n; i++) {
    size_t k = 0;
    if (i < 2 || !sum || g.chance(1, 10)) {
      static const char* mk[] = {"pattern", "pattern", "rand", "ints"};
      const char* nm = mk[g.below(4)];
      while (strcmp(ops()[k].name, nm)) k++;
    } else {
      int r = g.below(sum);
      while (r >= w[k]) r -= w[k++];
    }
    Line l{ops()[k].name, {}};
    for (int j = 0; j < 5; j++) l.a.push_back(g.below(1ull << 40));
    if (g.chance(1, 2)) l.a[0] = g.below(4);
    p.lines.push_back(l);
  }
  return p;
}
Reg r25({"C25", "random programs weighted towards operations whose results may share storage (reshape, view, narrow, split, chunk, index, squeeze, clone, conversion) and operations that write in place (fills, element-wise, masked, scatter, index assignment, advanced index assignment), run once as they are and once with every tensor moved to a storage of its own before each operation, with different contents of fresh and recycled memory; the contents of every live tensor are compared bit by bit after every operation.", {"src/Tensor", "src/Operation (CPU)", "src/Function"}, {"entropy, heap (simulated)"}, genC25, execC25, 400000, 16000000, 25, 600, {}});

// ---- C22: gradient mode in threads
template <class... A>
std::string fmt(const char* f, A... a) {
  char b[400];
  snprintf(b, sizeof b, f, a...);
  return b;
}
using ExFn = Tensor (*)(const Tensor&, u64);
// expressions over a tensor of shape [a,b,c]; all dimensions >= 1
const std::vector<ExFn>& exprs() {
  static const std::vector<ExFn> v = {
      [](const Tensor& x, u64) { return x.reshape({x.numel()}); },
      [](const Tensor& x, u64) { return x.view({x.shape(0) * x.shape(1), x.shape(2)}); },
      [](const Tensor& x, u64) { return x.flatten(); },
      [](const Tensor& x, u64 r) { return x.permute({(i64)r % 3, (i64)(r + 1) % 3, (i64)(r + 2) % 3}); },
      [](const Tensor& x, u64) { return x.permute(); },
      [](const Tensor& x, u64 r) { return x.transpose(r % 3, r / 3 % 3); },
      [](const Tensor& x, u64 r) { return x.unsqueeze(r % 4).squeeze(r % 4); },
      [](const Tensor& x, u64) { return x.squeeze(); },
      [](const Tensor& x, u64 r) { return x.unflatten(r % 3, {x.shape(r % 3), 1}); },
      [](const Tensor& x, u64) { return x.sum(); },
      [](const Tensor& x, u64) { return x.sum().sum(); },
      [](const Tensor& x, u64 r) { return x.sum(r % 3, r & 4); },
      [](const Tensor& x, u64) { return x.mean(); },
      [](const Tensor& x, u64) { return x.mean().mean(); },
      [](const Tensor& x, u64 r) { return x.mean(r % 3); },
      [](const Tensor& x, u64) { return x.min(); },
      [](const Tensor& x, u64) { return x.max().max(); },
      [](const Tensor& x, u64 r) { return r & 4 ? x.min(r % 3).first : x.max(r % 3).first; },
      [](const Tensor& x, u64 r) { return x.var(r % 3, false); },
      [](const Tensor& x, u64) { return x + x * 2.f; },
      [](const Tensor& x, u64) { return 1.f - x; },
      [](const Tensor& x, u64) { return x / 3.f; },
      [](const Tensor& x, u64 r) { return x * VM::pattern({x.shape(2)}, DType::Float32, r); },
      [](const Tensor& x, u64) { return x.sin(); },
      [](const Tensor& x, u64) { return x.cos(); },
      [](const Tensor& x, u64) { return x.pow(2); },
      [](const Tensor& x, u64) { return Tensor::maximum(x, x * 0.5f); },
      [](const Tensor& x, u64) { return function::relu(x); },
      [](const Tensor& x, u64) { return function::gelu(x); },
      [](const Tensor& x, u64) { return function::silu(x); },
      [](const Tensor& x, u64 r) { return function::softmax(x, r % 3); },
      [](const Tensor& x, u64 r) { return function::logSoftmax(x, r % 3); },
      [](const Tensor& x, u64) { return function::dropout(x, 0.5f, false); },
      [](const Tensor& x, u64 r) { return function::linear(x.reshape({x.numel() / x.shape(2), x.shape(2)}), VM::pattern({3, x.shape(2)}, DType::Float32, r)); },
      [](const Tensor& x, u64) { return x.matmul(x, false, true); },
      [](const Tensor& x, u64 r) { return x.split(1, r % 3)[0]; },
      [](const Tensor& x, u64 r) { return x.narrow(r % 3, 0, 1); },
      [](const Tensor& x, u64 r) {
        std::vector<Tensor> l{x, x * 2.f};
        return r & 4 ? function::concat(ArrayView<Tensor>(l), r % 3) : function::stack(ArrayView<Tensor>(l), r % 3);
      },
      [](const Tensor& x, u64 r) { return r & 1 ? x.tril() : x.triu(); },
      [](const Tensor& x, u64 r) { return function::indexSelect(x, r % 3, VM::indices({2}, x.shape(r % 3), r)); },
      [](const Tensor& x, u64 r) { return function::repeatInterleave(x, 2, r % 3); },
      [](const Tensor& x, u64) { return function::expand(x.unsqueeze(0), IntArrayView{2, x.shape(0), x.shape(1), x.shape(2)}); },
      [](const Tensor& x, u64 r) { return function::conv2d(x.unsqueeze(0), VM::pattern({2, x.shape(0), 1, 1}, DType::Float32, r)); },
      [](const Tensor& x, u64) { return function::maxPool2d(x.unsqueeze(0), 1, 1); },
      [](const Tensor& x, u64 r) { return function::layerNorm(x, IntArrayView{x.shape(2)}, VM::pattern({x.shape(2)}, DType::Float32, r), Tensor()); },
      [](const Tensor& x, u64 r) { return function::rmsNorm(x, IntArrayView{x.shape(2)}, VM::pattern({x.shape(2)}, DType::Float32, r)); },
      [](const Tensor& x, u64) { return function::sdpAttention(x.unsqueeze(0), x.unsqueeze(0), x.unsqueeze(0), true); },
      [](const Tensor& x, u64 r) { return function::cumsum(x, r % 3); },
      [](const Tensor& x, u64 r) { return function::topk(x, 1, r % 3).first; },
      [](const Tensor& x, u64 r) { return function::sort(x, r % 3).first; },
      [](const Tensor& x, u64 r) { return function::mseLoss(x, VM::pattern(shapeOf(x), DType::Float32, r)); },
      [](const Tensor& x, u64 r) { return function::gather(x, r % 3, VM::indices(shapeOf(x), x.shape(r % 3), r)); },
  };
  return v;
}
// operations of the random programs that draw no random numbers
const std::vector<const Named*>& calmOps() {
  static const std::vector<const Named*> v = [] {
    static const char* skip[] = {"seed", "rand", "refill", "draws", "multinomial", "dropout", "autograd", "rowGrad", "layerGrad", "convGrad", "train", "init", "attention", "embedding"};
    std::vector<const Named*> r;
    for (auto& o : ops()) {
      bool s = false;
      for (auto* k : skip) s |= !strcmp(k, o.name);
      if (!s) r.push_back(&o);
    }
    return r;
  }();
  return v;
}
struct T22 {
  std::vector<Step> tr;
  std::string bad;
};
struct Shared22 {
  std::vector<Tensor> leaf;
};
Sh shape22(u64 r) { return {1 + (i64)(r % 3), 1 + (i64)(r / 3 % 4), 1 + (i64)(r / 12 % 4)}; }
void expr22(T22& T, const Tensor& x, u64 k, u64 r, bool enabled, const char* who) {
  bool req = x.requiresGrad();
  Tensor y = exprs()[k % exprs().size()](x, r);
  bool got = y.requiresGrad();
  u64 hy = VM::hash(y);
  NoPreempt np;
  T.tr.push_back({hy + got, "expression " + std::to_string(k % exprs().size()) + " in " + who});
  if (got != (req && enabled)) T.bad = fmt("%s: expression %d of a tensor with requiresGrad=%d gave requiresGrad=%d while recording is %s", who, (int)(k % exprs().size()), req, got, enabled ? "on" : "off");
  if (NoGradGuard::isGradEnabled() != enabled) T.bad = fmt("%s: recording is %s, expected %s", who, enabled ? "off" : "on", enabled ? "on" : "off");
  if (x.requiresGrad() != req) T.bad = fmt("%s: expression %d changed its input's requiresGrad", who, (int)(k % exprs().size()));
}
Tensor chain22(const Tensor& x, const Tensor& w, u64 r) {
  Tensor z = x;
  for (int i = 0, n = 1 + r % 5; i < n; i++, r /= 7) switch ((r / 5) % 7) {
      case 0: z = z * w; break;
      case 1: z = z + x; break;
      case 2: z = z.sin(); break;
      case 3: z = function::relu(z); break;
      case 4: z = function::softmax(z, -1); break;
      case 5: z = z.reshape(x.shape()) * 0.5f; break;
      default: z = z - w * 2.f;
    }
  return z;
}
void thread22(const Plan& p, int id, Shared22& S, T22& T, std::string& cur) {
  VM m;
  std::vector<std::unique_ptr<NoGradGuard>> guards;
  std::vector<Tensor> own;
  for (int i = 0; i < 2; i++) {
    Tensor t = VM::pattern(shape22(p.k("shape") + id * 5 + i), DType::Float32, 100 + id * 10 + i);
    t.setRequiresGrad(true);
    own.push_back(t);
  }
  own.push_back(VM::pattern(shape22(p.k("shape")), DType::Float32, 7));
  Tensor par = VM::pattern({2, 3}, DType::Float32, id);
  par.setRequiresGrad(true);
  {
    optim::SGD opt({&par}, 0.1f);
    for (auto& l : p.lines) {
      if (l.a.empty() || l.arg(0) != id) continue;
      bool enabled = guards.empty();
      u64 r = l.arg(2);
      {
        NoPreempt np;
        cur = l.kind;
      }
      if (l.kind == "guard") guards.push_back(std::make_unique<NoGradGuard>());
      else if (l.kind == "unguard") {
        if (!guards.empty()) guards.pop_back();
      } else if (l.kind == "nested") {
        WithNoGrad {
          expr22(T, own[r % 3], l.arg(1), r, false, "guarded block");
          {
            NoGradGuard g2;
            expr22(T, own[r / 3 % 3], l.arg(1) / 64, r, false, "inner guard");
          }
          expr22(T, own[r / 9 % 3], l.arg(1) / 4096, r, false, "guarded block after inner guard");
        }
        expr22(T, own[r % 3].clone(), l.arg(1), r, enabled, "code after guarded block");
      } else if (l.kind == "expr") {
        Tensor x = r & 1 && !S.leaf.empty() ? S.leaf[r / 2 % S.leaf.size()] : own[r / 2 % 3];
        expr22(T, x.clone(), l.arg(1), r, enabled, enabled ? "recording code" : "guarded code");
        if (!enabled) expr22(T, x, l.arg(1), r, false, "guarded code");
      } else if (l.kind == "same") {
        // the value does not depend on the mode
        const Tensor& x = own[r % 3];
        u64 k = l.arg(1) % exprs().size();
        Tensor a = exprs()[k](x.clone(), r);
        u64 ha = VM::hash(a), hb = 0;
        WithNoGrad {
          Tensor b = exprs()[k](x, r);
          hb = VM::hash(b);
        }
        NoPreempt np;
        if (ha != hb) T.bad = fmt("expression %d gives another value under a guard", (int)k);
      } else if (l.kind == "grad") {
        Tensor x = VM::pattern(shapeOf(own[0]), DType::Float32, r);
        x.setRequiresGrad(true);
        Tensor w = VM::pattern(shapeOf(own[0]), DType::Float32, r + 1);
        Tensor z = chain22(x, w, r);
        if (z.requiresGrad() != enabled) {
          if (!(z.equals(x))) {
            NoPreempt np;
            T.bad = fmt("a chain of operations gave requiresGrad=%d while recording is %s", z.requiresGrad(), enabled ? "on" : "off");
          }
        } else if (enabled) {
          if (r & 64) {
            WithNoGrad { z.backward(VM::pattern(shapeOf(z), DType::Float32, r + 2)); }
          } else
            z.backward(VM::pattern(shapeOf(z), DType::Float32, r + 2));
          u64 h = x.grad().defined() ? VM::hash(x.grad()) : 0;
          NoPreempt np;
          T.tr.push_back({h, "gradient"});
          if (!h) T.bad = "backward left no gradient";
        }
      } else if (l.kind == "step") {
        Tensor x = VM::pattern({2, 3}, DType::Float32, r);
        opt.zeroGrad();
        Tensor z = (par * x).sum();
        if (enabled) {
          z.backward();
          opt.step();
        }
        u64 h = VM::hash(par);
        NoPreempt np;
        T.tr.push_back({h, "parameter"});
        if (!par.requiresGrad()) T.bad = "the parameter lost requiresGrad";
        if (NoGradGuard::isGradEnabled() != enabled) T.bad = "an optimiser step changed the recording mode";
      } else if (l.kind == "child") {
        T22 sub;
        std::string c2;
        Thread* t = spawn(curNode(), "child", [&] {
          expr22(sub, own[r % 3].clone(), l.arg(1), r, true, "new thread");
          NoGradGuard g;
          expr22(sub, own[r % 3], l.arg(1) / 64, r, false, "new thread's guard");
        });
        expr22(T, own[r % 3].clone(), l.arg(1) / 4096, r, enabled, "parent");
        join(t, 1000 * SEC);
        NoPreempt np;
        for (auto& x : sub.tr) T.tr.push_back(x);
        if (!sub.bad.empty()) T.bad = sub.bad;
      } else if (l.kind == "calm") {
        Line o{"calm", {l.arg(1), l.arg(2), l.arg(3), l.arg(4), l.arg(5)}};
        auto& c = calmOps();
        const Named* f = m.P.size() < 3 ? find("pattern") : c[(u64)l.arg(6) % c.size()];
        o.kind = f->name;
        m.L = &o;
        f->fn(m);
        m.flush();
        m.L = nullptr;
      }
      if (!T.bad.empty()) break;
    }
    while (!guards.empty()) guards.pop_back();
  }
  if (T.bad.empty()) expr22(T, own[0].clone(), 27, 1, true, "code after all guards");
  for (auto& x : m.trace) T.tr.push_back(x);
}
void execC22(const Plan& p) {
  applySwarm(p);
  static std::string cur;
  cur = "start";
  exprs();
  calmOps();
  int n = p.k("threads");
  armSched();
  std::vector<T22> ref(n), par(n);
  for (int round = 0; round < 2; round++) {
    Node* nd = newNode(round ? "concurrent" : "alone");
    auto& out = round ? par : ref;
    runIn(nd, "main", [&] {
      Shared22 S;
      for (int i = 0; i < 2; i++) {
        S.leaf.push_back(VM::pattern(shape22(p.k("shape") + 3 * i), DType::Float32, 50 + i));
        S.leaf[i].setRequiresGrad(i == 0);
      }
      std::vector<u64> before;
      for (auto& t : S.leaf) before.push_back(VM::hash(t));
      std::vector<Thread*> ts;
      for (int i = 0; i < n; i++) {
        Thread* t = spawn(nd, fmt("t%d", i), [&, i] { thread22(p, i, S, out[i], cur); });
        if (round) ts.push_back(t);
        else if (!join(t, 100000 * SEC)) violation("hang", "%s", threadDump().c_str());
      }
      for (auto* t : ts)
        if (!join(t, 100000 * SEC)) violation("hang", "%s", threadDump().c_str());
      for (size_t i = 0; i < S.leaf.size(); i++)
        if (VM::hash(S.leaf[i]) != before[i] || S.leaf[i].requiresGrad() != (i == 0)) violation("shared-changed", "a tensor that was only read has changed");
    });
    for (int i = 0; i < n; i++)
      if (!out[i].bad.empty()) violation("grad-mode", "%s (thread %d, %s)", out[i].bad.c_str(), i, round ? "concurrent" : "alone");
    kill(nd);
  }
  for (int i = 0; i < n; i++) {
    for (size_t k = 0; k < std::min(ref[i].tr.size(), par[i].tr.size()); k++)
      if (ref[i].tr[k].h != par[i].tr[k].h || ref[i].tr[k].what != par[i].tr[k].what)
        violation("thread-interference", "result %zu (%s / %s) of thread %d differs when other threads run", k, ref[i].tr[k].what.c_str(), par[i].tr[k].what.c_str(), i);
    if (ref[i].tr.size() != par[i].tr.size()) violation("thread-interference", "%zu and %zu results", ref[i].tr.size(), par[i].tr.size());
  }
}
Plan genC22(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.faults = false;
  genSwarm(g, p, s);
  int n = g.range(2, 4);
  p.knob["threads"] = n;
  p.knob["shape"] = g.below(1000);
  static const char* kinds[] = {"guard", "unguard", "nested", "expr", "same", "grad", "step", "child", "calm"};
  std::vector<int> w;
  for (int i = 0; i < 9; i++) w.push_back(g.chance(2, 3) ? 1 + (i == 3) * 2 + (i == 8) * 3 : 0);
  w[0] = w[1] = 2;
  w[3] += 1;
  int sum = 0;
  for (int x : w) sum += x;
  int m = g.range(4, thorough ? 50 : 30);
  // threads collide in the same code when a run concentrates on few operations
  i64 few[2][3];
  for (auto& x : few)
    for (auto& y : x) y = g.below(1ull << 40);
  bool focus = g.chance(2, 3);
  for (int i = 0; i < m; i++) {
    int r = g.below(sum), k = 0;
    while (r >= w[k]) r -= w[k++];
    Line l{kinds[k], {(i64)g.below(n)}};
    if (k >= 2)
      {
      for (int j = 0; j < 6; j++) l.a.push_back(g.below(1ull << 40));
      if (focus) {
        l.a[1] = k == 8 ? l.a[1] : few[0][g.below(3)];
        l.a[6] = few[1][g.below(3)];
      }
    }
    p.lines.push_back(l);
  }
  return p;
}
Reg r22({"C22", "2-4 threads (plus threads they start) of one process run random programs of nested guards, 50 kinds of expressions over tensors that require gradients (own and shared), backward passes, optimiser steps and 40 kinds of plain tensor operations under seeded interleavings down to single memory accesses; every requires-grad flag is compared with the thread's own guard nesting, every value, gradient and parameter bit by bit with the same thread program running alone, and guarded with unguarded results.", {"src/Tensor/NoGradGuard.*", "src/Tensor/Function.h", "src/Function", "src/Operation (CPU)", "src/Tensor", "src/Optimizer.cpp"}, {"pthreads, heap (simulated)"}, genC22, execC22, 400000, 16000000, 30, 600, {}});
#endif  // VM_GPU
}  // namespace
