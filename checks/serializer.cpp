// C16, C17, C18: checkpoints under disk faults, crashes and damage; training resumed from them
#include "Serializer.h"

#include <errno.h>
#include <string.h>

#include "Data/DataLoader.h"
#include "Functions.h"
#include "Optimizer.h"
#include "common.h"
#include "tt.h"

using namespace sim;
using namespace tinytorch;
namespace {
const char* PATH = "/tmp/model.ckpt";
std::string nameOf(u64 x) {
  static const char* N[] = {"w", "running_mean", "", "a b", "x.y", "weird\n\"name", "\xff\x01z", "0"};
  std::string s = N[x % 8];
  if (x % 11 == 3) s += std::string(50 + x % 400, 'n');
  return s;
}
// a module holding one buffer of any type and shape
struct State : nn::Module {
  std::string name;
  Tensor t;
  State(std::string n, const std::vector<i64>& shape, DType d) : name(std::move(n)), t(Tensor::empty(IntArrayView(shape), options::dtype(d))) {}
  std::vector<std::pair<std::string, TensorPtr>> namedStates_() override { return {{name, &t}}; }
};
// mod <kind> <a> <b> <level>
std::shared_ptr<nn::ModuleList> build(const std::vector<Line>& ls) {
  auto root = std::make_shared<nn::ModuleList>();
  std::vector<std::shared_ptr<nn::ModuleList>> st{root};
  for (auto& l : ls) {
    if (l.kind != "mod") continue;
    i64 a = l.arg(1), b = l.arg(2);
    size_t lv = (size_t)l.arg(3) % (st.size() + 1);
    st.resize(std::min(st.size(), std::max<size_t>(1, lv)));
    if (lv >= st.size() && lv > 0) {
      auto sub = std::make_shared<nn::ModuleList>();
      st.back()->pushBack(sub);
      st.push_back(sub);
    }
    auto& m = *st.back();
    static const DType DT[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
    switch (l.arg(0) % 10) {
      case 0: m.pushBack(std::make_shared<nn::Linear>(1 + a % 9, 1 + b % 7, (a + b) % 3 != 0)); break;
      case 1: m.pushBack(std::make_shared<nn::Conv2D>(1 + a % 3, 1 + b % 4, Dim2D(1 + a % 3, 1 + b % 3), 1, 0, b % 2)); break;
      case 2: m.pushBack(std::make_shared<nn::LayerNorm>(IntArrayView{1 + a % 12}, 1e-5f, b % 2)); break;
      case 3: m.pushBack(std::make_shared<nn::RMSNorm>(IntArrayView{1 + a % 5, 1 + b % 5})); break;
      case 4: m.pushBack(std::make_shared<nn::Embedding>(1 + a % 20, 1 + b % 10)); break;
      case 5: m.pushBack(std::make_shared<nn::RoPE>(2 * (1 + a % 4), 1 + b % 16)); break;
      case 6: {
        std::vector<i64> s;
        for (i64 i = 0, x = b; i < a % 7; i++, x /= 5) s.push_back(1 + x % 5);
        if (a % 13 == 5 && !s.empty()) s[b % s.size()] = 0;
        m.pushBack(std::make_shared<State>(nameOf(b), s, DT[a % 6]));
        break;
      }
      case 7: m.pushBack(std::make_shared<State>(nameOf(b), std::vector<i64>{1 + a * 97 % 30000}, DT[b % 6])); break;
      case 8: m.pushBack(std::make_shared<nn::Relu>()); break;
      default: m.pushBack(std::make_shared<State>(nameOf(a), std::vector<i64>{}, DT[b % 6])); break;
    }
  }
  return root;
}
void fill(nn::Module& m, u64 salt) {
  u64 i = 0;
  for (auto& [n, t] : m.namedStates()) {
    i++;
    size_t nb = t->nbytes();
    if (!nb) continue;
    std::string s(nb, 0);
    u64 x = Rng::mix(salt * 1000 + i);
    for (size_t k = 0; k < nb; k++) {
      if (k % 8 == 0) x = Rng::mix(x);
      s[k] = (char)(x >> (k % 8 * 8));
      if (t->dtype() == DType::Bool) s[k] &= 1;
    }
    memcpy(t->dataPtr<>(), s.data(), nb);
  }
}
struct Ent {
  std::string name;
  std::vector<i64> shape;
  u64 dtype = 0, off = 0, size = 0;
};
using States = std::map<std::string, std::string>;
std::string bytesOf(Tensor& t) { return t.nbytes() ? std::string((const char*)t.dataPtr<>(), t.nbytes()) : std::string(); }
States statesOf(nn::Module& m) {
  States s;
  for (auto& [n, t] : m.namedStates()) s[n] = bytesOf(*t);
  return s;
}
// independent reader of the file format; false: damaged
bool parse(const std::string& f, std::vector<Ent>& out, u64& headerEnd) {
  size_t o = 0;
  auto u = [&](u64& v) {
    if (f.size() - o < 8) return false;
    memcpy(&v, f.data() + o, 8);
    o += 8;
    return true;
  };
  u64 magic, ver, cnt;
  if (!u(magic) || !u(ver) || !u(cnt) || magic != 0x54494E59 || ver != 1) return false;
  if (cnt > f.size() / 40) return false;
  for (u64 i = 0; i < cnt; i++) {
    Ent e;
    u64 nl, nd;
    if (!u(nl) || !u(nd) || !u(e.dtype) || !u(e.off) || !u(e.size)) return false;
    if (nl > f.size() - o) return false;
    e.name = f.substr(o, nl);
    o += nl;
    if (nd > (f.size() - o) / 8) return false;
    for (u64 k = 0; k < nd; k++) {
      u64 d;
      if (!u(d)) return false;
      e.shape.push_back((i64)d);
    }
    out.push_back(e);
  }
  headerEnd = o;
  return true;
}
std::string diff(const States& want, const States& got) {
  char b[300];
  for (auto& kv : want) {
    auto it = got.find(kv.first);
    if (it == got.end()) return "tensor missing";
    if (it->second == kv.second) continue;
    size_t i = 0;
    while (i < it->second.size() && i < kv.second.size() && it->second[i] == kv.second[i]) i++;
    snprintf(b, sizeof b, "tensor '%.30s' (%zu bytes) differs from byte %zu", kv.first.c_str(), kv.second.size(), i);
    return b;
  }
  return "";
}
void fsKnobs(const Plan& p) {
  fs.pErr = p.k("ferr");
  fs.pShort = p.k("fshort");
  if (p.knob.count("disk")) fs.diskFree = p.k("disk");
}
void fsCalm() {
  fs.pErr = fs.pShort = 0;
  fs.diskFree = ~0ull;
}
const int ERRS[] = {EIO, ENOSPC, EACCES, EMFILE, EDQUOT, EFBIG};
void schedFaults(const Plan& p, Node* n) {
  for (auto& l : p.lines)
    if (l.kind == "fail") failFsCall(n, 1 + l.arg(0), ERRS[l.arg(1) % 6], 0);
    else if (l.kind == "short") failFsCall(n, 1 + l.arg(0), 0, 1 + l.arg(1));
}
std::vector<Line> only(const Plan& p, const char* from) {
  std::vector<Line> r;
  for (auto l : p.lines)
    if (l.kind == from) {
      l.kind = "mod";
      r.push_back(l);
    }
  return r;
}
// a thread of a process doing one thing; false: it died or hangs
void runIn(Node* n, const char* what, const std::function<void()>& fn) {
  if (!join(spawn(n, what, fn), 10000 * SEC) && alive(n)) violation("hang", "%s: %s", what, threadDump().c_str());
}

// =================================================================== C16
void execC16(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  auto mods = only(p, "mod");
  std::string path = PATH;
  if (p.k("path") == 1) path = "/tmp/missing/dir/model.ckpt";
  if (p.k("path") == 2) fsMkdir(path);
  if (p.k("old")) fsWrite(PATH, std::string(p.k("old"), 'x'));
  Node* saver = newNode("saver");
  armSched();
  bool ok = false;
  int faults = 0;
  States want;
  int rounds = 1 + p.k("rounds");
  runIn(saver, "saver", [&] {
    auto m = build(mods);
    for (int r = 0; r < rounds; r++) {
      fill(*m, 7 + r);
      {
        NoPreempt np;
        want = statesOf(*m);
      }
      int fds = openFds(saver), f0 = fsFaultsSeen(curThreadId());
      schedFaults(p, saver);
      fsKnobs(p);
      ok = Serializer::save(*m, path);
      NoPreempt np;
      fsCalm();
      faults = fsFaultsSeen(curThreadId()) - f0;
      if (openFds(saver) != fds) violation("descriptor-leak", "%d descriptors open after save", openFds(saver) - fds);
      if (statesOf(*m) != want) violation("save-changed-module", "%s", diff(want, statesOf(*m)).c_str());
      stateHash(ok * 2 + (faults > 0));
      if (ok && faults) violation("save-hides-error", "save returned true although %d file-system calls failed", faults);
      if (!ok && !faults && p.k("path") == 0) violation("save-fails", "save returned false although nothing failed");
      if (ok && p.k("path")) violation("save-hides-error", "save returned true for an unusable path");
      if (!ok) probe("save-failed");
    }
  });
  if (!ok) return;
  // the acknowledged file survives whatever happens to its writer
  if (p.k("killed", 1)) kill(saver);
  Node* loader = newNode("loader");
  runIn(loader, "loader", [&] {
    auto m = build(mods);
    fill(*m, 99);
    bool r = Serializer::load(*m, PATH, p.k("strict", 1));
    NoPreempt np;
    auto got = statesOf(*m);
    if (!r) violation("acknowledged-not-loadable", "load of a file whose save returned true failed");
    auto d = diff(want, got);
    if (!d.empty()) violation("not-restored", "%s", d.c_str());
    if (openFds(loader)) violation("descriptor-leak", "%d descriptors open after load", openFds(loader));
    probe("round-trip");
  });
}
void genMods(Rng& g, Plan& p, const char* kind, int n) {
  for (int i = 0; i < n; i++)
    p.lines.push_back({kind, {(i64)(g.chance(1, 12) ? 7 : g.below(10)), (i64)g.below(1000), (i64)g.below(1000), (i64)g.below(3)}});
}
Plan genC16(Rng& g, bool) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  genSwarm(g, p, s);
  genMods(g, p, "mod", 1 + g.below(6));
  if (g.chance(1, 12)) p.knob["path"] = 1 + g.below(2);
  if (g.chance(1, 3)) p.knob["old"] = 1 + g.below(100000);
  if (g.chance(1, 3)) p.knob["rounds"] = 1 + g.below(3);
  p.knob["strict"] = g.below(2);
  if (g.chance(1, 4)) p.knob["ferr"] = 1 + g.below(200);
  if (g.chance(1, 3)) p.knob["fshort"] = 10 + g.below(700);
  if (g.chance(1, 4)) p.knob["disk"] = g.chance(1, 3) ? g.below(200000) : g.below(3000);
  if (g.chance(1, 3)) p.lines.push_back({"fail", {(i64)g.below(8), (i64)g.below(6)}});
  if (g.chance(1, 6)) p.lines.push_back({"short", {(i64)g.below(6), (i64)g.below(500)}});
  return p;
}
Reg r16({"C16", "a module of 1-6 layers/buffers of random kind, nesting, element type and size (up to 240 KB) is filled with random bits and saved 1-4 times while calls fail (scheduled or random EIO/ENOSPC/EACCES.., disk full after a byte count, short writes); then a fresh process loads the file.", {"src/Serializer.cpp", "src/Utils/MMapUtils.cpp", "src/Module", "src/Tensor", "libstdc++ streams"}, {"file system (simulated)", "scheduler (simulated)"}, genC16, execC16, 100000, 4000000, 25, 600, {}});

// =================================================================== C17
// mut <kind> <pos> <value>
void mutate(std::string& f, const std::vector<Ent>& ents, u64 hdrEnd, const Line& l, const std::string& other) {
  u64 a = l.arg(1), b = l.arg(2);
  auto put = [&](size_t o, u64 v) {
    if (o + 8 <= f.size()) memcpy(&f[o], &v, 8);
  };
  static const u64 V[] = {0, 1, 2, 5, 40, 255, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 39, 1ull << 61, (1ull << 61) + 1, 1ull << 32};
  switch (l.arg(0) % 12) {
    case 0: f.resize(a % (f.size() + 1)); break;                                      // cut anywhere
    case 1: f.resize(std::min<u64>(f.size(), a % (hdrEnd + 64))); break;              // cut in the structure
    case 2: f.clear(); break;
    case 3: if (hdrEnd && !f.empty()) f[a % std::min<u64>(hdrEnd, f.size())] ^= (char)(1 << b % 8); break;  // flip a bit of the structure
    case 4: put(a % 3 * 8, V[b % 16]); break;                                         // magic, version, count
    case 5:
    case 6:
    case 7: {                                                                         // a field of an entry header
      if (ents.empty()) break;
      size_t o = 24, k = a % ents.size();
      for (size_t i = 0; i < k; i++) o += 40 + ents[i].name.size() + 8 * ents[i].shape.size();
      u64 fld = a / 64 % 5, v = V[b % 16];
      u64 old = 0;
      if (o + 40 <= f.size()) memcpy(&old, &f[o + fld * 8], 8);
      if (b / 16 % 3 == 1) v = old + (i64)(b / 64 % 33) - 16;
      if (b / 16 % 3 == 2) v = f.size() - (b / 64 % 48) + 8;
      put(o + fld * 8, v);
      break;
    }
    case 8: f += std::string(1 + a % 300, (char)b); break;                            // appended bytes
    case 9: f.replace(0, std::min<u64>(f.size(), a % (other.size() + 1)), other.substr(0, a % (other.size() + 1))); break;  // partly overwritten by another file
    case 10: {                                                                        // block lost: zeros
      size_t blk = 512 << b % 4, o = f.empty() ? 0 : a % f.size() / blk * blk;
      for (size_t i = o; i < std::min(f.size(), o + blk); i++) f[i] = 0;
      break;
    }
    default: if (ents.size() >= 2) {                                                  // two entries with the same name
      size_t o = 24;
      std::vector<size_t> at;
      for (auto& e : ents) at.push_back(o), o += 40 + e.name.size() + 8 * e.shape.size();
      size_t i = a % ents.size(), j = b % ents.size();
      if (o <= f.size() && ents[i].name.size() == ents[j].name.size()) f.replace(at[j] + 40, ents[i].name.size(), ents[i].name);
    }
  }
}
void execC17(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  auto mods = only(p, "mod"), need = p.k("same", 1) ? mods : only(p, "need");
  armSched();
  std::string file, other;
  bool strict = p.k("strict", 1);
  runIn(newNode("saver0"), "saver0", [&] {
    auto m2 = build(only(p, "other"));
    fill(*m2, 5);
    if (!Serializer::save(*m2, "/tmp/other.ckpt")) violation("save-fails", "other module");
  });
  Node* sv = newNode("saver");
  if (p.knob.count("crash")) {  // the writer dies midway, over an older file
    if (p.k("over")) {
      std::string o;
      fsRead("/tmp/other.ckpt", o);
      fsWrite(PATH, o);
    }
    if (p.k("fshort")) fs.pShort = p.k("fshort");
    crashAtFsCall(sv, 1 + p.k("crash"), p.k("before"));
  }
  bool acked = false;
  runIn(sv, "saver", [&] {
    auto m = build(mods);
    fill(*m, 7);
    acked = Serializer::save(*m, PATH);
    if (!acked) violation("save-fails", "module");
  });
  fsCalm();
  fsRead(PATH, file);
  fsRead("/tmp/other.ckpt", other);
  std::vector<Ent> ents;
  u64 hdrEnd = 0;
  std::string orig = file;
  bool parsed = parse(file, ents, hdrEnd);
  if (acked && !parsed) inconclusive("file format not understood");
  if (!parsed) ents.clear();
  for (auto& l : p.lines)
    if (l.kind == "mut") {
      mutate(file, ents, hdrEnd, l, other);
      fault("file-damaged");
    }
  if (file != orig || p.k("rewrite")) fsWrite(PATH, file);
  if (p.k("gone")) fsRemove(PATH);
  // independent reading of what the file now holds
  ents.clear();
  parsed = parse(file, ents, hdrEnd) && !p.k("gone");
  Node* ld = newNode("loader");
  runIn(ld, "loader", [&] {
    auto m = build(need);
    fill(*m, 99);
    States before, after;
    std::map<std::string, std::pair<std::vector<i64>, u64>> typ;
    {
      NoPreempt np;
      before = statesOf(*m);
      for (auto& [n, t] : m->namedStates()) typ[n] = {std::vector<i64>(t->shape().begin(), t->shape().end()), (u64)t->dtype()};
    }
    schedFaults(p, ld);
    fsKnobs(p);
    int f0 = fsFaultsSeen(curThreadId());
    bool r = Serializer::load(*m, PATH, strict);
    int faults = fsFaultsSeen(curThreadId()) - f0;
    NoPreempt np;
    fsCalm();
    after = statesOf(*m);
    for (auto& [n, t] : m->namedStates())
      if (typ[n] != std::make_pair(std::vector<i64>(t->shape().begin(), t->shape().end()), (u64)t->dtype())) violation("load-changes-structure", "tensor '%s'", n.c_str());
    stateHash(r * 8 + strict * 4 + parsed * 2 + (faults > 0));
    if (openFds(ld)) violation("descriptor-leak", "%d descriptors open after load", openFds(ld));
    // what must be accepted: an undamaged file that fits
    bool fits = parsed;
    std::set<std::string> seen;
    u64 run = hdrEnd;
    if (parsed)
      for (auto& e : ents) {
        auto it = typ.find(e.name);
        if (!seen.insert(e.name).second) fits = false;
        if (it == typ.end()) {
          if (strict) fits = false;
        } else if (it->second != std::make_pair(e.shape, e.dtype)) fits = false;
      }
    if (strict && seen.size() != typ.size()) fits = false;
    if (!r) {
      probe("load-rejected");
      if (acked && file == orig && fits && !faults && !p.k("gone")) violation("good-file-rejected", "load (strict=%d) of an undamaged fitting checkpoint returned false", strict);
      return;
    }
    probe("load-accepted");
    if (!parsed) violation("damaged-accepted", "load returned true for a file of %zu bytes whose structure is incomplete", file.size());
    if (!fits) violation("mismatch-accepted", "load (strict=%d) returned true although the entries of the file do not match the module's tensors", strict);
    for (auto& e : ents) {
      auto it = typ.find(e.name);
      u64 at = run;
      run += e.size;
      if (it == typ.end()) continue;
      u64 nb = before[e.name].size();
      if (e.size != nb) violation("mismatch-accepted", "tensor '%s' of %llu bytes taken from an entry of %llu bytes", e.name.c_str(), (unsigned long long)nb, (unsigned long long)e.size);
      if (!nb) continue;
      bool in = at <= file.size() && nb <= file.size() - at && after[e.name] == file.substr(at, nb);
      if (!in && !strict) in = e.off <= file.size() && nb <= file.size() - e.off && after[e.name] == file.substr(e.off, nb);
      if (!in) violation("wrong-data-accepted", "load (strict=%d) returned true but tensor '%s' does not hold its saved value (file %zu bytes, data expected at %llu, entry says %llu)", strict, e.name.c_str(), file.size(), (unsigned long long)at, (unsigned long long)e.off);
    }
    for (auto& kv : before)
      if (!seen.count(kv.first) && after[kv.first] != kv.second) violation("foreign-tensor-changed", "tensor '%s' is not in the file", kv.first.c_str());
  });
}
Plan genC17(Rng& g, bool) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  genSwarm(g, p, s);
  genMods(g, p, "mod", 1 + g.below(5));
  genMods(g, p, "other", 1 + g.below(4));
  p.knob["strict"] = g.chance(2, 3);
  if (g.chance(1, 5)) {
    p.knob["same"] = 0;
    auto base = only(p, "mod");
    for (auto l : base) {
      if (g.chance(1, 4)) continue;
      if (g.chance(1, 6)) l.a[1] += 1;
      l.kind = "need";
      p.lines.push_back(l);
    }
    if (g.chance(1, 3)) genMods(g, p, "need", 1);
  }
  if (g.chance(1, 4)) {
    p.knob["crash"] = g.below(8);
    p.knob["before"] = g.below(2);
    p.knob["over"] = g.below(2);
    if (g.chance(1, 2)) p.knob["fshort"] = 300 + g.below(600);
  }
  int n = g.chance(1, 6) ? 0 : g.chance(3, 4) ? 1 : 2;
  for (int i = 0; i < n; i++) p.lines.push_back({"mut", {(i64)g.below(12), (i64)g.below(1 << 20), (i64)g.below(1 << 16)}});
  if (g.chance(1, 30)) p.knob["gone"] = 1;
  if (g.chance(1, 8)) p.knob["ferr"] = 1 + g.below(400);
  if (g.chance(1, 8)) p.lines.push_back({"fail", {(i64)g.below(4), (i64)g.below(6)}});
  return p;
}
Reg r17({"C17", "a checkpoint of a random module is cut short (at any byte, or by killing the writer at one of its file-system calls, also over an older file), bit-flipped, has a header field replaced by an extreme, off-by-some or wrapping value, is partly overwritten, zeroed in blocks, extended or has duplicate names; then a fresh process loads it, strictly or not, into a matching or different module, with failing open/stat/map/read. An independent parser of the format decides what may be accepted.", {"src/Serializer.cpp", "src/Utils/MMapUtils.cpp", "src/Module", "src/Tensor"}, {"file system and mmap (simulated; accesses behind the end of the file are detected)"}, genC17, execC17, 200000, 8000000, 30, 600, {}});

// =================================================================== C18
struct Toy : data::Dataset {
  i64 n, d;
  Toy(i64 n, i64 d) : n(n), d(d) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override {
    std::vector<float> x(d * d);
    for (i64 k = 0; k < d * d; k++) x[k] = (float)((i64)(Rng::mix(i * 100 + k) % 2001) - 1000) / 500.f;
    Tensor img{Array1d<float>(x)};
    img.reshape_({1, d, d});
    return {img, Tensor::scalar((i64)(Rng::mix(i) % 3), options::dtype(DType::Int64))};
  }
};
struct Net : nn::Module {
  nn::Linear a, b;
  nn::Conv2D c;
  nn::Dropout dr;
  bool useC, useDr;
  Net(i64 d, i64 h, bool c_, bool dr_) : a(c_ ? d * d * 2 : d * d, h), b(h, 3), c(1, 2, 3, 1, 1), dr(0.3f), useC(c_), useDr(dr_) {
    registerModules({{"a", a}, {"b", b}});
    if (useC) registerModules({{"c", c}});
  }
  Tensor forward(const Tensor& in) override {
    Tensor x = useC ? function::relu(c(in)) : in;
    x = function::flatten(x, 1);
    Tensor y = function::relu(a(x));
    if (useDr) {
      dr.train(training_);
      y = dr(y);
    }
    return function::logSoftmax(b(y), 1);
  }
};
struct Job {
  const Plan& p;
  i64 d, h, n;
  int epochs;
  explicit Job(const Plan& q) : p(q), d(2 + q.k("d")), h(2 + q.k("h")), n(1 + q.k("n")), epochs(2 + q.k("epochs")) {}
  static std::string slot(int k) { return "/tmp/ckpt." + std::to_string(k & 1); }
  // one life of the training process: from the last acknowledged checkpoint to the end; reports the state after each epoch
  bool life(int acked, int where, bool save, const std::function<void(int, const States&, bool)>& after) {
    // what a process may carry over or find when it starts
    for (int i = 0; i < p.k("noise"); i++) (void)Tensor::rand({3});
    manualSeed((unsigned long)p.k("seed"));
    Net net(d, h, p.k("conv"), p.k("dr"));
    net.initParameters();
    int e0 = 0;
    if (acked >= 0) {
      if (!Serializer::load(net, slot(where))) {
        if (fsFaultsSeen(curThreadId())) return false;
        violation("acknowledged-not-loadable", "checkpoint of epoch %d", acked);
      }
      e0 = acked + 1;
    }
    auto ds = std::make_shared<Toy>(n, d);
    auto smp = std::make_shared<data::RandomSampler>(n, (unsigned long)p.k("sseed"));
    optim::SGD opt(net.parameters(), 0.05f, 0.f, 0.f, p.k("wd") ? 0.01f : 0.f);
    for (int e = e0; e < epochs; e++) {
      smp->setEpoch(e);
      data::DataLoader dl(ds, 1 + p.k("bs"), smp);
      net.train();
      for (const auto& [i, b] : dl) {
        opt.zeroGrad();
        auto loss = function::nllLoss(net(b[0]), b[1]);
        loss.backward();
        opt.step();
      }
      bool ok = save && Serializer::save(net, slot(where + 1));  // never over the last good one
      where += ok;
      NoPreempt np;
      after(e, statesOf(net), ok);
    }
    return true;
  }
};
void execC18(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  armSched();
  Job j(p);
  std::vector<States> ref;
  auto memory = [&](int k) {
    mem.fillMode = (p.k("fill") + k) % 4;
    mem.fillSeed = p.k("fill") * 100 + k;
    mem.pad = (p.k("pad") + k) % 3;
    entropySeed = Rng::mix(p.k("fill") * 77 + k);
  };
  memory(0);
  runIn(newNode("uninterrupted"), "uninterrupted", [&] { j.life(-1, 0, false, [&](int, const States& s, bool) { ref.push_back(s); }); });
  int acked = -1, where = 0, lives = 0;
  bool done = false;
  for (; !done && lives < 12; lives++) {
    memory(lives + 1);
    Node* n = newNode("life" + std::to_string(lives));
    int k = 0;
    for (auto& l : p.lines)
      if (k++ == lives) {
        if (l.kind == "killfs") crashAtFsCall(n, 1 + l.arg(0), l.arg(1));
        if (l.kind == "killstep") atNodeStep(n, 1 + l.arg(0), [n] {
          fault("process-killed");
          kill(n);
          yieldPoint();
        });
        if (l.kind == "killtime") after(l.arg(0) * US, [n] {
          if (!alive(n)) return;
          fault("process-killed");
          kill(n);
        });
        if (l.kind == "disk") failFsCall(n, 1 + l.arg(0), ERRS[l.arg(1) % 6], 0);
      }
    int start = acked;
    runIn(n, "train", [&] {
      done = j.life(start, where, true, [&](int e, const States& s, bool ok) {
        auto d = diff(ref[e], s);
        if (!d.empty()) violation("resumed-differs", "after epoch %d of life %d (resumed after epoch %d): %s", e, lives, start, d.c_str());
        if (ok) acked = e, where++;
        else if (!fsFaultsSeen(curThreadId())) violation("save-fails", "epoch %d", e);
        stateHash(lives * 64 + e);
      });
    });
    if (!alive(n)) probe("killed-mid-training");
    else kill(n);
  }
  if (lives > 1 && done) probe("resumed-to-the-end");
}
Plan genC18(Rng& g, bool) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  genSwarm(g, p, s);
  p.knob["d"] = g.below(4);
  p.knob["h"] = g.below(6);
  p.knob["n"] = g.below(20);
  p.knob["bs"] = g.below(7);
  p.knob["epochs"] = g.below(4);
  p.knob["conv"] = g.below(2);
  p.knob["dr"] = g.below(2);
  p.knob["wd"] = g.below(2);
  p.knob["noise"] = g.below(3);
  p.knob["seed"] = g.below(1000);
  p.knob["sseed"] = g.below(1000);
  p.knob["fill"] = g.below(100);
  p.knob["pad"] = g.below(3);
  int n = g.below(5);
  for (int i = 0; i < n; i++) switch (g.below(4)) {
      case 0: p.lines.push_back({"killfs", {(i64)g.below(20), (i64)g.below(2)}}); break;
      case 1: p.lines.push_back({"killstep", {(i64)g.below(60)}}); break;
      case 2: p.lines.push_back({"killtime", {(i64)g.below(2000)}}); break;
      default: p.lines.push_back({"disk", {(i64)g.below(20), (i64)g.below(6)}});
    }
  return p;
}
Reg r18({"C18", "a small network (optionally Conv2D, Dropout, weight decay) is trained with a seeded sampler by an uninterrupted process and by one that is killed up to 4 times (at a file-system call, scheduling point or instant, or meets disk errors while saving) and resumes from its last acknowledged checkpoint; entropy, memory contents and layout differ between all lives; parameters after each epoch are compared bit by bit.", {"src/Serializer.cpp", "src/Module", "src/Function", "src/Operation (CPU)", "src/Optimizer.cpp", "src/Data"}, {"file system, entropy, memory (simulated)"}, genC18, execC18, 50000, 2000000, 30, 600, {}});
}  // namespace
