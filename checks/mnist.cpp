// C19: the MNIST reader against damaged, shrinking and failing files
#include <errno.h>
#include <string.h>

#include "Data/DatasetMNIST.h"
#include "common.h"
#include "tt.h"

using namespace sim;
using namespace tinytorch;
using data::DatasetMNIST;
namespace {
const char* IMG[] = {"/tmp/mnist/train-images-idx3-ubyte", "/tmp/mnist/t10k-images-idx3-ubyte"};
const char* LAB[] = {"/tmp/mnist/train-labels-idx1-ubyte", "/tmp/mnist/t10k-labels-idx1-ubyte"};
std::string be(u32 v) { return {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }
u32 rd(const std::string& f, size_t o) { return o + 4 <= f.size() ? (u32)(u8)f[o] << 24 | (u32)(u8)f[o + 1] << 16 | (u32)(u8)f[o + 2] << 8 | (u8)f[o + 3] : 0; }
// what the files really hold
struct Truth {
  bool ok = false;      // magic and header are there and sane
  u64 header = 0, complete = 0, per = 1;
  u32 h = 0, w = 0;
};
Truth images(const std::string& f) {
  Truth t;
  if (f.size() < 16 || rd(f, 0) != 0x803) return t;
  i64 n = (int32_t)rd(f, 4), h = (int32_t)rd(f, 8), w = (int32_t)rd(f, 12);
  if (n < 0 || h <= 0 || w <= 0 || h * w > (1ll << 31)) return t;
  t.ok = true;
  t.h = h, t.w = w, t.per = (u64)h * w, t.header = n;
  t.complete = std::min<u64>(n, (f.size() - 16) / t.per);
  return t;
}
Truth labels(const std::string& f) {
  Truth t;
  if (f.size() < 8 || rd(f, 0) != 0x801 || (int32_t)rd(f, 4) < 0) return t;
  t.ok = true;
  t.header = rd(f, 4);
  t.complete = std::min<u64>(t.header, f.size() - 8);
  return t;
}
// mut <file 0 images 1 labels> <kind> <a> <b>
void mutate(std::string& f, const Line& l, bool lab) {
  static const u32 V[] = {0, 1, 2, 3, 0x7f, 0xff, 0xffff, 0x10000, 0xb505, 0x8000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x803, 0x801, 0x40000000};
  i64 a = l.arg(2), b = l.arg(3);
  size_t hdr = lab ? 8 : 16;
  switch (l.arg(1) % 6) {
    case 0: f.resize(a % (f.size() + 1)); break;
    case 1: f.resize(std::min<size_t>(f.size(), a % (hdr + 2))); break;
    case 2: if (f.size() >= hdr) f.replace(a % (hdr / 4) * 4, 4, be(V[b % 16])); break;
    case 3: if (f.size() >= hdr) {
      size_t o = a % (hdr / 4) * 4;
      f.replace(o, 4, be(rd(f, o) + b % 9 - 4));
      break;
    }
    case 4: if (!f.empty()) f[a % f.size()] ^= (char)(1 << b % 8); break;
    default: f += std::string(1 + a % 50, (char)b);
  }
}
void exec(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int n = p.k("n"), h = 1 + p.k("h"), w = 1 + p.k("w"), nl = n + p.k("extra"), type = p.k("type");
  fsMkdir("/tmp/mnist");
  std::string im = be(0x803) + be(n) + be(h) + be(w), lb = be(0x801) + be(nl);
  for (int i = 0; i < n * h * w; i++) im += (char)(Rng::mix(i) >> 7);
  for (int i = 0; i < nl; i++) lb += (char)(Rng::mix(i + 12345) % 256);
  std::string im0 = im, lb0 = lb;
  for (auto& l : p.lines)
    if (l.kind == "mut") {
      mutate(l.arg(0) & 1 ? lb : im, l, l.arg(0) & 1);
      fault("file-damaged");
    }
  bool gone0 = p.k("gone") & 1, gone1 = p.k("gone") & 2;
  if (!gone0) fsWrite(IMG[type], im);
  if (!gone1) fsWrite(LAB[type], lb);
  armSched();
  // earlier contents of the recycled memory look like valid samples
  Node* node = newNode("reader");
  std::string imMin = im, lbMin = lb;  // the least the reader can have found
  bool shrink = false;
  for (auto& l : p.lines)
    if (l.kind == "shrink") {
      shrink = true;
      bool lab = l.arg(0) & 1;
      auto& f = lab ? lbMin : imMin;
      size_t to = (u64)l.arg(2) % (f.size() + 1);
      std::string cut = f.substr(0, to);
      if (cut.size() < f.size()) f = cut;
      atNodeStep(node, 1 + l.arg(1), [=] {
        if (!fsExists(lab ? LAB[type] : IMG[type])) return;
        fault("file-shrinks-while-read");
        fsWrite(lab ? LAB[type] : IMG[type], cut);
      });
    }
  struct Scale : data::transforms::Transform {
    Tensor process(Tensor& t) const override { return t; }
  };
  auto* th = spawn(node, "reader", [&] {
    for (auto& l : p.lines)
      if (l.kind == "fail") {
        static const int E[] = {EIO, EACCES, EMFILE, ENOMEM};
        failFsCall(node, 1 + l.arg(0), E[l.arg(1) % 4], 0);
      } else if (l.kind == "short") failFsCall(node, 1 + l.arg(0), 0, 1 + l.arg(1));
    fs.pErr = p.k("ferr");
    fs.pShort = p.k("fshort");
    int f0 = fsFaultsSeen(curThreadId());
    DatasetMNIST ds("/tmp/mnist/", type ? DatasetMNIST::TEST : DatasetMNIST::TRAIN, p.k("tr") ? std::make_shared<Scale>() : nullptr);
    int faults = fsFaultsSeen(curThreadId()) - f0;
    fs.pErr = fs.pShort = 0;
    size_t sz = ds.size();
    Truth a = images(im), b = labels(lb);
    u64 full = gone0 || gone1 || !a.ok || !b.ok ? 0 : std::min(a.complete, b.complete);
    stateHash(sz * 8 + shrink * 4 + (faults > 0) * 2);
    stateHash(full * 100 + a.ok * 2 + b.ok);
    if (openFds(node)) violation("descriptor-leak", "%d descriptors open", openFds(node));
    if (sz > full) violation("invented-samples", "size %zu but the files hold %llu complete samples (image header: %llu, %llu complete; labels header %llu, %llu complete)", sz, (unsigned long long)full,
                             (unsigned long long)a.header, (unsigned long long)a.complete, (unsigned long long)b.header, (unsigned long long)b.complete);
    if (sz && sz != full && !shrink && !faults) violation("missing-samples", "size %zu but the files hold %llu complete samples", sz, (unsigned long long)full);
    if (!sz && full && !faults && !shrink && im == im0 && lb == lb0) violation("missing-samples", "size 0 but the undamaged files hold %llu samples", (unsigned long long)full);
    if (sz) probe("samples-presented");
    else probe("nothing-presented");
    for (size_t i = 0; i < sz; i++) {
      auto it = ds.getItem(i);
      if (it.size() != 2) violation("wrong-item", "%zu tensors", it.size());
      auto sh = it[0].shape();
      if (sh.size() != 3 || sh[0] != 1 || sh[1] != a.h || sh[2] != a.w) violation("wrong-shape", "sample %zu", i);
      auto px = it[0].toList<float>();
      for (u64 k = 0; k < a.per; k++)
        if (px[k] != (float)(u8)im[16 + i * a.per + k] / 255.0f) violation("wrong-pixel", "sample %zu pixel %llu: %g", i, (unsigned long long)k, px[k]);
      if (it[1].item<int64_t>() != (u8)lb[8 + i]) violation("wrong-label", "sample %zu: %lld instead of %d", i, (long long)it[1].item<int64_t>(), (u8)lb[8 + i]);
    }
  });
  if (!join(th, 100000 * SEC)) violation("hang", "%s", threadDump().c_str());
}
Plan gen(Rng& g, bool) {
  Plan p;
  Swarm s;
  s.memPreempt = false;
  genSwarm(g, p, s);
  p.knob["n"] = g.below(g.chance(1, 10) ? 200 : 12);
  p.knob["h"] = g.below(g.chance(1, 4) ? 40 : 6);
  p.knob["w"] = g.below(g.chance(1, 4) ? 40 : 6);
  if (g.chance(1, 3)) p.knob["extra"] = g.range(-(i64)p.knob["n"], 5);
  p.knob["type"] = g.below(2);
  p.knob["tr"] = g.below(2);
  if (g.chance(1, 15)) p.knob["gone"] = 1 + g.below(3);
  int k = g.chance(1, 4) ? 0 : 1 + g.below(2);
  for (int i = 0; i < k; i++) p.lines.push_back({"mut", {(i64)g.below(2), (i64)g.below(6), (i64)g.below(100000), (i64)g.below(100000)}});
  if (g.chance(1, 5)) p.lines.push_back({"shrink", {(i64)g.below(2), (i64)g.below(12), (i64)g.below(100000)}});
  if (g.chance(1, 5)) p.lines.push_back({"fail", {(i64)g.below(10), (i64)g.below(4)}});
  if (g.chance(1, 8)) p.knob["ferr"] = 1 + g.below(300);
  if (g.chance(1, 3)) p.knob["fshort"] = 10 + g.below(900);
  return p;
}
Reg r({"C19", "image and label files of 0-200 samples are cut at any byte, get extreme or off-by-some header fields, flipped bits, extra bytes, a different number of labels, go missing, shrink while being read, or meet failing and short reads; memory starts with random contents; every presented sample is compared with the files.", {"src/Data/DatasetMNIST.cpp", "libstdc++ streams", "src/Tensor"}, {"file system (simulated)"}, gen, exec, 200000, 8000000, 20, 600, {}});
}  // namespace
