// C08-C11, C13: the distributed part of the library, several processes with simulated devices
#include <string.h>

#include <cmath>

#include "../simgpu/gpu.h"
#include "Distributed/DistributedModule.h"
#include "Distributed/DistributedProcessGroup.h"
#include "common.h"
#include "Utils/CUDAUtils.h"
#include "tt.h"

using namespace sim;
using namespace tinytorch;
using namespace tinytorch::distributed;
namespace {
using msec = std::chrono::milliseconds;
constexpr int MAXW = 8;
const std::vector<std::string> REAL = {"src/Distributed", "src/Tensor", "src/Operation (device kernels run on simulated devices)", "src/Utils/CUDAUtils.cpp"};
const std::vector<std::string> STUB = {"CUDA runtime, cuBLAS and NCCL (simulated)", "pthread scheduling, clocks, TCP network, files (simulated)"};
void setupDevices(const Plan& p) {
  auto& g = simgpu::gpu;
  g.pLag = p.k("glag");
  g.lagUnit = p.k("glagu", 20) * US;
  g.pSlow = p.k("gslow");
  g.pPerm = p.k("gperm");
  g.pPre = p.k("gpre");
  auto& n = simgpu::nccl;
  n.pEager = p.k("eager", 500);
  n.pInProgress = p.k("inprog", 300);
  n.pLag = p.k("nlag", 300);
  n.lagUnit = p.k("nlagu", 20) * US;
}
void genDevices(Rng& g, Plan& p) {
  auto& k = p.knob;
  if (g.chance(3, 4)) k["glag"] = 50 + g.below(800), k["glagu"] = 1 + g.below(g.chance(1, 3) ? 400 : 40);
  if (g.chance(1, 2)) k["gslow"] = 100 + g.below(700);
  k["eager"] = g.below(3) * 500;
  k["inprog"] = g.below(3) * 450;
  k["nlag"] = g.below(3) * 450;
  k["nlagu"] = 1 + g.below(60);
}
// ---- values
enum Ty { F32, F16, BF16, I32, I64, BOOL, NTY };
const DType DT[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
const ReduceOpType OPS[] = {SUM, AVG, PRODUCT, MIN, MAX};
// small numbers: exact in every type, for every operator
double val(int ty, int op, u64 line, int rank, u64 i) {
  u64 h = Rng::mix(line * 1000003 + rank * 7919 + i * 31 + 5);
  if (ty == BOOL) return h & 1;
  switch (op) {
    case 2: return (double)((h % 3) == 0 ? 2 : (h % 3) == 1 ? 1 : -1);
    case 1: return 60.0 * ((i64)(h % 9) - 4);  // divisible by the world size

    default: return (double)((i64)(h % 41) - 20);
  }
}
double reduced(int ty, int op, u64 line, int W, u64 i) {
  double a = val(ty, op, line, 0, i);
  for (int r = 1; r < W; r++) {
    double v = val(ty, op, line, r, i);
    switch (op) {
      case 2: a *= v; break;
      case 3: a = std::min(a, v); break;
      case 4: a = std::max(a, v); break;
      default: a += v;
    }
  }
  if (op == 1) a /= W;
  return op == 1 && ty >= I32 ? std::trunc(a) : a;
}
template <class T>
Tensor mk(const std::vector<double>& v, const Options& o) {
  std::vector<T> h;
  for (double d : v) h.push_back(T((float)d));
  return Tensor(h, o);
}
Tensor make(int ty, int dev, const std::vector<double>& v) {
  Options o({DeviceType::CUDA, (DeviceIndex)dev}, DT[ty]);
  switch (ty) {
    case F32: return mk<float>(v, o);
    case F16: return mk<Half>(v, o);
    case BF16: return mk<BFloat16>(v, o);
    case I32: return mk<int32_t>(v, o);
    case I64: return mk<int64_t>(v, o);
    default: {
      std::vector<uint8_t> h;
      for (double d : v) h.push_back(d != 0);
      return Tensor(h, o);
    }
  }
}
template <class T>
std::vector<double> ls(const Tensor& t) {
  std::vector<double> r;
  for (auto v : t.toList<T>()) r.push_back((double)(float)v);
  return r;
}
std::vector<double> list(int ty, const Tensor& t) {
  switch (ty) {
    case F32: return ls<float>(t);
    case F16: return ls<Half>(t);
    case BF16: return ls<BFloat16>(t);
    case I32: return ls<int32_t>(t);
    case I64: return ls<int64_t>(t);
    default: return ls<uint8_t>(t);
  }
}

struct Cluster {
  int W;
  std::vector<Node*> node;
  std::vector<std::shared_ptr<DistributedProcessGroup>> pg;
  std::vector<char> done;
  explicit Cluster(int w) : W(w), pg(w), done(w) {
    for (int i = 0; i < w; i++) node.push_back(newNode("rank" + std::to_string(i)));
  }
  // a killed process does not destroy its objects
  ~Cluster() {
    for (auto& g : pg)
      if (g) new std::shared_ptr<DistributedProcessGroup>(g);
  }
};
constexpr int PORT = 29500;
std::string method(const Plan& p) { return p.k("file") ? "file:///data/rendezvous" : "tcp://localhost:" + std::to_string(PORT); }
int devFor(int rank, i64 sel) { return (int)((rank + sel) % simgpu::gpu.devices); }
// runs the program of every rank between initialisation and orderly destruction
void runRanks(const Plan& p, Cluster& c, const std::function<void(int)>& body, u64 limit = 3000 * SEC) {
  fsMkdir("/data");
  std::vector<Thread*> ts;
  int left = c.W;
  armSched();
  for (int r = 0; r < c.W; r++)
    ts.push_back(spawn(c.node[r], "rank" + std::to_string(r), [&, r] {
      if (i64 d = p.k("start" + std::to_string(r))) sleepFor(d * US);
      {
        NoPreempt np;
        c.pg[r] = std::make_shared<DistributedProcessGroup>();
      }
      cuda::setDevice(devFor(r, 0));
      bool ok = c.pg[r]->initProcessGroup(NCCL, method(p), r, c.W, msec(600000));
      if (!ok) violation("initialisation-failed", "rank %d of %d, no faults", r, c.W);
      body(r);
      {
        NoPreempt np;
        left--;
      }
      if (!waitFor([&] { return left == 0; }, limit)) violation("hang", "%s", threadDump().c_str());
      c.pg[r].reset();
    }));
  for (auto* t : ts)
    if (!join(t, limit)) violation("hang", "%s", threadDump().c_str());
  for (int r = 0; r < c.W; r++)
    if (int k = simgpu::ncclLiveComms(c.node[r])) violation("communicator-leaked", "rank %d still has %d after the group was destroyed", r, k);
}
// ------------------------------------------------------------------ C09
struct Pend {
  std::shared_ptr<Work> w;
  std::vector<Tensor> keep;
  std::function<void(std::vector<Tensor>&)> check;  // after the wait
  size_t line;
  i64 mode;
  int dev;
  u64 t = 0;
};
void expect(const char* what, int rank, size_t line, int ty, const std::vector<double>& got, const std::vector<double>& want, bool approx = false) {
  NoPreempt np;
  if (got.size() != want.size()) violation("wrong-result", "line %zu: %s on rank %d has %zu elements, expected %zu", line, what, rank, got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) {
    double tol = approx ? std::fabs(want[i]) * (ty == BF16 ? 0.02 : 0.004) + 1e-3 : 0;
    if (!(std::fabs(got[i] - want[i]) <= tol))
      violation("wrong-result", "line %zu: %s on rank %d: element %zu of %zu is %g, expected %g (type %d)", line, what, rank, i, got.size(), got[i], want[i], ty);
  }
}
const char* opName(i64 op) {
  static const char* n[] = {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send/recv", "barrier"};
  return n[op];
}
// C11: failures are expected, calls must end in time
constexpr u64 DRAIN = 20 * SEC;  // slow devices finish what was queued
constexpr u64 CONNECT = 10 * SEC;  // refused connections are retried every second, ten times
struct Tolerant {
  bool calm = false;             // nothing fails in this run: only premature time-outs are acceptable
  u64 T = 0, slack = 3 * SEC;
  std::function<u64(bool)> extra;  // time this process (false) or any process (true) was stopped
  int failures = 0;
  template <class F>
  auto timed(const char* what, size_t line, int rank, u64 limit, F f, bool store = false) {
    u64 t0 = now();
    auto r = f();
    u64 d = now() - t0, e = extra(store);
    if (d > limit + limit / 2 + slack + e)
      violation("late-return", "line %zu: %s on rank %d returned after %.3f s, limit %.3f s, group timeout %.3f s", line, what, rank, d / 1e9, limit / 1e9, T / 1e9);
    return r;
  }
};
struct RankVM {
  DistributedProcessGroup& pg;
  int rank, W;
  std::vector<Pend> pend;
  u32 devUsed = 0;
  Tolerant* tol = nullptr;
  bool waitOn(Pend& q, u64 t) {
    bool c0 = q.w->isCompleted(), s0 = q.w->isSuccess();
    bool ok = tol->timed("wait", q.line, rank, t, [&] { return q.w->wait(msec(t / MS)); });
    if (ok && !q.w->isCompleted()) violation("success-before-completion", "line %zu: wait with a timeout returned true on rank %d, the operation still runs", q.line, rank);
    if (ok && !q.w->isSuccess()) violation("inconsistent-result", "line %zu: wait returned true on rank %d, isSuccess is false", q.line, rank);
    if (c0 && ok != s0) violation("inconsistent-result", "line %zu on rank %d: completed with success=%d, then wait returned %d", q.line, rank, s0, ok);
    if (!ok && q.w->isCompleted() && !q.w->isSuccess() && q.w->exception().empty()) violation("no-reason", "line %zu on rank %d: failed without a text", q.line, rank);
    if (!ok && !q.w->isCompleted()) {
      bool dead = true;  // every communicator of the process has failed
      {
        RtGuard gd;
        for (auto& ci : simgpu::ncclComms(curNode())) dead = dead && ci.state >= 3;
      }
      if (dead && !q.w->isCompleted()) violation("failure-not-noticed", "line %zu on rank %d: the communicator has failed, the operation never completes", q.line, rank);
    }
    return ok;
  }
  void finishTolerant(Pend& q) {
    u64 t = q.t;
    bool ok = false;
    switch (q.mode) {
      case 3: {
        u64 t0 = now();
        while (!(ok = q.w->isCompleted()) && now() - t0 < t) sleepFor(300 * US);
        ok = ok && waitOn(q, t);
        break;
      }
      case 5: ok = waitOn(q, 1 * MS) || waitOn(q, t); break;
      default: ok = waitOn(q, t);
    }
    if (!ok && tol->calm) {
      probe("wait-timed-out");
      ok = waitOn(q, 300 * SEC);
      if (!ok) violation("failure-without-fault", "line %zu: operation on rank %d reported as failed ('%s') in a run without faults", q.line, rank, q.w->exception().c_str());
    }
    if (!ok) {
      probe("operation-failed");
      tol->failures++;
      return;
    }
    probe("operation-succeeded");
    if (q.check) q.check(q.keep);
    if (!q.w->isCompleted() || !q.w->isSuccess()) violation("result-changed", "line %zu on rank %d: a successful operation turned into '%s'", q.line, rank, q.w->exception().c_str());
  }
  std::vector<double> vals(int ty, int op, u64 line, int r, i64 n, i64 from = 0) {
    std::vector<double> v;
    for (i64 i = 0; i < n; i++) v.push_back(val(ty, op, line, r, from + i));
    return v;
  }
  // a tensor holding v that device work has produced just before
  Tensor input(int ty, int dev, const std::vector<double>& v, i64 src, i64 view, std::vector<Tensor>& keep) {
    i64 n = v.size();
    Tensor t;
    if (view) {
      std::vector<double> b(n + 2 * view, 1);
      std::copy(v.begin(), v.end(), b.begin() + view);
      Tensor base = make(ty, dev, b);
      keep.push_back(base);
      t = base.narrow(0, view, n);
    } else
      t = make(ty, dev, v);
    if (ty <= BF16 && !view)
      for (i64 k = 0; k < src; k++) {
        t += 3;
        t -= 3;
      }
    return t;
  }
  void finish(Pend& q) {
    cuda::setDevice(q.dev);
    if (tol) {
      finishTolerant(q);
      q = Pend();
      return;
    }
    if (q.w) {
      bool ok = true;
      switch (q.mode) {
        case 2: ok = q.w->wait(msec(600000)); break;
        case 3: {
          u64 t0 = now();
          while (!q.w->isCompleted()) {
            sleepFor(200 * US);
            if (now() - t0 > 600 * SEC) violation("never-completes", "line %zu on rank %d", q.line, rank);
          }
          ok = q.w->wait();
          break;
        }
        default: ok = q.w->wait();
      }
      if (!ok || !q.w->isSuccess()) violation("failure-without-fault", "line %zu: wait on rank %d returned %d, text '%s'", q.line, rank, ok, q.w->exception().c_str());
    }
    if (q.check) q.check(q.keep);
    q = Pend();
  }
  template <class F>
  std::shared_ptr<Work> issue(size_t line, i64 op, F f) {
    if (!tol) return f();
    return tol->timed(opName(op), line, rank, 3 * tol->T, f, true);
  }
  void coll(const Line& l, size_t line) {
    i64 op = l.arg(0) % 6, ty = l.arg(1) % NTY, rop = l.arg(2) % 5, n = 1 + l.arg(3) % 3000, root = l.arg(4) % W, sel = l.arg(5) % 2, mode = l.arg(6) % 6,
        src = l.arg(7) % 4, post = l.arg(8) % 3, view = l.arg(9) % 9, peer = (root + 1 + l.arg(10) % std::max(1, W - 1)) % W;
    if (ty == BOOL && rop < 2) rop = 3;
    if (ty > BF16) post = 0;
    int dev = devFor(rank, sel);
    if (op == 5 && (W < 2 || !(devUsed >> sel & 1) || (rank != root && rank != peer))) return;
    devUsed |= 1u << sel;
    cuda::setDevice(dev);
    bool avg = rop == 1;
    std::vector<Tensor> keep;  // [0] is the result (all-gather: the first W)
    std::shared_ptr<Work> w;
    std::vector<std::vector<double>> want;
    int nres = 1;
    switch (op) {
      case 0:
      case 1:
      case 2:
      case 5: {
        std::vector<Tensor> hold;
        Tensor t = input(ty, dev, vals(ty, rop, line, rank, n), src, view, hold);
        keep.push_back(t);
        for (auto& h : hold) keep.push_back(h);
        std::vector<Tensor> ts = {t};
        if (op == 0) w = issue(line, op, [&] { return pg.broadcast(ts, root); }), want = {vals(ty, rop, line, root, n)};
        if (op == 5) w = issue(line, op, [&] { return rank == root ? pg.send(ts, peer) : pg.recv(ts, root); }), want = {vals(ty, rop, line, root, n)};
        std::vector<double> red;
        for (i64 i = 0; i < n; i++) red.push_back(reduced(ty, rop, line, W, i));
        if (op == 1) w = issue(line, op, [&] { return pg.allReduce(ts, OPS[rop]); }), want = {red};
        if (op == 2) {
          w = issue(line, op, [&] { return pg.reduce(ts, root, OPS[rop]); });
          if (rank == root) want = {red};
        }
        break;
      }
      case 3: {
        std::vector<Tensor> hold, in = {input(ty, dev, vals(ty, rop, line, rank, n), src, view, hold)};
        std::vector<std::vector<Tensor>> out(1);
        for (int r = 0; r < W; r++) {
          out[0].push_back(make(ty, dev, std::vector<double>(n, 1)));
          want.push_back(vals(ty, rop, line, r, n));
        }
        nres = W;
        for (auto& o : out[0]) keep.push_back(o);
        w = issue(line, op, [&] { return pg.allGather(out, in); });
        break;
      }
      default: {
        std::vector<std::vector<Tensor>> in(1);
        std::vector<Tensor> hold;
        for (int r = 0; r < W; r++) in[0].push_back(input(ty, dev, vals(ty, rop, line, rank, n, r * n), src, 0, hold));
        std::vector<Tensor> out = {input(ty, dev, std::vector<double>(n, 1), 0, view, hold)};
        keep = out;
        for (auto& h : hold) keep.push_back(h);
        w = issue(line, op, [&] { return pg.reduceScatter(out, in, OPS[rop]); });
        std::vector<double> red;
        for (i64 i = 0; i < n; i++) red.push_back(reduced(ty, rop, line, W, rank * n + i));
        want = {red};
      }
    }
    if (!w) {
      if (!tol || tol->calm) violation("failure-without-fault", "line %zu: %s on rank %d returned no work", line, opName(op), rank);
      probe("call-failed");
      tol->failures++;
      return;
    }
    if (mode == 4) {
      probe("forgotten-operation");
      return;
    }
    if (mode == 5 && op != 3 && !view) {
      keep = w->result();
      if (keep.size() != 1) violation("wrong-result", "line %zu: result() has %zu tensors", line, keep.size());
      keep.resize(1);
    }
    Pend q;
    q.w = w;
    q.keep = std::move(keep);
    q.line = line;
    q.mode = mode;
    q.dev = dev;
    q.t = (1 + l.arg(11) % 3000) * MS;
    int rk = rank;
    q.check = [=](std::vector<Tensor>& k) {
      for (size_t i = 0; i < want.size(); i++) {
        Tensor y;
        if (post == 1) y = k[i] + k[i];
        if (post == 2) {
          y = k[i].clone();
          y += 1;
        }
        bool ap = avg && (op == 1 || op == 2 || op == 4);
        expect(opName(op), rk, line, ty, list(ty, k[i]), want[i], ap);
        if (post) {
          auto v = want[i];
          for (auto& d : v) d = post == 1 ? 2 * d : d + 1;
          expect("device work on the result", rk, line, ty, list(ty, y), v, ap);
        }
      }
      if (view && op != 3)
        for (size_t i = nres; i < k.size(); i++) {
          auto b = list(ty, k[i]);
          for (i64 j = 0; j < view; j++)
            if (b[j] != 1 || b[b.size() - 1 - j] != 1) violation("neighbour-overwritten", "line %zu: %s on rank %d", line, opName(op), rk);
        }
      probe(opName(op));
    };
    if (mode == 1) {
      pend.push_back(std::move(q));
      return;
    }
    finish(q);
  }
  void noise(const Line& l, size_t line) {
    i64 n = 1 + l.arg(0) % 3000, k = 1 + l.arg(1) % 6;
    cuda::setDevice(devFor(rank, l.arg(2) % 2));
    int dev = devFor(rank, l.arg(2) % 2);
    for (i64 j = 0; j < k; j++) {
      Tensor t = make(F32, dev, vals(F32, 0, line, rank, n, j));
      Tensor u = t * 2 + 1;
      if (l.arg(3) % 2) {
        auto v = vals(F32, 0, line, rank, n, j);
        for (auto& d : v) d = d * 2 + 1;
        expect("device work", rank, line, F32, list(F32, u), v);
      }
    }
  }
  void flush() {
    for (auto& q : pend) finish(q);
    pend.clear();
  }
  void run(const Plan& p) {
    for (size_t i = 0; i < p.lines.size(); i++) {
      auto& l = p.lines[i];
      if (l.kind == "coll") coll(l, i);
      if (l.kind == "noise") noise(l, i);
      if (l.kind == "flush" && l.arg(0) % W == rank) flush();
      if (l.kind == "sleep" && l.arg(0) % W == rank) sleepFor(l.arg(1) * US);
    }
    flush();
  }
};
void execC09(const Plan& p) {
  applySwarm(p);
  setupDevices(p);
  crashClass("crash");
  Cluster c(std::max<i64>(1, p.k("world", 2)));
  runRanks(p, c, [&](int r) {
    RankVM vm{*c.pg[r], r, c.W, {}};
    vm.run(p);
  });
}
Plan genC09(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  genSwarm(g, p, s);
  p.knob["mem"] = p.k("mem") ? 2000 : 0;
  genDevices(g, p);
  p.knob["world"] = g.chance(1, 10) ? 1 : 2 + g.below(thorough ? 4 : 3);
  p.knob["file"] = g.below(3) == 0;
  int k = 1 + g.below(thorough ? 24 : 12);
  bool small = g.chance(1, 2);
  for (int i = 0; i < k; i++) {
    switch (g.below(8)) {
      case 0: p.lines.push_back({"noise", {(i64)g.below(small ? 40 : 3000), (i64)g.below(6), (i64)g.below(2), (i64)g.below(2)}}); break;
      case 1: p.lines.push_back({g.chance(1, 2) ? "flush" : "sleep", {(i64)g.below(8), (i64)g.below(20000)}}); break;
      default:
        p.lines.push_back({"coll", {(i64)g.below(6), (i64)g.below(NTY), (i64)g.below(5), (i64)g.below(small ? 40 : 3000), (i64)g.below(8), g.chance(1, 4),
                                    (i64)g.below(6), (i64)g.below(4), (i64)g.below(3), g.chance(1, 3) ? (i64)g.below(9) : 0, (i64)g.below(8)}});
    }
  }
  return p;
}
Reg r9({"C09", "2-5 rank processes run random programs of collectives (all operators and element types, views, several devices per rank), waiting at once, later, by polling or never, mixed with device work that reuses memory; streams and ranks lag at random; every result is compared with its definition.", REAL, STUB, genC09, execC09, 60000, 1000000, 30, 600, {}});

// ------------------------------------------------------------------ C08
const char* BAD[] = {"", "tcp://", "tcp://localhost:0", "tcp://localhost:65536", "tcp://localhost:99999999999", "tcp://localhost:port", "tcp://localhost:29500x",
                     "http://localhost:29500", "localhost:29500", "file://", "tcp://unresolvable:29500", "tcp://localhost:29499", "env://", "tcp:/localhost:29500"};
constexpr int NBAD = sizeof BAD / sizeof *BAD;
void execC08(const Plan& p) {
  applySwarm(p);
  setupDevices(p);
  crashClass("crash");
  Cluster c(std::max<i64>(1, p.k("world", 2)));
  int W = c.W;
  bool calm = p.k("calm");
  const u64 T = p.k("T", 1000) * MS;
  const u64 CALM = 60 * SEC;
  i64 how = p.k("how") % 5;  // 0 tcp, 1 env, 2 file, 3 env with rank and size, 4 tcp with the default port
  if (p.k("dir", 1)) fsMkdir("/data");
  std::string meth = how == 2 ? "file:///data/rendezvous" : how == 1 || how == 3 ? "env://" : how == 4 ? "tcp://master" : method(Plan());
  std::vector<u64> paused(W);
  std::vector<u64> comms0(8), owner0(8);
  u64 cut = 0;
  bool lost = false;
  std::vector<char> initing(W);
  std::vector<Thread*> ts;
  std::vector<char> absent(W), late(W);
  std::vector<std::vector<u64>> seen(W);
  std::vector<int> okInit(W), okColl(W);
  int left = W, left2 = W;
  simgpu::nccl.pErr = p.k("nerr");
  for (int r = 0; r < W; r++) {
    setEnv(c.node[r], "MASTER_ADDR", "master");
    if (how != 1 || p.k("port")) setEnv(c.node[r], "MASTER_PORT", std::to_string(PORT));
    if (how == 3) {
      setEnv(c.node[r], "RANK", std::to_string(r));
      setEnv(c.node[r], "WORLD_SIZE", std::to_string(W));
    } else if (p.k("stale")) {  // left over from something else: the arguments of the call count
      setEnv(c.node[r], "RANK", std::to_string((r + 1) % W));
      setEnv(c.node[r], "WORLD_SIZE", std::to_string(W + 1));
    }
  }
  for (auto& l : p.lines) {
    int who = l.arg(0) % W;
    Node* n = c.node[who];
    if (l.kind == "miss" && !calm) absent[who] = 1;
    if (calm && l.kind != "pause") continue;
    if (l.kind == "kill") at(now() + l.arg(1) * US, [n, &c, &lost, W, l] {
      if (!alive(n) || quiesced()) return;
      if (l.arg(2) % 2) {
        fault("host-lost");
        lost = true;
        for (int i = 0; i < W; i++)
          if (c.node[i] != n) partition(n, c.node[i], true);
      } else
        fault("process-killed");
      kill(n);
    });
    if (l.kind == "pause") {
      u64 d = (1 + l.arg(2) % 4000) * MS;
      at(now() + l.arg(1) * US, [n, d, &paused, who] {
        if (!alive(n) || quiesced()) return;
        fault("process-paused");
        pauseNode(n);
        paused[who] += d;
        after(d, [n] { resumeNode(n); });
      });
    }
    if (l.kind == "cut") {
      Node* m = c.node[(who + 1 + l.arg(3) % std::max(1, W - 1)) % W];
      u64 d = (1 + l.arg(2) % 40000) * MS;
      if (m != n) at(now() + l.arg(1) * US, [n, m, d, &cut] {
        if (!alive(n) || !alive(m) || quiesced()) return;
        fault("partition");
        partition(n, m, true);
        cut += d;
        after(d, [n, m] {
          if (alive(n) && alive(m)) partition(n, m, false);
        });
      });
    }
  }
  // one round: initialise, use, agree
  auto round = [&](int r, Tolerant& tol, int no) {
    auto& pg = *c.pg[r];
    bool must = tol.calm;
    std::string m = how == 2 && no ? meth + std::to_string(no) : meth;
    bool wait = p.k("wait", 1);
    initing[r] = 1;
    bool ok = tol.timed("initProcessGroup", 0, r, CONNECT + 2 * tol.T, [&] { return pg.initProcessGroup(NCCL, m, how == 3 ? -1 : r, how == 3 ? -1 : W, msec(tol.T / MS), wait); }, true);
    initing[r] = 0;
    if (ok != pg.isInitialized()) violation("initialisation-state", "rank %d: initProcessGroup returned %d, isInitialized is %d", r, ok, pg.isInitialized());
    if (must && !ok) violation("initialisation-failed", "rank %d of %d, no faults (round %d)", r, W, no);
    probe(ok ? "initialised" : "initialisation-failed");
    if (!ok) return false;
    okInit[r]++;
    if (pg.getProcessGroup()->getRank() != r || pg.getProcessGroup()->getSize() != W)
      violation("wrong-identity", "rank %d of %d became rank %d of %d", r, W, pg.getProcessGroup()->getRank(), pg.getProcessGroup()->getSize());
    int ndev = 1 + p.k("two");
    bool good = true;
    for (int k = 0; k < ndev + 1; k++) {  // the last one repeats on the first device
      int dev = devFor(r, k % ndev);
      cuda::setDevice(dev);
      std::vector<Tensor> t = {make(F32, dev, {1.0 + r, (double)k})};
      auto w = tol.timed("allReduce", k, r, 3 * tol.T, [&] { return pg.allReduce(t, SUM); }, true);
      bool s = w && tol.timed("wait", k, r, tol.T, [&] { return w->wait(msec(tol.T / MS)); });
      if (must && !s) violation("collective-failed", "rank %d of %d, all-reduce %d after initialisation (round %d)", r, W, k, no);
      if (s) {
        expect("allReduce", r, k, F32, list(F32, t[0]), {W + W * (W - 1) / 2.0, (double)W * k});
        probe("collective-after-initialisation");
      } else {
        probe("collective-failed");
        good = false;
      }
    }
    {
      NoPreempt np;
      auto cs = simgpu::ncclComms(c.node[r]);
      std::vector<u64> mine;
      for (auto& i : cs) {
        if (i.rank != r || i.nranks != W) violation("wrong-identity", "rank %d of %d joined a communicator as rank %d of %d", r, W, i.rank, i.nranks);
        if (i.owner != c.node[0]) violation("wrong-communicator", "rank %d joined a communicator whose identifier rank 0 did not generate", r);
        if (i.ready && i.state < 3) mine.push_back(i.group);
      }
      if (good)
        for (int o = 0; o < W; o++)
          if (!seen[o].empty() && seen[o] != mine) violation("different-communicators", "ranks %d and %d", r, o);
      if (good) seen[r] = mine, okColl[r]++;
    }
    return true;
  };
  armSched();
  for (int r = 0; r < W; r++)
    if (!absent[r])
      ts.push_back(spawn(c.node[r], "rank" + std::to_string(r), [&, r] {
        if (i64 d = p.k("start" + std::to_string(r))) sleepFor(d * US);
        {
          NoPreempt np;
          c.pg[r] = std::make_shared<DistributedProcessGroup>();
        }
        auto& pg = *c.pg[r];
        cuda::setDevice(devFor(r, 0));
        Tolerant tol;
        tol.calm = calm;
        tol.T = calm ? CALM : T;
        tol.extra = [&, r](bool all) {
          u64 t = all ? cut : 0;
          if (all && (cut || lost)) t += initing[r] ? 310 * SEC : 31 * SEC;  // ten connection attempts, or one reply, that end in nothing
          for (int i = 0; i < W; i++) t += all || i == r ? paused[i] : 0;
          return t;
        };
        // settings that cannot work are refused
        for (auto& l : p.lines)
          if (l.kind == "bad" && l.arg(0) % W == r) {
            int k = l.arg(1) % (NBAD + 9), rk = r, ws = W;
            std::string m = k < NBAD ? BAD[k] : meth;
            if (k >= 10 && k <= 12 && r == 0) continue;  // this rank would serve for a moment
            auto env = [&](const char* n, const char* v) { setEnv(c.node[r], n, v); };
            if (m == "env://" && k < NBAD) env("MASTER_ADDR", "");
            switch (k - NBAD) {
              case 0: ws = 0; break;
              case 1: rk = W; break;
              case 2: rk = -2; break;
              case 3: ws = -5; break;
              case 4: m = "env://"; env("MASTER_PORT", "abc"); break;
              case 5: m = "env://"; env("MASTER_PORT", "70000"); break;
              case 6: m = "env://"; env("MASTER_PORT", "29500 "); break;
              case 7: m = "env://"; env("RANK", "one"); rk = -1; break;
              case 8: m = "env://"; env("WORLD_SIZE", "1e9"); ws = -1; break;
            }
            bool ok = tol.timed("initProcessGroup", 0, r, CONNECT + 2 * tol.T, [&] { return pg.initProcessGroup(NCCL, m, rk, ws, msec(tol.T / MS)); });
            if (ok) violation("bad-settings-accepted", "rank %d: '%s' rank %d of %d (case %d)", r, m.c_str(), rk, ws, k);
            if (pg.isInitialized()) violation("initialisation-state", "rank %d: refused settings left the group initialised", r);
            env("MASTER_ADDR", "master");
            env("MASTER_PORT", std::to_string(PORT).c_str());
            env("RANK", std::to_string(r).c_str());
            env("WORLD_SIZE", std::to_string(W).c_str());
            probe("bad-settings");
          }
        round(r, tol, 0);
        if (calm) {
          {
            NoPreempt np;
            left--;
          }
          if (!waitFor([&] { return left == 0; }, 3000 * SEC)) violation("hang", "%s", threadDump().c_str());
        }
        tol.timed("destroyProcessGroup", 0, r, tol.T + DRAIN, [&] { pg.destroyProcessGroup(); return 0; }, true);
        if (pg.isInitialized()) violation("initialisation-state", "rank %d: still initialised after destroyProcessGroup", r);
        if (int k = simgpu::ncclLiveComms(c.node[r])) violation("communicator-leaked", "rank %d still has %d after the group was destroyed", r, k);
        if (int k = openFds(c.node[r])) violation("descriptor-leaked", "rank %d still has %d after the group was destroyed", r, k);
        c.done[r] = 1;
        // once everybody is back and nothing fails any more, the same objects form a group
        bool again = p.k("again");
        for (int i = 0; i < W; i++) again = again && !absent[i];
        if (!again) return;
        auto dead = [&] {
          for (auto* n : c.node)
            if (!alive(n)) return true;
          return false;
        };
        waitFor([&] {
          for (auto d : c.done)
            if (!d) return dead();
          return true;
        }, 3000 * SEC);
        if (dead()) return;
        if (r == 0) {
          quiesce();
          simgpu::nccl.pErr = 0;
          if (!p.k("dir", 1)) fsMkdir("/data");
          for (auto& s : seen) s.clear();
          for (int a = 0; a < W; a++)
            for (int b = 0; b < a; b++) partition(c.node[a], c.node[b], false);
        }
        sleepFor(45 * SEC + p.k("start" + std::to_string(r)) / 2 * US);
        Tolerant t2 = tol;
        t2.calm = true;
        t2.T = CALM;
        round(r, t2, 1);
        probe("initialised-again");
        {
          NoPreempt np;
          left2--;
        }
        if (!waitFor([&] { return left2 == 0; }, 3000 * SEC)) violation("hang", "%s", threadDump().c_str());
        pg.destroyProcessGroup();
      }));
  for (auto* t : ts)
    if (!join(t, 3900 * SEC)) violation("hang", "%s", threadDump().c_str());
  for (int r = 0; r < W; r++)
    if (!c.done[r] && !absent[r] && alive(c.node[r])) violation("hang", "rank %d did not end", r);
  for (int r = 0; r < W; r++)
    if (alive(c.node[r])) c.pg[r].reset();
}
Plan genC08(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  genSwarm(g, p, s);
  p.knob["mem"] = p.k("mem") ? 2000 : 0;
  genDevices(g, p);
  int W = p.knob["world"] = g.chance(1, 10) ? 1 : 2 + g.below(thorough ? 5 : 3);
  int how = p.knob["how"] = g.below(5);
  p.knob["port"] = g.below(2);
  p.knob["T"] = 300 + g.below(g.chance(1, 3) ? 30000 : 4000);
  p.knob["wait"] = g.chance(3, 4);
  p.knob["stale"] = g.chance(1, 3);
  p.knob["two"] = g.chance(1, 4);
  p.knob["again"] = g.chance(1, 2);
  bool calm = p.knob["calm"] = g.chance(1, 3);
  u64 span = g.chance(1, 2) ? 300000 : calm ? 7000000 : 12000000;
  for (int r = 0; r < W; r++)
    if (g.chance(1, 2)) p.knob["start" + std::to_string(r)] = g.below(span);
  if (g.chance(1, 3)) p.lines.push_back({"bad", {(i64)g.below(W), (i64)g.below(NBAD + 9)}});
  if (!calm && g.chance(1, 4)) p.knob["nerr"] = 1 + g.below(60);
  if (!calm && how == 2 && g.chance(1, 8)) p.knob["dir"] = 0;
  int k = g.below(4);
  for (int i = 0; i < k; i++) {
    i64 who = g.below(W), t = g.below(g.chance(1, 2) ? 3000 : g.chance(1, 2) ? 300000 : 8000000);
    switch (g.below(6)) {
      case 0: p.lines.push_back({"miss", {who}}); break;
      case 1: p.lines.push_back({"kill", {who, t, (i64)g.below(2)}}); break;
      case 2: p.lines.push_back({"cut", {who, t, (i64)g.below(g.chance(1, 2) ? 2000 : 40000), (i64)g.below(8)}}); break;
      default: p.lines.push_back({"pause", {who, t, (i64)g.below(4000)}}); break;
    }
  }
  return p;
}
Reg r8({"C08", "1-4 rank processes initialise over tcp, env and file rendezvous with random start times, invalid settings first, missing, killed, stopped, cut-off and lost peers and failing communication calls; identities, communicators and the first collectives of the ranks must agree or failure is reported in bounded time, and once faults have ended the same objects must be able to form a group.", REAL, STUB, genC08, execC08, 60000, 1000000, 30, 600, {}});
// ------------------------------------------------------------------ C10
struct BarRec {
  int invoked = 0, returned = 0;
  u64 lastInv = 0;
};
void execC10(const Plan& p) {
  applySwarm(p);
  setupDevices(p);
  crashClass("crash");
  Cluster c(std::max<i64>(1, p.k("world", 2)));
  int W = c.W;
  std::vector<BarRec> rec(p.lines.size());
  u64 paused = 0;
  std::map<int, int> lg;
  runRanks(p, c, [&](int r) {
    auto& pg = *c.pg[r];
    RankVM vm{pg, r, W, {}};
    for (size_t i = 0; i < p.lines.size(); i++) {
      auto& l = p.lines[i];
      if (l.kind == "coll") vm.coll(l, i);
      if (l.kind == "noise" && l.arg(4) % W == r) vm.noise(l, i);
      if (l.kind == "sleep" && l.arg(0) % W == r) sleepFor(l.arg(1) * US);
      if (l.kind == "pause" && l.arg(0) % W == r) {
        Node* n = c.node[r];
        u64 d = (1 + l.arg(2) % 3000) * MS;
        atNodeStep(n, 1 + l.arg(1) % 400, [&, n, d] {
          fault("process-paused");
          pauseNode(n);
          paused += d;
          after(d, [n] { resumeNode(n); });
        });
      }
      if (l.kind == "barrier") {
        int dev = devFor(r, l.arg(1) % 2);
        cuda::setDevice(dev);
        std::vector<int64_t> ids;
        if (l.arg(0) % 2) {
          ids.push_back(dev);
          if (l.arg(3) % 2) cuda::setDevice(devFor(r, 0));
        }
        auto& b = rec[i];
        int e0 = errorsLogged(curThreadId());
        {
          NoPreempt np;
          b.invoked++;
          b.lastInv = now();
        }
        bool async = l.arg(2) % 4 == 3;
        auto w = pg.barrier(async, ids);
        if (async) {
          if (!w) violation("failure-without-fault", "line %zu: barrier on rank %d returned no work", i, r);
          if (l.arg(2) % 8 == 3) {
            while (!w->isCompleted()) sleepFor(100 * US);
          } else {
            bool ok = l.arg(3) % 2 ? w->wait() : w->wait(msec(600000));
            if (!ok || !w->isCompleted()) violation("failure-without-fault", "line %zu: wait for the barrier on rank %d returned %d, completed=%d", i, r, ok, w->isCompleted());
          }
          probe("asynchronous-barrier");
        }
        NoPreempt np;
        if (b.invoked < W) violation("barrier-released-early", "line %zu: the barrier returned on rank %d when %d of %d ranks had called it", i, r, b.invoked, W);
        b.returned++;
        if (now() > b.lastInv + 60 * SEC + 2 * paused) violation("barrier-late", "line %zu: returned on rank %d %.3f s after the last rank called it", i, r, (now() - b.lastInv) / 1e9);
        if (errorsLogged(curThreadId()) != e0) violation("failure-without-fault", "line %zu: the barrier on rank %d logged an error", i, r);
        if (now() > b.lastInv + 100 * MS) probe("slow-barrier");
        probe("barrier");
      }
    }
    vm.flush();
  });
}
Plan genC10(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  genSwarm(g, p, s);
  p.knob["mem"] = p.k("mem") ? 2000 : 0;
  genDevices(g, p);
  p.knob["world"] = g.chance(1, 12) ? 1 : 2 + g.below(thorough ? 5 : 4);
  p.knob["file"] = g.below(3) == 0;
  int k = 1 + g.below(thorough ? 24 : 12);
  for (int i = 0; i < k; i++) {
    switch (g.below(8)) {
      case 0: p.lines.push_back({"noise", {(i64)g.below(400), (i64)g.below(6), (i64)g.below(2), 0, (i64)g.below(8)}}); break;
      case 1: p.lines.push_back({"sleep", {(i64)g.below(8), (i64)g.below(g.chance(1, 4) ? 5000000 : 20000)}}); break;
      case 2: p.lines.push_back({"pause", {(i64)g.below(8), (i64)g.below(400), (i64)g.below(3000)}}); break;
      case 3:
        p.lines.push_back({"coll", {(i64)g.below(5), (i64)g.below(NTY), (i64)g.below(5), (i64)g.below(400), (i64)g.below(8), g.chance(1, 4), (i64)g.below(6),
                                    (i64)g.below(4), (i64)g.below(3), 0, (i64)g.below(8)}});
        break;
      default: p.lines.push_back({"barrier", {(i64)g.below(2), g.chance(1, 4), (i64)g.below(8), (i64)g.below(2)}});
    }
  }
  p.lines.push_back({"barrier", {0, 0, 0, 0}});
  return p;
}
Reg r10({"C10", "2-5 rank processes run barriers (with and without device, synchronous and asynchronous) between collectives, device work, sleeps and stopped processes; a barrier may not return anywhere before every rank called it, and returns within a bounded time afterwards.", REAL, STUB, genC10, execC10, 60000, 1000000, 30, 600, {}});
// ------------------------------------------------------------------ C11
void execC11(const Plan& p) {
  applySwarm(p);
  setupDevices(p);
  crashClass("crash");
  Cluster c(std::max<i64>(2, p.k("world", 2)));
  int W = c.W;
  const u64 T = p.k("T", 1000) * MS;
  bool calm = p.k("calm");
  fsMkdir("/data");
  std::vector<u64> paused(W);
  std::vector<Thread*> ts;
  int left = W;
  std::vector<int> entered(p.lines.size());
  simgpu::nccl.pErr = p.k("nerr");
  simgpu::nccl.pAsync = p.k("nasync");
  armSched();
  for (int r = 0; r < W; r++)
    ts.push_back(spawn(c.node[r], "rank" + std::to_string(r), [&, r] {
      if (i64 d = p.k("start" + std::to_string(r))) sleepFor(d * US);
      Node* n = c.node[r];
      cuda::setDevice(devFor(r, 0));
      Tolerant tol;
      tol.calm = calm;
      tol.T = calm ? 600 * SEC : T;
      tol.extra = [&paused, r](bool all) {
        u64 t = 0;
        for (size_t i = 0; i < paused.size(); i++) t += all || (int)i == r ? paused[i] : 0;
        return t;
      };
      {
        NoPreempt np;
        c.pg[r] = std::make_shared<DistributedProcessGroup>();
      }
      auto& pg = *c.pg[r];
      bool ok = tol.timed("initProcessGroup", 0, r, CONNECT + 3 * tol.T, [&] { return pg.initProcessGroup(NCCL, method(p), r, W, msec(tol.T / MS)); }, true);
      if (ok != pg.isInitialized()) violation("initialisation-state", "rank %d: initProcessGroup returned %d, isInitialized is %d", r, ok, pg.isInitialized());
      if (calm && !ok) violation("initialisation-failed", "rank %d of %d, no faults", r, W);
      if (ok) {
        RankVM vm{pg, r, W, {}};
        vm.tol = &tol;
        for (size_t i = 0; i < p.lines.size(); i++) {
          auto& l = p.lines[i];
          bool mine = l.arg(0) % W == r;
          if (l.kind == "coll") vm.coll(l, i);
          if (l.kind == "barrier") {
            int dev = devFor(r, l.arg(1) % 2);
            cuda::setDevice(dev);
            std::vector<int64_t> ids;
            if (l.arg(2) % 2) ids.push_back(dev);
            int e0 = errorsLogged(curThreadId());
            {
              NoPreempt np;
              entered[i]++;
            }
            bool async = l.arg(3) % 3 == 0, ok;
            auto w = tol.timed("barrier", i, r, 4 * tol.T, [&] { return pg.barrier(async, ids); }, true);
            if (async)
              ok = w && tol.timed("barrier wait", i, r, l.arg(3) % 2 ? tol.T : 500 * MS, [&] { return l.arg(3) % 2 ? w->wait() : w->wait(msec(500)); });
            else
              ok = errorsLogged(curThreadId()) == e0;
            if (ok && entered[i] < W) violation("barrier-released-early", "line %zu: the barrier succeeded on rank %d when %d of %d ranks had called it", i, r, entered[i], W);
            if (!ok && calm && !(async && w)) violation("failure-without-fault", "line %zu: barrier on rank %d", i, r);
            probe(ok ? "barrier-succeeded" : "barrier-failed");
            if (!ok) tol.failures++;
          }
          if (l.kind == "flush" && mine) vm.flush();
          if (l.kind == "sleep" && mine) sleepFor(l.arg(1) * US);
          if (l.kind == "failcall" && mine) {
            static const ncclResult_t es[] = {ncclUnhandledCudaError, ncclSystemError, ncclInternalError, ncclInvalidArgument, ncclInvalidUsage, ncclRemoteError};
            simgpu::ncclFailCall(n, 1 + l.arg(1) % 20, es[l.arg(2) % 6]);
          }
          if (l.kind == "kill" && mine)
            atNodeStep(n, 1 + l.arg(1) % 3000, [n] {
              fault("process-killed");
              kill(n);
            });
          if (l.kind == "pause" && mine) {
            u64 d = (1 + l.arg(2) % 5000) * MS;
            atNodeStep(n, 1 + l.arg(1) % 3000, [n, d, &paused, r] {
              fault("process-paused");
              pauseNode(n);
              paused[r] += d;
              after(d, [n] { resumeNode(n); });
            });
          }
          if (l.kind == "leave" && mine && (tol.failures || l.arg(1))) {
            fault("rank-stops-taking-part");
            break;
          }
        }
        auto back = pg.getProcessGroup()->getDefaultBackend();
        int e = p.k("end" + std::to_string(r)) % 5;
        if (calm) vm.flush(), e = p.k("end0") % 2;
        if (calm) {  // an abort of one rank would end the operations of the others
          {
            NoPreempt np;
            left--;
          }
          if (!waitFor([&] { return left == 0; }, 3000 * SEC)) violation("hang", "%s", threadDump().c_str());
        }
        // another thread waits for an operation when the group is aborted
        std::shared_ptr<Work> aw;
        bool doneBefore = false;
        std::vector<Thread*> waiters;
        if (e >= 3 && !vm.pend.empty()) {
          aw = vm.pend.back().w;
          int dev = vm.pend.back().dev;
          for (int k = 0; k < 2; k++)
            waiters.push_back(spawn(n, "waiter", [&, aw, dev, r, k] {
              cuda::setDevice(dev);
              bool ok = k ? aw->wait(msec(2000000)) : [&] { while (!aw->isCompleted()) sleepFor(2 * MS); return aw->isSuccess(); }();
              if (ok && !aw->isSuccess()) violation("inconsistent-result", "rank %d: wait returned true, isSuccess is false", r);
            }));
          sleepFor((1 + p.k("endsleep")) * MS);
          doneBefore = aw->isCompleted();
        } else if (e == 0)
          vm.flush();
        bool s0 = aw && aw->isSuccess();
        if (e == 1 || e == 3) {
          tol.timed("abort", 0, r, DRAIN, [&] { back->abort(); return 0; });
          if (back->getError() == BackendErrorType::SUCCESS) violation("abort-hidden", "rank %d: getError reports success after abort", r);
          probe("group-aborted");
          for (auto& q : vm.pend) {
            bool ok = vm.waitOn(q, 100 * MS);
            if (!q.w->isCompleted()) violation("abort-leaves-operation", "line %zu: the operation on rank %d still runs after abort", q.line, r);
            cuda::setDevice(q.dev);
            if (ok && q.check) q.check(q.keep);
            if (!q.w->isSuccess() && q.w->wait()) violation("hidden-failure", "line %zu on rank %d: failed with '%s', yet wait() returns true", q.line, r, q.w->exception().c_str());
          }
        }
        if (e == 2 || e == 4) tol.timed("shutdown", 0, r, tol.T + DRAIN, [&] { pg.getProcessGroup()->shutdown(); return 0; });
        for (auto* t : waiters)
          if (!join(t, 5 * SEC + tol.T + DRAIN)) violation("hang", "rank %d: a thread waiting for an operation did not return after the group was aborted or shut down: %s", r, threadDump().c_str());
        if (aw && doneBefore && aw->isSuccess() != s0) violation("result-changed", "rank %d: a completed operation changed its result", r);
        back.reset();
        tol.timed("destroyProcessGroup", 0, r, tol.T + DRAIN, [&] { pg.destroyProcessGroup(); return 0; });
        for (auto& q : vm.pend)
          if (!q.w->isCompleted()) violation("never-completes", "line %zu: the operation on rank %d is still unfinished after the group was destroyed", q.line, r);
      } else
        probe("initialisation-failed");
      {
        NoPreempt np;
        left -= !calm;
      }
      // the process lives on for a while, as one that hosts the store does
      waitFor([&] { return left <= 0; }, 5 * SEC);
      tol.timed("group destructor", 0, r, tol.T + DRAIN, [&] { c.pg[r].reset(); return 0; });
      if (int k = simgpu::ncclLiveComms(n)) violation("communicator-leaked", "rank %d still has %d after the group was destroyed", r, k);
      c.done[r] = 1;
    }));
  for (int r = 0; r < W; r++) {
    if (!join(ts[r], 3000 * SEC)) violation("hang", "%s", threadDump().c_str());
    if (!c.done[r] && alive(c.node[r])) violation("hang", "rank %d did not end", r);
  }
}
Plan genC11(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  genSwarm(g, p, s);
  p.knob["mem"] = p.k("mem") ? 2000 : 0;
  genDevices(g, p);
  int W = p.knob["world"] = 2 + g.below(thorough ? 4 : 3);
  p.knob["file"] = g.below(3) == 0;
  p.knob["T"] = 300 + g.below(4000);
  bool calm = p.knob["calm"] = g.chance(1, 4);
  if (!calm && g.chance(1, 4)) p.knob["nerr"] = 1 + g.below(40);
  if (!calm && g.chance(1, 4)) p.knob["nasync"] = 1 + g.below(200);
  for (int r = 0; r < W; r++) {
    if (g.chance(1, 4)) p.knob["start" + std::to_string(r)] = g.below(300000);
    p.knob["end" + std::to_string(r)] = g.below(5);
  }
  p.knob["endsleep"] = g.below(300);
  int k = 2 + g.below(thorough ? 14 : 8);
  int kills = 0;
  for (int i = 0; i < k; i++) {
    u32 w = g.below(13);
    if (calm && (w == 2 || w == 3 || w == 5)) w = 6;
    i64 who = g.below(W);
    switch (w) {
      case 0: p.lines.push_back({"flush", {who}}); break;
      case 1: p.lines.push_back({"sleep", {who, (i64)g.below(g.chance(1, 2) ? 5000000 : 50000)}}); break;
      case 2:
        if (++kills < W) p.lines.push_back({"kill", {who, (i64)g.below(g.chance(1, 2) ? 3000 : 300)}});
        break;
      case 3: p.lines.push_back({"failcall", {who, (i64)g.below(20), (i64)g.below(6)}}); break;
      case 4: p.lines.push_back({"pause", {who, (i64)g.below(g.chance(1, 2) ? 3000 : 300), (i64)g.below(5000)}}); break;
      case 5: p.lines.push_back({"leave", {who, (i64)g.below(2)}}); break;
      case 10: p.lines.push_back({"barrier", {who, g.chance(1, 4), (i64)g.below(2), (i64)g.below(6)}}); break;
      default:
        p.lines.push_back({"coll", {(i64)g.below(6), (i64)g.below(NTY), (i64)g.below(5), (i64)g.below(60), (i64)g.below(8), g.chance(1, 4), (i64)g.below(6),
                                    (i64)g.below(4), (i64)g.below(3), 0, (i64)g.below(8), (i64)(g.chance(1, 2) ? g.below(3000) : g.below(50))}});
    }
  }
  return p;
}
Reg r11({"C11", "2-4 rank processes run collectives with short timeouts while calls of the communication library fail, communicators fail asynchronously and processes are killed or stopped; no call may outlast its timeout, report success without the right data, crash, or hang, and abort, shutdown and destruction end in bounded time; in runs without faults no operation may be reported as failed.", REAL, STUB, genC11, execC11, 60000, 1000000, 30, 600, {}});
// ------------------------------------------------------------------ C13
struct DNet : nn::Module {
  std::vector<std::shared_ptr<nn::Linear>> ls;
  Tensor scale;
  bool tied, reuse, scaled;
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override {
    if (!scaled) return {};
    return {{"scale", &scale}};
  }
  explicit DNet(const Plan& p, bool reversed = false) : tied(p.k("tied")), reuse(p.k("reuse")), scaled(p.k("scaled")) {
    int n = 1 + p.k("layers") % 4;
    i64 w = 1 + p.k("w0") % 9;
    for (int i = 0; i < n; i++) {
      i64 o = reuse && i == 1 ? w : 1 + p.k("w" + std::to_string(i + 1)) % 9;
      ls.push_back(std::make_shared<nn::Linear>(w, o, !(p.k("nobias") >> i & 1)));
      registerModule("l" + std::to_string(i), *ls.back());
      w = o;
    }
    if (tied) registerModule("again", *ls[0]);
    if (scaled) scale = Tensor::ones({w}, options::requiresGrad(true));
    out = w;
    in = 1 + p.k("w0") % 9;
  }
  i64 in = 1, out = 1;
  Tensor forward(const Tensor& x0) override {
    Tensor x = x0;
    for (size_t i = 0; i < ls.size(); i++) {
      x = (*ls[i])(x);
      if (reuse && i == 1) x = (*ls[i])(x);
      if (i + 1 < ls.size()) x = function::relu(x);
    }
    if (scaled) x = x * scale;
    return x;
  }
};
struct Saved { std::string what; size_t line; Tensor t; std::vector<float> ref; bool exact; size_t slot; };
void execC13(const Plan& p) {
  applySwarm(p);
  setupDevices(p);
  crashClass("crash");
  Cluster c(std::max<i64>(1, p.k("world", 2)));
  int W = c.W;
  i64 root = p.k("root") % W, frozen = p.k("frozen"), cap = p.k("cap", 1 << 20), opt = p.k("opt") % 3, refRank = p.k("ref") % W;
  // the value every rank must have
  std::map<std::pair<size_t, std::string>, std::vector<float>> agreed;
  auto initial = [](int rank, size_t k, size_t i) { return (float)((double)((i64)(Rng::mix(rank * 77 + k * 1009 + i * 31) % 33) - 16) / 32.0); };
  runRanks(p, c, [&](int r) {
    int dev = devFor(r, 0);
    Device D(DeviceType::CUDA, (DeviceIndex)dev);
    auto setup = [&](DNet& net, int as) {
      size_t k = 0;
      std::vector<TensorPtr> seen;
      for (auto* q : net.parameters()) {
        if (std::find(seen.begin(), seen.end(), q) != seen.end()) continue;
        seen.push_back(q);
        std::vector<float> v(q->numel());
        for (size_t i = 0; i < v.size(); i++) v[i] = initial(as, k, i);
        bool f = frozen >> k & 1;
        WithNoGrad { q->copy_(Tensor(v).view(q->shape())); }
        if (f) q->setRequiresGrad(false);
        k++;
      }
      net.to(D);
      return seen;
    };
    DNet net(p), ref(p);
    auto ps = setup(net, r), rs = setup(ref, root);
    RankVM vm{*c.pg[r], r, W, {}};
    if (p.k("noise0")) vm.noise({"noise", {(i64)(p.k("noise0") * 100), 3, 0, 0}}, 1);
    std::unique_ptr<DistributedModule> dm = std::make_unique<DistributedModule>(net, c.pg[r], root, cap);
    std::vector<Saved> todo;
    auto look = [&](const char* what, size_t line, const Tensor& t, const std::vector<float>& want, bool exact, size_t slot, bool later) {
      Tensor u = t;
      if (later) WithNoGrad { u = t * 1.0f; }
      todo.push_back({what, line, u, want, exact, slot});
    };
    auto settle = [&] {
      for (auto& s : todo) {
        auto v = s.t.toList<float>();
        NoPreempt np;
        if (!s.ref.empty()) {
          if (v.size() != s.ref.size()) violation("wrong-size", "%s %zu of rank %d", s.what.c_str(), s.slot, r);
          float big = 0;
          for (float f : s.ref) big = std::max(big, std::fabs(f));
          for (size_t i = 0; i < v.size(); i++)
            if (s.exact ? v[i] != s.ref[i] : !(std::fabs(v[i] - s.ref[i]) <= 2e-3f * big + 2e-4f))
              violation("wrong-" + s.what, "line %zu: %s %zu, element %zu of rank %d is %g, expected %g", s.line, s.what.c_str(), s.slot, i, r, v[i], s.ref[i]);
        }
        auto key = std::make_pair(s.line * 64 + s.slot, s.what);
        auto it = agreed.find(key);
        if (it == agreed.end())
          agreed[key] = v;
        else if (it->second.size() != v.size() || memcmp(it->second.data(), v.data(), v.size() * 4))
          violation("replicas-differ", "line %zu: %s %zu of rank %d differs from another rank's", s.line, s.what.c_str(), s.slot, r);
        probe(s.what.c_str());
      }
      todo.clear();
    };
    for (size_t k = 0; k < ps.size(); k++) {
      std::vector<float> want(ps[k]->numel());
      for (size_t i = 0; i < want.size(); i++) want[i] = initial(root, k, i);
      look("initial-parameter", 0, *ps[k], want, true, k, true);
    }
    if (p.k("look0")) settle();
    auto optim = [&](nn::Module& m) -> std::unique_ptr<optim::Optimizer> {
      std::vector<TensorPtr> q;
      for (auto* x : m.parameters())
        if (x->requiresGrad() && std::find(q.begin(), q.end(), x) == q.end()) q.push_back(x);
      if (opt == 0) return std::make_unique<optim::SGD>(std::move(q), 0.05f);
      if (opt == 1) return std::make_unique<optim::SGD>(std::move(q), 0.02f, 0.9f);
      return std::make_unique<optim::AdamW>(std::move(q), 0.01f);
    };
    auto o1 = optim(*dm), o2 = optim(ref);
    bool any = false;
    for (auto* q : ps) any = any || q->requiresGrad();
    for (size_t li = 0; any && li < p.lines.size(); li++) {
      auto& l = p.lines[li];
      if (l.kind != "iter") continue;
      i64 B = 1 + l.arg(0) % 4 + net.scaled;  // a broadcast over one row gives a gradient of another shape
      if (l.arg(5) % W == r && l.arg(6)) sleepFor(l.arg(6) * US);
      auto batch = [&](int from, int to, bool y) {
        std::vector<float> v;
        i64 w = y ? net.out : net.in;
        for (int q = from; q < to; q++)
          for (i64 i = 0; i < B * w; i++) v.push_back((float)((double)((i64)(Rng::mix(li * 100003 + q * 1009 + i * 7 + y) % 17) - 8) / 8.0));
        return Tensor(v, Options(D, DType::Float32)).view({(to - from) * B, w});
      };
      if (l.arg(1)) o1->zeroGrad();
      if (l.arg(2) % 4 == 1) WithNoGrad { (*dm)(batch(r, r + 1, false)); }
      if (l.arg(2) % 4 == 2) (*dm)(batch(r, r + 1, false));
      {
        auto loss = function::mseLoss((*dm)(batch(r, r + 1, false)), batch(r, r + 1, true));
        loss.backward();
      }
      if (l.arg(3)) vm.noise({"noise", {(i64)(l.arg(3) * 50), 3, 0, 0}}, li);
      bool later = l.arg(4) & 1;
      std::vector<std::vector<float>> want(ps.size());
      if (r == refRank) {
        if (l.arg(1)) o2->zeroGrad();
        auto loss = function::mseLoss(ref(batch(0, W, false)), batch(0, W, true));
        loss.backward();
        for (size_t k = 0; k < ps.size(); k++)
          if (rs[k]->requiresGrad()) want[k] = rs[k]->grad().toList<float>();
      }
      for (size_t k = 0; k < ps.size(); k++)
        if (ps[k]->requiresGrad()) look("gradient", li + 1, ps[k]->grad(), want[k], false, k, later);
      if (!later) settle();
      o1->step();
      if (r == refRank) {
        o2->step();
        for (size_t k = 0; k < ps.size(); k++) want[k] = opt == 2 ? std::vector<float>() : rs[k]->toList<float>();
      }
      for (size_t k = 0; k < ps.size(); k++) look("parameter", li + 1, *ps[k], want[k], false, k, later || (l.arg(4) & 2));
      if (!later && (l.arg(4) & 4)) settle();
    }
    settle();
    cuda::setDevice(dev);
    dm.reset();
  });
}
Plan genC13(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  genSwarm(g, p, s);
  p.knob["mem"] = p.k("mem") ? 4000 : 0;
  genDevices(g, p);
  p.knob["world"] = g.chance(1, 8) ? 1 : 2 + g.below(thorough ? 3 : 2);
  p.knob["file"] = g.below(3) == 0;
  p.knob["root"] = g.below(5);
  p.knob["ref"] = g.below(5);
  p.knob["layers"] = g.below(4);
  for (int i = 0; i < 5; i++) p.knob["w" + std::to_string(i)] = g.below(9);
  if (g.chance(1, 2)) p.knob["nobias"] = g.below(16);
  p.knob["tied"] = g.chance(1, 6);
  p.knob["reuse"] = g.chance(1, 6);
  p.knob["scaled"] = g.chance(1, 3);
  if (g.chance(1, 3)) p.knob["frozen"] = g.below(1 << (1 + g.below(7)));
  static const i64 caps[] = {1, 32, 100, 300, 1000, 25 << 20};
  p.knob["cap"] = caps[g.below(6)];
  p.knob["opt"] = g.below(3);
  p.knob["look0"] = g.below(2);
  if (g.chance(1, 2)) p.knob["noise0"] = 1 + g.below(20);
  int k = 1 + g.below(thorough ? 6 : 3);
  for (int i = 0; i < k; i++)
    p.lines.push_back({"iter", {(i64)g.below(4), i == 0 ? (i64)g.below(2) : g.chance(3, 4), (i64)g.below(8), g.chance(1, 3) ? (i64)g.below(20) : 0, (i64)g.below(8), (i64)g.below(4),
                                g.chance(1, 3) ? (i64)g.below(20000) : 0}});
  return p;
}
Reg r13({"C13", "1-3 rank processes train random small networks (tied, reused and frozen parameters, every bucket size, root and optimiser) wrapped for distributed training, with ranks and device streams out of step; initial parameters equal the root's, gradients and parameters are bitwise equal on all ranks and equal a single process trained on the combined batch.", REAL, STUB, genC13, execC13, 60000, 1000000, 30, 600, {}});
}  // namespace
