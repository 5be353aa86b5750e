// simulated collective library: non-blocking communicators, matched operations, own completion time on every rank, failures
#include "gpu.h"

#include <string.h>

#include "include/cuda_bf16.h"

namespace simgpu {
NcclCfg nccl;
enum St { INIT, READY, LAUNCHING, ERR, GONE };
struct Desc {
  const char* kind = "";
  const void* in = nullptr;
  void* out = nullptr;
  size_t n = 0;  // elements of one chunk
  ncclDataType_t t = ncclInt8;
  ncclRedOp_t op = ncclSum;
  int root = -1, peer = -1;
};
struct Group;
struct Part {
  ncclComm* c = nullptr;
  Desc d;
  Stream* s = nullptr;
  bool arrived = false, finished = false, dropped = false, contributed = false, committed = false;
  u64 hIn = 0, hOut = 0;
  std::vector<u8> data;    // input as it was read
  std::vector<u8> result;
};
struct Slot {
  std::vector<std::shared_ptr<Part>> p;
  bool started = false;
};
struct Group {
  u64 id;
  ncclUniqueId uid;
  Node* owner;
  int nranks = -1;
  std::vector<ncclComm*> m;
  std::map<u64, Slot> slots;
  std::map<std::pair<int, int>, std::deque<std::shared_ptr<Part>>> snd, rcv;
  bool bad = false;
};
}  // namespace simgpu
using namespace simgpu;
struct ncclComm {
  Group* g = nullptr;
  Node* node = nullptr;
  int rank = -1, nranks = 0, dev = 0;
  St st = INIT;
  ncclResult_t async = ncclInProgress;
  u64 next = 0;
  std::vector<std::shared_ptr<Part>> live;
};
namespace simgpu {
static std::vector<Group*> groups;
static std::set<const void*> comms;
static u64 gid = 0;
struct Pending { ncclComm* c; Desc d; Stream* s; };
static thread_local int depth = 0;
static thread_local std::vector<Pending>* pend = nullptr;
static thread_local ncclResult_t groupErr = ncclSuccess;
static std::map<int, i64> calls, errors, failAt;
static std::map<int, ncclResult_t> failWith;
void ncclFailCall(Node* n, i64 k, ncclResult_t e) {
  RtGuard g;
  failAt[n->id] = calls[n->id] + k;
  failWith[n->id] = e;
}
i64 ncclCalls(Node* n) { return calls[n->id]; }
i64 ncclErrors(Node* n) { return errors[n->id]; }
int ncclLiveComms(Node* n) {
  int k = 0;
  for (auto c : comms) k += ((ncclComm*)c)->node == n && ((ncclComm*)c)->st != GONE;
  return k;
}
std::vector<CommInfo> ncclComms(Node* n) {
  std::vector<CommInfo> v;
  for (auto g : groups)
    for (auto c : g->m)
      if (c->node == n) v.push_back({c->rank, c->nranks, c->async == ncclSuccess, g->id, c->st, g->owner});
  return v;
}
static size_t esz(ncclDataType_t t) {
  switch (t) {
    case ncclInt8: case ncclUint8: return 1;
    case ncclFloat16: case ncclBfloat16: return 2;
    case ncclInt64: case ncclUint64: case ncclFloat64: return 8;
    default: return 4;
  }
}
// an injected error of this call, or ncclSuccess
static ncclResult_t inject(ncclComm* c, const char* what) {
  i64 k = ++calls[cur->node->id];
  ncclResult_t e = ncclSuccess;
  auto it = failAt.find(cur->node->id);
  if (it != failAt.end() && it->second == k)
    e = failWith[cur->node->id];
  else if (nccl.pErr) {
    static const ncclResult_t es[] = {ncclSuccess, ncclSystemError, ncclInternalError, ncclUnhandledCudaError, ncclRemoteError};
    e = es[choose(K_NCCL, 5, nccl.pErr)];
  }
  if (e != ncclSuccess) {
    fault("nccl-call-error");
    note("%s fails with %d", what, e);
    errors[cur->node->id]++;
    if (c && c->st != GONE) c->async = e, c->st = ERR;
  }
  return e;
}
static ncclComm* check(const ncclComm* c, const char* what) {
  if (!c) return nullptr;
  if (!comms.count(c)) violation("invalid-communicator", "%s on a handle that is no communicator", what);
  if (c->node != cur->node) violation("invalid-communicator", "%s on a communicator of another process", what);
  if (c->st == GONE) violation("destroyed-communicator-used", "%s after the communicator was destroyed", what);
  return (ncclComm*)c;
}
static void asyncFail(ncclComm* c, ncclResult_t e) {
  if (c->st == GONE || c->st == ERR) return;
  c->st = ERR;
  c->async = e;
  errors[c->node->id]++;
  fault("nccl-async-error");
  note("communicator of rank %d fails with %d", c->rank, e);
}
static void tryReady(Group* g) {
  if (g->bad || g->nranks < 0) return;
  std::vector<bool> have(g->nranks);
  for (auto c : g->m)
    if (c->node->alive && c->st == INIT) have[c->rank] = true;
  for (bool h : have)
    if (!h) return;
  for (auto c : g->m) {
    u64 v = choose(K_NCCL, 24, nccl.pLag);
    after(300 * US + v * v * nccl.lagUnit * 4, [c] {
      if (!c->node->alive || c->st != INIT) return;
      for (auto o : c->g->m)
        if (!o->node->alive) {
          if (choose(K_NCCL, 2, 500)) asyncFail(c, ncclRemoteError);
          return;
        }
      c->st = READY;
      c->async = ncclSuccess;
      note("communicator of rank %d is ready", c->rank);
    });
  }
}
static u64 hashMem(const void* p, size_t n) {
  u64 h = 1469598103934665603ull;
  const u8* b = (const u8*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
static size_t inBytes(const Part& p) {
  size_t e = esz(p.d.t) * p.d.n;
  if (!strcmp(p.d.kind, "reduceScatter")) return e * p.c->nranks;
  if (!strcmp(p.d.kind, "broadcast") && p.c->rank != p.d.root) return 0;
  if (!strcmp(p.d.kind, "recv")) return 0;
  return e;
}
static size_t outBytes(const Part& p) {
  size_t e = esz(p.d.t) * p.d.n;
  if (!strcmp(p.d.kind, "allGather")) return e * p.c->nranks;
  if (!strcmp(p.d.kind, "reduce") && p.c->rank != p.d.root) return 0;
  if (!strcmp(p.d.kind, "send")) return 0;
  return e;
}
static void checkBuf(const Part& p, const void* b, size_t n, const char* what, const char* when) {
  if (!n) return;
  if (!inGpu(b) || !gpuLive(b, n))
    violation("buffer-not-live", "%s: %s of %zu bytes is not inside a live device block (%s)", p.d.kind, what, n, when);
  if (ownerOf(b) != p.c->node || devOf(b) != p.c->dev)
    violation("buffer-on-wrong-device", "%s: %s is not on the communicator's device", p.d.kind, what);
}
static void checkUnchanged(Part& p) {
  checkBuf(p, p.d.in, inBytes(p), "input", "completion");
  checkBuf(p, p.d.out, outBytes(p), "output", "completion");
  if (hashMem(p.d.in, inBytes(p)) != p.hIn || hashMem(p.d.out, outBytes(p)) != p.hOut)
    violation("buffer-changed-in-flight", "%s on rank %d of group %llu: a buffer changed between the start and the completion of the operation",
              p.d.kind, p.c->rank, (unsigned long long)p.c->g->id);
}
template <class T>
static T red1(T a, T b, ncclRedOp_t o) {
  switch (o) {
    case ncclProd: return (T)(a * b);
    case ncclMax: return a < b ? b : a;
    case ncclMin: return b < a ? b : a;
    default: return (T)(a + b);
  }
}
template <class T>
static void redT(std::vector<u8>& r, const std::vector<const u8*>& in, size_t n, ncclRedOp_t o, bool fl) {
  r.resize(n * sizeof(T));
  for (size_t i = 0; i < n; i++) {
    T a{};
    for (size_t k = 0; k < in.size(); k++) {
      T v;
      memcpy(&v, in[k] + i * sizeof(T), sizeof(T));
      if (o == ncclAvg && fl) v = (T)(v * (T)(1.0 / in.size()));
      a = k ? red1<T>(a, v, o) : v;
    }
    if (o == ncclAvg && !fl) a = (T)(a / (T)in.size());
    memcpy(r.data() + i * sizeof(T), &a, sizeof(T));
  }
}
template <class H>
static void redH(std::vector<u8>& r, const std::vector<const u8*>& in, size_t n, ncclRedOp_t o) {
  r.resize(n * 2);
  for (size_t i = 0; i < n; i++) {
    float a = 0;
    for (size_t k = 0; k < in.size(); k++) {
      H h;
      memcpy((void*)&h, in[k] + i * 2, 2);
      float v = (float)h;
      if (o == ncclAvg) v = v / in.size();
      a = k ? (float)H(red1<float>(a, v, o)) : v;
    }
    H h(a);
    memcpy(r.data() + i * 2, (void*)&h, 2);
  }
}
static void reduce(std::vector<u8>& r, const std::vector<const u8*>& in, size_t n, ncclDataType_t t, ncclRedOp_t o) {
  switch (t) {
    case ncclInt8: redT<int8_t>(r, in, n, o, false); break;
    case ncclUint8: redT<uint8_t>(r, in, n, o, false); break;
    case ncclInt32: redT<int32_t>(r, in, n, o, false); break;
    case ncclUint32: redT<uint32_t>(r, in, n, o, false); break;
    case ncclInt64: redT<int64_t>(r, in, n, o, false); break;
    case ncclUint64: redT<uint64_t>(r, in, n, o, false); break;
    case ncclFloat32: redT<float>(r, in, n, o, true); break;
    case ncclFloat64: redT<double>(r, in, n, o, true); break;
    case ncclFloat16: redH<__half>(r, in, n, o); break;
    default: redH<__nv_bfloat16>(r, in, n, o); break;
  }
}
static void finishPart(const std::shared_ptr<Part>& p, bool write) {
  if (p->finished) return;
  p->finished = true;
  if (write) {
    checkUnchanged(*p);
    if (!p->result.empty()) memcpy(p->d.out, p->result.data(), p->result.size());
  }
  auto& l = p->c->live;
  l.erase(std::remove(l.begin(), l.end(), p), l.end());
  note("%s of rank %d %s", p->d.kind, p->c->rank, write ? "completes" : "is terminated");
  if (p->arrived && p->s->busy) opDone(p->s);
  wakeAll(p->c);
}
static void complete(const std::shared_ptr<Part>& p, bool own) {
  if (p->committed) return;
  p->committed = true;
  u64 v = choose(K_NCCL, 32, nccl.pLag);
  if (v) fault("collective-completion-lag");
  after(10 * US + v * v * nccl.lagUnit, [p, own] {
    if (p->finished || !p->c->node->alive) return;
    if (p->c->st == ERR) return;  // stuck until aborted
    if (!own)
      for (auto c : p->c->g->m)
        if (!c->node->alive && choose(K_NCCL, 2, 500)) {
          fault("peer-died-in-collective");
          return;
        }
    finishPart(p, true);
  });
}
static void contribute(const std::shared_ptr<Part>& p) {
  if (p->contributed) return;
  p->contributed = true;
  p->data.assign((const u8*)p->d.in, (const u8*)p->d.in + inBytes(*p));
}
// takes part; an operation ended by an abort before its data was read does not
static bool here(const std::shared_ptr<Part>& p) { return p && p->arrived && (!p->finished || p->contributed || p->committed); }
static bool same(const Desc& a, const Desc& b) { return !strcmp(a.kind, b.kind) && a.n == b.n && a.t == b.t && a.op == b.op && a.root == b.root; }
static void tryCollective(Group* g, u64 seq) {
  Slot& s = g->slots[seq];
  if (s.started) return;
  Part* first = nullptr;
  for (auto& p : s.p)
    if (p) {
      if (first && !same(first->d, p->d))
        violation("collective-mismatch", "operation %llu of group %llu: rank %d calls %s (%zu elements, type %d, op %d, root %d), rank %d calls %s (%zu, %d, %d, %d)",
                  (unsigned long long)seq, (unsigned long long)g->id, first->c->rank, first->d.kind, first->d.n, first->d.t, first->d.op, first->d.root,
                  p->c->rank, p->d.kind, p->d.n, p->d.t, p->d.op, p->d.root);
      if (!first) first = p.get();
    }
  if (!first) return;
  const Desc& d = first->d;
  int n = g->nranks;
  bool bc = !strcmp(d.kind, "broadcast"), rd = !strcmp(d.kind, "reduce");
  if (bc) {
    auto& r = s.p[d.root];
    if (!here(r)) return;
    if (!r->contributed) {
      contribute(r);
      r->result = r->data;
    }
    bool all = true;
    for (int i = 0; i < n; i++) {
      auto& p = s.p[i];
      if (!here(p)) {
        all = false;
        continue;
      }
      if (i != d.root && !p->committed) {
        p->result = r->data;
        complete(p, false);
      }
    }
    if (!r->committed && (all || choose(K_NCCL, 2, nccl.pEager))) complete(r, true);
    if (all) s.started = true;
    return;
  }
  bool all = true;
  for (auto& p : s.p)
    if (!here(p)) all = false;
  if (rd)
    for (int i = 0; i < n; i++)
      if (i != d.root && here(s.p[i]) && !s.p[i]->contributed && (all || choose(K_NCCL, 2, nccl.pEager))) {
        contribute(s.p[i]);
        complete(s.p[i], true);
      }
  if (!all) return;
  s.started = true;
  std::vector<const u8*> in;
  for (auto& p : s.p) {
    contribute(p);
    in.push_back(p->data.data());
  }
  size_t e = esz(d.t);
  if (!strcmp(d.kind, "allReduce")) {
    std::vector<u8> r;
    reduce(r, in, d.n, d.t, d.op);
    for (auto& p : s.p) p->result = r;
  } else if (rd) {
    reduce(s.p[d.root]->result, in, d.n, d.t, d.op);
  } else if (!strcmp(d.kind, "allGather")) {
    std::vector<u8> r;
    for (auto& p : s.p) r.insert(r.end(), p->data.begin(), p->data.end());
    for (auto& p : s.p) p->result = r;
  } else {  // reduceScatter
    for (int k = 0; k < n; k++) {
      std::vector<const u8*> at;
      for (auto q : in) at.push_back(q + k * d.n * e);
      reduce(s.p[k]->result, at, d.n, d.t, d.op);
    }
  }
  for (auto& p : s.p) complete(p, false);
}
static void tryP2p(Group* g, std::pair<int, int> k) {
  auto& S = g->snd[k];
  auto& R = g->rcv[k];
  // eager sends
  for (auto& p : S)
    if (here(p) && !p->contributed && choose(K_NCCL, 2, nccl.pEager)) {
      contribute(p);
      complete(p, true);
    }
  while (!S.empty() && !R.empty()) {
    auto a = S.front(), b = R.front();
    if (!here(b) || !here(a)) break;
    if (a->d.n != b->d.n || a->d.t != b->d.t)
      violation("collective-mismatch", "send of %zu elements of type %d meets receive of %zu elements of type %d", a->d.n, a->d.t, b->d.n, b->d.t);
    contribute(a);
    b->result = a->data;
    complete(a, true);
    complete(b, false);
    S.pop_front();
    R.pop_front();
  }
}
static void launch(ncclComm* c, const Desc& d, Stream* s) {
  auto p = std::make_shared<Part>();
  p->c = c;
  p->d = d;
  p->s = s;
  c->live.push_back(p);
  Group* g = c->g;
  bool p2p = d.peer >= 0;
  u64 seq = 0;
  std::pair<int, int> k;
  if (p2p) {
    bool snd = !strcmp(d.kind, "send");
    k = snd ? std::make_pair(c->rank, d.peer) : std::make_pair(d.peer, c->rank);
    (snd ? g->snd : g->rcv)[k].push_back(p);
  } else {
    seq = c->next++;
    auto& sl = g->slots[seq];
    sl.p.resize(g->nranks);
    sl.p[c->rank] = p;
  }
  bool fail = nccl.pAsync && flip(K_NCCL, nccl.pAsync);
  Op o;
  o.name = d.kind;
  o.external = true;
  o.onHead = [=] {
    if (p->finished) {  // terminated by an abort before it began
      opDone(p->s);
      return;
    }
    p->arrived = true;
    checkBuf(*p, p->d.in, inBytes(*p), "input", "start");
    checkBuf(*p, p->d.out, outBytes(*p), "output", "start");
    p->hIn = hashMem(p->d.in, inBytes(*p));
    p->hOut = hashMem(p->d.out, outBytes(*p));
    if (p->c->st == ERR) return;
    if (fail) {
      asyncFail(p->c, choose(K_NCCL, 2, 500) ? ncclSystemError : ncclRemoteError);
      return;
    }
    if (p2p)
      tryP2p(g, k);
    else
      tryCollective(g, seq);
  };
  enqueue(s, std::move(o));
}
static ncclResult_t flush() {
  std::vector<Pending> v;
  if (pend) v.swap(*pend);
  ncclResult_t e = groupErr;
  groupErr = ncclSuccess;
  if (e != ncclSuccess) return e;
  std::map<ncclComm*, std::vector<Pending>> by;
  std::vector<ncclComm*> order;
  for (auto& p : v) {
    if (!by.count(p.c)) order.push_back(p.c);
    by[p.c].push_back(p);
  }
  ncclResult_t r = ncclSuccess;
  for (auto c : order) {
    auto ops = by[c];
    u64 w = choose(K_NCCL, 16, nccl.pInProgress);
    if (!w) {
      for (auto& p : ops) launch(p.c, p.d, p.s);
      continue;
    }
    r = ncclInProgress;
    c->st = LAUNCHING;
    c->async = ncclInProgress;
    after(w * w * 10 * US, [c, ops] {
      if (!c->node->alive || c->st != LAUNCHING) return;
      c->st = READY;
      c->async = ncclSuccess;
      for (auto& p : ops) launch(p.c, p.d, p.s);
    });
  }
  return r;
}
static ncclResult_t call(ncclComm* cc, cudaStream_t st, Desc d) {
  schedPoint(2 * US);
  RtGuard g;
  ncclComm* c = check(cc, d.kind);
  if (!c) return ncclInvalidArgument;
  ncclResult_t e = inject(c, d.kind);
  if (e == ncclSuccess && c->st == ERR) e = c->async;
  if (e == ncclSuccess && (c->st == INIT || c->st == LAUNCHING)) {
    probe("communicator-used-before-ready");
    e = ncclInvalidArgument;
  }
  Stream* s = streamOf(st);
  if (e == ncclSuccess && !s) e = ncclInvalidUsage;
  if (e == ncclSuccess && s->dev != c->dev) e = ncclInvalidUsage;
  if (e == ncclSuccess && (d.root >= c->nranks || d.peer >= c->nranks)) e = ncclInvalidArgument;
  if (e != ncclSuccess) {
    if (depth && groupErr == ncclSuccess) groupErr = e;
    return e;
  }
  if (!pend) pend = new std::vector<Pending>();
  pend->push_back({c, d, s});
  if (depth == 0) return flush();
  return ncclSuccess;
}
static ncclResult_t initRank(ncclComm_t* out, int n, ncclUniqueId id, int rank, bool blocking) {
  schedPoint(50 * US);
  RtGuard gd;
  *out = nullptr;
  ncclResult_t e = inject(nullptr, "ncclCommInitRankConfig");
  if (e != ncclSuccess) return e;
  if (n < 1 || rank < 0 || rank >= n) return ncclInvalidArgument;
  auto c = new ncclComm();
  comms.insert(c);
  c->node = cur->node;
  c->rank = rank;
  c->nranks = n;
  c->dev = curDevice();
  *out = c;
  Group* g = nullptr;
  for (auto q : groups)
    if (!memcmp(&q->uid, &id, sizeof id)) g = q;
  note("rank %d of %d joins group %lld", rank, n, g ? (long long)g->id : -1);
  if (!g) {
    probe("unknown-communicator-id");
    g = new Group();
    g->id = ~0ull;
    g->bad = true;
    g->owner = nullptr;
  }
  c->g = g;
  if (!g->bad) {
    bool bad = g->nranks >= 0 && g->nranks != n;
    for (auto o : g->m) bad |= o->rank == rank;
    if (bad) {
      probe("inconsistent-communicator-members");
      g->bad = true;
    }
    g->nranks = n;
    g->m.push_back(c);
  }
  if (g->bad || !g->owner->alive) {  // nobody answers: an error after a while, or nothing ever
    u64 w = choose(K_NCCL, 8, 700);
    if (w) after(w * 100 * MS, [c] { asyncFail(c, ncclSystemError); });
  } else
    tryReady(g);
  if (blocking) {
    while (c->async == ncclInProgress) block(nullptr, "communicator initialisation", now_ + MS, false);
    return c->async;
  }
  return ncclInProgress;
}
}  // namespace simgpu
extern "C" {
const char* ncclGetErrorString(ncclResult_t e) {
  static const char* n[] = {"no error", "unhandled cuda error", "unhandled system error", "internal error", "invalid argument", "invalid usage", "remote error", "in progress"};
  return (unsigned)e < 8 ? n[e] : "unknown";
}
ncclResult_t ncclGetUniqueId(ncclUniqueId* id) {
  schedPoint(100 * US);
  RtGuard gd;
  ncclResult_t e = inject(nullptr, "ncclGetUniqueId");
  if (e != ncclSuccess) return e;
  auto g = new Group();
  g->id = ++gid;
  g->owner = cur->node;
  for (size_t i = 0; i < sizeof id->internal; i++) id->internal[i] = (char)(detRand(g->id * 1000 + i) >> 11);
  id->internal[5] = 0;  // binary data
  g->uid = *id;
  groups.push_back(g);
  note("node %d creates communicator id of group %llu", cur->node->id, (unsigned long long)g->id);
  return ncclSuccess;
}
ncclResult_t ncclCommInitRankConfig(ncclComm_t* out, int n, ncclUniqueId id, int rank, ncclConfig_t* cfg) {
  return initRank(out, n, id, rank, !cfg || cfg->blocking != 0);
}
ncclResult_t ncclCommInitRank(ncclComm_t* out, int n, ncclUniqueId id, int rank) { return initRank(out, n, id, rank, true); }
ncclResult_t ncclCommFinalize(ncclComm_t cc) {
  schedPoint(10 * US);
  RtGuard gd;
  ncclComm* c = check(cc, "ncclCommFinalize");
  return c && (c->st == READY) ? ncclSuccess : ncclInvalidArgument;
}
ncclResult_t ncclCommDestroy(ncclComm_t cc) {
  schedPoint(20 * US);
  RtGuard gd;
  ncclComm* c = check(cc, "ncclCommDestroy");
  if (!c) return ncclSuccess;
  ncclResult_t e = inject(c, "ncclCommDestroy");
  if (e != ncclSuccess) return e;
  if (c->st == ERR) return c->async;
  if (c->st != READY) return ncclInvalidArgument;
  while (!c->live.empty() && c->st == READY) block(c, "ncclCommDestroy", ~0ull, false);
  c->st = GONE;
  note("rank %d destroys its communicator", c->rank);
  return ncclSuccess;
}
ncclResult_t ncclCommAbort(ncclComm_t cc) {
  schedPoint(20 * US);
  RtGuard gd;
  ncclComm* c = check(cc, "ncclCommAbort");
  if (!c) return ncclSuccess;
  c->st = GONE;
  c->async = ncclInvalidArgument;
  probe("communicator-aborted");
  auto l = c->live;
  for (auto& p : l) finishPart(p, false);
  block(nullptr, "ncclCommAbort", now_ + 200 * US + choose(K_NCCL, 16, 300) * 2 * MS, false);
  return ncclSuccess;
}
ncclResult_t ncclCommGetAsyncError(ncclComm_t cc, ncclResult_t* r) {
  schedPoint(2 * US);
  RtGuard gd;
  ncclComm* c = check(cc, "ncclCommGetAsyncError");
  if (!c) return ncclInvalidArgument;
  *r = c->async;
  return ncclSuccess;
}
ncclResult_t ncclCommCount(const ncclComm_t c, int* n) {
  *n = c->nranks;
  return ncclSuccess;
}
ncclResult_t ncclCommUserRank(const ncclComm_t c, int* n) {
  *n = c->rank;
  return ncclSuccess;
}
ncclResult_t ncclGroupStart() {
  schedPoint(1 * US);
  RtGuard gd;
  ncclResult_t e = inject(nullptr, "ncclGroupStart");
  if (e != ncclSuccess) return e;
  depth++;
  return ncclSuccess;
}
ncclResult_t ncclGroupEnd() {
  schedPoint(1 * US);
  RtGuard gd;
  if (depth == 0) return ncclInvalidUsage;
  ncclComm* c = pend && !pend->empty() ? pend->back().c : nullptr;
  ncclResult_t e = inject(c, "ncclGroupEnd");
  if (--depth > 0) {
    probe("group-left-open");
    return e;
  }
  if (e != ncclSuccess) {
    if (pend) pend->clear();
    groupErr = ncclSuccess;
    return e;
  }
  return flush();
}
ncclResult_t ncclBroadcast(const void* a, void* b, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t s) {
  Desc d;
  d.kind = "broadcast", d.in = a, d.out = b, d.n = n, d.t = t, d.root = root;
  return call(c, s, d);
}
ncclResult_t ncclAllReduce(const void* a, void* b, size_t n, ncclDataType_t t, ncclRedOp_t op, ncclComm_t c, cudaStream_t s) {
  Desc d;
  d.kind = "allReduce", d.in = a, d.out = b, d.n = n, d.t = t, d.op = op;
  return call(c, s, d);
}
ncclResult_t ncclReduce(const void* a, void* b, size_t n, ncclDataType_t t, ncclRedOp_t op, int root, ncclComm_t c, cudaStream_t s) {
  Desc d;
  d.kind = "reduce", d.in = a, d.out = b, d.n = n, d.t = t, d.op = op, d.root = root;
  return call(c, s, d);
}
ncclResult_t ncclAllGather(const void* a, void* b, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t s) {
  Desc d;
  d.kind = "allGather", d.in = a, d.out = b, d.n = n, d.t = t;
  return call(c, s, d);
}
ncclResult_t ncclReduceScatter(const void* a, void* b, size_t n, ncclDataType_t t, ncclRedOp_t op, ncclComm_t c, cudaStream_t s) {
  Desc d;
  d.kind = "reduceScatter", d.in = a, d.out = b, d.n = n, d.t = t, d.op = op;
  return call(c, s, d);
}
ncclResult_t ncclSend(const void* a, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t s) {
  Desc d;
  d.kind = "send", d.in = a, d.n = n, d.t = t, d.peer = peer;
  return call(c, s, d);
}
ncclResult_t ncclRecv(void* b, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t s) {
  Desc d;
  d.kind = "recv", d.out = b, d.n = n, d.t = t, d.peer = peer;
  return call(c, s, d);
}
}
