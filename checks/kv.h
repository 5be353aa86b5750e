// operations on a key-value store: generation, execution with recording, history checks
#pragma once
#include <algorithm>
#include "Distributed/Store.h"
#include "common.h"
namespace sim {
using Bytes = std::vector<uint8_t>;
inline Bytes toB(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline std::string toS(const Bytes& b) { return std::string(b.begin(), b.end()); }
// which operations of the store reported failure is seen by the caller only through the error log and default values
struct ErrScope {
  int base = errorsLogged(curThreadId());
  bool any() const { return errorsLogged(curThreadId()) != base; }
  // an error reported at the end (failed connection attempts that are retried are logged as errors too, at least 1 s earlier)
  bool final() const { return any() && lastErrorAt(curThreadId()) + 500 * MS > now(); }
};
struct Hist {
  std::vector<KvOp> ops;
};
// run one operation and record it
inline KvOp doOp(Hist& h, tinytorch::distributed::Store& s, KvOp o, std::string (*name)(int) = keyName) {
  std::vector<std::string> names;
  for (int k : o.keys) names.push_back(name(k));
  size_t idx;
  {
    NoPreempt np;
    o.inv = seq();
    o.tInv = now();
    idx = h.ops.size();
    h.ops.push_back(o);
  }
  ErrScope e;
  switch (o.k) {
    case KvOp::SET: s.set(names[0], toB(o.val)); break;
    case KvOp::GET: o.val = toS(s.get(names[0])); break;
    case KvOp::ADD: o.res = s.add(names[0], o.num); break;
    case KvOp::CHECK: o.res = s.check(names); break;
    case KvOp::DEL: o.res = s.deleteKey(names[0]); break;
    case KvOp::NUM: o.res = s.getNumKeys(); break;
    case KvOp::WAIT: s.wait(names); break;
  }
  NoPreempt np;
  o.failed = e.any();
  o.ret = seq();
  o.tRet = now();
  stateHash(o.k * 31 + o.failed + o.res * 7);
  h.ops[idx] = o;
  note("op %s", o.str().c_str());
  return o;
}
inline KvOp opOf(const Line& l, u64 id, int client) {  // op <thread> <kind> <key> <len/num> <key2..>
  KvOp o;
  o.client = client;
  o.k = (KvOp::K)l.arg(1);
  o.keys.push_back((int)l.arg(2));
  if (o.k == KvOp::SET) {
    i64 len = l.arg(3);
    o.val = len < 0 ? std::to_string(len * 1000 - (i64)id) : valueFor(id + 1, len);  // negative: numeric value
  }
  if (o.k == KvOp::ADD) o.num = l.arg(3);
  if (o.k == KvOp::CHECK || o.k == KvOp::WAIT)
    for (size_t i = 4; i < l.a.size(); i++) o.keys.push_back((int)l.a[i]);
  if (o.k == KvOp::NUM) o.keys.clear();
  return o;
}
// keys 0..3 hold opaque values, 5..6 are counters
inline void genOp(Rng& g, Plan& p, int thread, bool blocking) {
  Line l;
  l.kind = "op";
  int k = g.below(100);
  auto opaque = [&] { return (i64)g.below(4); };
  auto counter = [&] { return (i64)(5 + g.below(2)); };
  auto anyk = [&] { return g.chance(1, 2) ? opaque() : counter(); };
  if (k < 22) {
    static const i64 lens[] = {0, 1, 7, 8, 40, 300, 5000, 40000};
    l.a = {thread, KvOp::SET, opaque(), lens[g.below(g.chance(1, 8) ? 8 : 6)]};
  } else if (k < 26) {
    l.a = {thread, KvOp::SET, counter(), -(i64)g.below(50) - 1};
  } else if (k < 48) {
    static const i64 big[] = {1000000000ll, 5000000000ll, -3000000000000ll, 77777777777777ll, 1000000000000000ll, -99999999999999999ll, 123456789012345678ll};
    l.a = {thread, KvOp::ADD, counter(), g.chance(1, 6) ? big[g.below(7)] : g.range(-5, 9)};
  } else if (k < 62) {
    l.a = {thread, KvOp::CHECK, anyk(), 0};
    for (u64 i = g.below(3); i > 0; i--) l.a.push_back(anyk());
  } else if (k < 74) {
    l.a = {thread, KvOp::DEL, anyk()};
  } else if (k < 80) {
    l.a = {thread, KvOp::NUM, 0};
  } else if (k < 94 || !blocking) {
    l.a = {thread, KvOp::GET, anyk()};
  } else {
    l.a = {thread, KvOp::WAIT, anyk(), 0};
    for (u64 i = g.below(3); i > 0; i--) l.a.push_back(anyk());
  }
  p.lines.push_back(l);
}
inline void checkLin(Hist& h) {
  int r = linearizable(h.ops);
  if (r == 0) violation("not-linearizable", "%s", historyText(h.ops).c_str());
  if (r < 0) probe("linearizability-gave-up");
}
// blocking calls of a recorded history against the certain existence of their keys
inline void checkWaits(const std::vector<KvOp>& H, u64 T, bool infinite, u64 SLACK) {
  // certain existence: from the return of a set/add until the next delete may start
  for (auto& w : H) {
    if (w.k != KvOp::GET && w.k != KvOp::WAIT) {
      if (w.failed || w.ret == ~0ull)
        violation("operation-failed-without-cause", "%s history: %s", w.str().c_str(), historyText(H).c_str());
      continue;
    }
    u64 dur = w.tRet - w.tInv;
    // stretches of time in which every key certainly exists
    std::vector<std::pair<u64, u64>> iv{{w.tInv, ~0ull}};
    for (int k : w.keys) {
      std::vector<std::pair<u64, u64>> dels;  // intervals in which a delete may act
      std::vector<u64> sets;                  // returns of sets (and invocation for overlap)
      std::vector<std::pair<u64, u64>> mine;
      for (auto& m : H) {
        if (m.keys.empty() || m.keys[0] != k) continue;
        if (m.k == KvOp::DEL) dels.push_back({m.tInv, m.tRet});
        if ((m.k == KvOp::SET || m.k == KvOp::ADD)) {
          // certain from tRet until the first delete that may act after the set acted
          u64 end = ~0ull;
          for (auto& d : H)
            if (d.k == KvOp::DEL && d.keys[0] == k && d.tRet >= m.tInv) end = std::min(end, d.tInv);
          if (end > m.tRet) mine.push_back({m.tRet, end});
        }
      }
      std::vector<std::pair<u64, u64>> nx;
      std::sort(mine.begin(), mine.end());
      std::vector<std::pair<u64, u64>> merged;
      for (auto& x : mine) {
        if (!merged.empty() && x.first <= merged.back().second) merged.back().second = std::max(merged.back().second, x.second);
        else merged.push_back(x);
      }
      for (auto& a : iv)
        for (auto& b : merged) {
          u64 lo = std::max(a.first, b.first), hi = std::min(a.second, b.second);
          if (lo < hi) nx.push_back({lo, hi});
        }
      iv = nx;
    }
    u64 deadline = infinite ? ~0ull : w.tInv + T;
    for (auto& x : iv) {
      u64 hi = std::min(x.second, deadline);
      if (hi > x.first && hi - x.first > SLACK) {
        if (w.failed) violation("missed-key", "%s failed although its keys existed throughout [%.3f,%.3f]s; called %.3f returned %.3f; history: %s", w.str().c_str(), x.first * 1e-9, x.second == ~0ull ? -1. : x.second * 1e-9, w.tInv * 1e-9, w.tRet * 1e-9, historyText(H).c_str());
        if (w.tRet > x.first + SLACK)
          violation("late-wakeup", "%s returned %.3f s after its keys existed; history: %s", w.str().c_str(), (w.tRet - x.first) * 1e-9, historyText(H).c_str());
      }
    }
    if (infinite) {
      if (w.failed) violation("failed-without-timeout", "%s", w.str().c_str());
      continue;
    }
    if (w.failed && dur < T) violation("early-timeout", "%s after %.3f s of %.3f", w.str().c_str(), dur * 1e-9, T * 1e-9);
    if (dur > T + SLACK) violation("late-timeout", "%s took %.3f s, timeout %.3f s", w.str().c_str(), dur * 1e-9, T * 1e-9);
    if (w.failed) probe("timed-out-wait");
  }
}
}  // namespace sim
