// C12: waiting on work handles (compiled with instrumentation: Work is a header)
#include "Distributed/Work.h"

#include "common.h"

using namespace sim;
using tinytorch::distributed::kNoTimeout;
using tinytorch::distributed::OpType;
using tinytorch::distributed::Work;
namespace {
struct TestWork : Work {
  TestWork() : Work(3, OpType::ALL_REDUCE) {}
  void done(const std::string& e) { finish(e); }
};
std::string text(i64 len) {
  std::string s;
  if (len > 0) s = "error text ";
  while ((i64)s.size() < len) s += (char)('a' + s.size() % 26);
  return s;
}
struct One {
  std::unique_ptr<TestWork> w = std::make_unique<TestWork>();
  std::string exc;
  u64 inv = ~0ull, tInv = ~0ull, ret = ~0ull, tRet = ~0ull;  // call of finish
  int users = 0;
};
constexpr u64 SLACK = 3 * SEC;
void exec(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int nw = p.k("works", 1), nt = p.k("threads", 2);
  std::vector<One> works(nw);
  for (int i = 0; i < nw; i++) works[i].exc = text(p.k("exc" + std::to_string(i)));
  std::vector<std::vector<Line>> todo(nt);
  for (auto& l : p.lines)
    if (l.kind == "wait" || l.kind == "poll" || l.kind == "read" || l.kind == "sleep") todo[l.arg(0) % nt].push_back(l);
  Node* n = newNode("proc");
  armSched();
  std::vector<Thread*> ts;
  for (int t = 0; t < nt; t++)
    ts.push_back(spawn(n, "user" + std::to_string(t), [&, t] {
      for (auto& l : todo[t]) {
        One& o = works[l.arg(1) % nw];
        if (l.kind == "sleep") {
          sleepFor(l.arg(2) * US);
        } else if (l.kind == "wait") {
          u64 t0 = now(), T = (u64)l.arg(2) * MS;
          // finish of a work a thread waits for never comes after this thread's own later action
          bool r = T ? o.w->wait(std::chrono::milliseconds(l.arg(2))) : l.arg(3) ? o.w->wait() : o.w->wait(kNoTimeout);
          NoPreempt np;
          u64 t1 = now();
          note("wait(%llu ms) -> %d after %llu us", (unsigned long long)T / MS, r, (unsigned long long)(t1 - t0) / US);
          stateHash(r + 2 * (T > 0) + 4 * (o.tInv <= t1));
          bool started = o.inv != ~0ull, ended = o.ret != ~0ull;
          bool expired = T && t1 - t0 >= T;
          if (!started) {
            if (!expired) violation("returned-before-completion", "wait of %llu ms returned %d after %llu us, the work was not finished", (unsigned long long)T / MS, r, (unsigned long long)(t1 - t0) / US);
            if (r) violation("success-before-completion", "wait of %llu ms returned success, the work was not finished", (unsigned long long)T / MS);
          }
          if (T && t1 - t0 > T + SLACK) violation("late-return", "wait of %llu ms took %llu us", (unsigned long long)T / MS, (unsigned long long)(t1 - t0) / US);
          if (ended && std::max(t0, o.tRet) + SLACK < t1 && !expired) violation("missed-completion", "wait returned %llu us after the work was finished", (unsigned long long)(t1 - std::max(t0, o.tRet)) / US);
          if (r && !o.exc.empty()) violation("failure-hidden", "wait returned success for a work finished with an exception");
          if (!r && o.exc.empty()) {
            if (!expired) violation("success-denied", "wait returned failure for a work finished without exception");
            if (ended && o.tRet + SLACK < t0 + T) violation("missed-completion", "wait timed out although the work was finished %llu us before", (unsigned long long)(t1 - o.tRet) / US);
          }
          if (!expired && !o.w->isCompleted()) violation("flag-not-final", "not completed after the wait returned");
          if (!expired && o.w->exception() != o.exc) violation("exception-not-final", "'%.30s' after the wait returned", o.w->exception().c_str());
        } else {
          u64 s0 = seq();
          bool c = o.w->isCompleted();
          std::string e = o.w->exception();
          bool ok = o.w->isSuccess();
          NoPreempt np;
          if (c && o.inv == ~0ull) violation("completed-before-finish", "isCompleted is true before finish was called");
          if (!c && o.ret < s0) violation("completion-not-seen", "isCompleted is false after finish returned");
          if (c && e != o.exc) violation("exception-not-final", "completed but exception is '%.30s'", e.c_str());
          if (!e.empty() && e != o.exc) violation("exception-torn", "'%.30s'", e.c_str());
          if (c && ok != o.exc.empty()) violation("success-not-final", "isSuccess %d with exception '%.30s'", ok, o.exc.c_str());
          if (o.w->getRank() != 3 || o.w->getOpType() != OpType::ALL_REDUCE) violation("wrong-metadata", "rank %d", o.w->getRank());
        }
      }
    }));
  std::vector<Thread*> fs;
  for (int i = 0; i < nw; i++)
    fs.push_back(spawn(n, "finisher" + std::to_string(i), [&, i] {
      One& o = works[i];
      i64 us = p.k("fin" + std::to_string(i));
      if (us) sleepFor(us * US);
      {
        NoPreempt np;
        o.inv = seq();
        o.tInv = now();
        note("finish %d", i);
      }
      o.w->done(o.exc);
      NoPreempt np;
      o.ret = seq();
      o.tRet = now();
    }));
  for (auto* t : fs)
    if (!join(t, 100000 * SEC)) violation("hang", "finish: %s", threadDump().c_str());
  for (auto* t : ts)
    if (!join(t, 100000 * SEC)) violation("waiter-never-returns", "%s", threadDump().c_str());
}
Plan gen(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  genSwarm(g, p, s);
  int nw = 1 + g.below(3), nt = 1 + g.below(thorough ? 8 : 5);
  p.knob["works"] = nw;
  p.knob["threads"] = nt;
  for (int i = 0; i < nw; i++) {
    if (g.chance(1, 2)) p.knob["exc" + std::to_string(i)] = 1 + g.below(60);
    p.knob["fin" + std::to_string(i)] = g.chance(1, 3) ? 0 : g.chance(1, 2) ? g.below(200) : g.below(200000);
  }
  int k = 1 + g.below(10);
  for (int i = 0; i < k; i++) {
    i64 t = g.below(nt), w = g.below(nw);
    switch (g.below(4)) {
      case 0:
      case 1: p.lines.push_back({"wait", {t, w, g.chance(1, 2) ? 0 : g.chance(1, 3) ? (i64)g.below(100000) : 1 + (i64)g.below(200), (i64)g.below(2)}}); break;
      case 2: p.lines.push_back({"poll", {t, w}}); break;
      default: p.lines.push_back({"sleep", {t, w, (i64)g.below(2000)}});
    }
  }
  return p;
}
Reg r({"C12", "1-5 threads wait on 1-3 work handles with and without timeouts, poll their flags and texts, while further threads finish them with or without an exception at random moments; random schedules down to single memory accesses, stalls and spurious wake-ups.", {"src/Distributed/Work.h"}, {"pthread scheduling, clocks (simulated)"}, gen, exec, 600000, 20000000, 20, 600, {}});
}  // namespace
