// C06, C07: the file key-value store shared by simulated processes, with crashes and disk faults
#include <errno.h>
#include <string.h>

#include "Distributed/FileStore.h"
#include "kv.h"

using namespace sim;
using tinytorch::distributed::FileStore;
namespace {
const char* DIR = "/tmp/store";
const std::vector<int> KEYS{0, 1, 2, 3, 5, 6};
std::unique_ptr<FileStore> open(bool slash) { return std::make_unique<FileStore>(std::string(DIR) + (slash ? "/" : "")); }
// final state as a fresh process sees it
void readBack(Hist& h, int client) {
  auto s = open(false);
  for (int k : KEYS) {
    KvOp o;
    o.client = client;
    o.k = KvOp::CHECK;
    o.keys = {k};
    if (doOp(h, *s, o, plainKey).res) {
      o.k = KvOp::GET;
      doOp(h, *s, o, plainKey);
    }
  }
  KvOp o;
  o.client = client;
  o.k = KvOp::NUM;
  doOp(h, *s, o, plainKey);
}

// =================================================================== C06
void execC06(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  fs.pEintrLock = p.k("lockei");
  fs.pShort = p.k("fshort");
  int np = p.k("procs", 2), nt = p.k("threads", 1), n = np * nt;
  if (p.k("exists")) fsMkdir(DIR);
  Hist h;
  std::vector<Node*> nodes;
  std::vector<std::vector<Line>> todo(n);
  for (int i = 0; i < np; i++) nodes.push_back(newNode("proc" + std::to_string(i)));
  std::set<int> needed;
  bool blocking = p.k("blocking");
  for (auto& l : p.lines) {
    if (l.kind == "op" || l.kind == "pausems") {
      todo[l.arg(0) % n].push_back(l);
      if (l.kind == "op" && (l.arg(1) == KvOp::GET || l.arg(1) == KvOp::WAIT)) {
        needed.insert(l.arg(2));
        for (size_t i = 4; i < l.a.size() && l.arg(1) == KvOp::WAIT; i++) needed.insert(l.a[i]);
      }
    } else if (l.kind == "pause") {
      Node* nd = nodes[l.arg(0) % np];
      i64 ms = l.arg(2);
      atNodeStep(nd, 5 + l.arg(1), [nd, ms] {
        fault("process-paused");
        pauseNode(nd);
        after(ms * MS, [nd] { resumeNode(nd); });
        yieldPoint();
      });
    }
  }
  armSched();
  std::vector<std::unique_ptr<FileStore>> shared(np);
  std::vector<Thread*> ts;
  for (int t = 0; t < n; t++)
    ts.push_back(spawn(nodes[t % np], "t" + std::to_string(t), [&, t] {
      std::unique_ptr<FileStore> own;
      FileStore* s;
      if (p.k("shared")) {  // the threads of a process use one store object
        if (t < np) shared[t] = open(p.k("slash"));
        else if (!waitFor([&] { return shared[t % np] != nullptr; }, 100 * SEC)) return;
        s = shared[t % np].get();
      } else {
        own = open(p.k("slash"));
        s = own.get();
      }
      u64 id = 0;
      for (auto& l : todo[t]) {
        if (l.kind == "pausems") {
          sleepFor(l.arg(1) * MS);
          continue;
        }
        KvOp o = opOf(l, t * 1000 + id++, t);
        if (o.k == KvOp::GET && !blocking) {  // only ask for keys that will come
          bool set = false;
          for (auto& m : p.lines) set = set || (m.kind == "op" && (m.arg(1) == KvOp::SET || m.arg(1) == KvOp::ADD) && m.arg(2) == o.keys[0]);
          if (!set) continue;
        }
        doOp(h, *s, o, plainKey);
      }
      if (own) own.reset();
    }));
  // a further process finally creates every key somebody asks for
  Thread* fin = nullptr;
  if (p.k("finish", 1))
    fin = spawn(newNode("finisher"), "finisher", [&] {
      sleepFor(p.k("finishms", 2000) * MS);
      auto s = open(false);
      for (int round = 0; round < 4; round++) {
      // deletes may undo it, so once more (else the waits last the full timeout)
      if (round && !p.k("again", 1)) break;
      if (round) sleepFor(5 * SEC);
      for (int k : needed) {
        KvOp o;
        o.client = 80;
        o.keys = {k};
        if (k >= 5) {
          o.k = KvOp::ADD;
          o.num = 1;
        } else {
          o.k = KvOp::SET;
          o.val = valueFor(90000 + k, 9);
        }
        doOp(h, *s, o, plainKey);
      }
      }
    });
  for (auto* t : ts)
    if (!join(t, 3000 * SEC)) violation("operation-hangs", "%s history: %s", threadDump().c_str(), historyText(h.ops).c_str());
  if (fin && !join(fin, 300 * SEC)) violation("operation-hangs", "%s history: %s", threadDump().c_str(), historyText(h.ops).c_str());
  quiesce();
  Thread* t = spawn(newNode("reader"), "reader", [&] { readBack(h, 90); });
  if (!join(t, 2000 * SEC)) violation("reader-hangs", "%s", threadDump().c_str());
  for (auto& o : h.ops)
    if (o.failed && !((o.k == KvOp::GET || o.k == KvOp::WAIT) && o.tRet - o.tInv >= 300 * SEC))
      violation("operation-failed-without-cause", "%s history: %s", o.str().c_str(), historyText(h.ops).c_str());
  checkWaits(h.ops, 300 * SEC, false, 4 * SEC);
  checkLin(h);
}
Plan genC06(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.maxStallMs = 20;
  genSwarm(g, p, s);
  int np = 1 + g.below(4), nt = g.chance(1, 2) ? 1 : 1 + g.below(3);
  if (np == 1) nt = 2 + g.below(2);
  p.knob["procs"] = np;
  p.knob["threads"] = nt;
  if (nt > 1 && g.chance(1, 2)) p.knob["shared"] = 1;
  if (g.chance(1, 3)) p.knob["exists"] = 1;
  if (g.chance(1, 6)) p.knob["slash"] = 1;
  if (g.chance(1, 3)) p.knob["lockei"] = 20 + g.below(500);
  if (g.chance(1, 4)) p.knob["fshort"] = 20 + g.below(500);
  int n = np * nt;
  if (g.chance(1, 4)) {
    // waiters against creation and deletion
    p.knob["blocking"] = 1;
    p.knob["finishms"] = g.chance(1, 2) ? g.range(0, 3000) : g.range(0, 20000);
    if (g.chance(1, 12)) p.knob["finish"] = 0;
    if (g.chance(1, 12)) p.knob["again"] = 0;
    int nk = 1 + g.below(3), ops = 4 + g.below(10);
    for (int i = 0; i < ops; i++) {
      i64 t = g.below(n);
      int k = g.below(12);
      if (k < 2) p.lines.push_back({"op", {t, KvOp::GET, (i64)g.below(nk)}});
      else if (k < 4) {
        Line l{"op", {t, KvOp::WAIT, (i64)g.below(nk), 0}};
        for (u64 q = g.below(3); q > 0; q--) l.a.push_back(g.below(nk));
        p.lines.push_back(l);
      } else if (k < 7) p.lines.push_back({"op", {t, KvOp::SET, (i64)g.below(nk), (i64)g.below(20)}});
      else if (k < 10) p.lines.push_back({"op", {t, KvOp::DEL, (i64)g.below(nk)}});
      else p.lines.push_back({"pausems", {t, g.chance(1, 2) ? g.range(0, 30) : g.range(0, 2000)}});
    }
  } else {
    // without blocking calls, unless a delete can make a get block
    int ops = 4 + g.below(thorough ? 24 : 16);
    p.knob["finishms"] = g.range(0, 3000);
    for (int i = 0; i < ops; i++) genOp(g, p, g.below(n), g.chance(1, 5));
  }
  if (g.chance(1, 4)) p.lines.push_back({"pause", {(i64)g.below(np), (i64)g.below(100), g.range(1, 900)}});
  return p;
}

// =================================================================== C07
void execC07(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  fs.pShort = p.k("fshort");
  fs.pEintrLock = p.k("lockei");
  int np = p.k("procs", 2);
  Hist h;
  std::vector<Node*> nodes;
  std::vector<std::vector<Line>> todo(np);
  std::vector<bool> dies(np, false);
  for (int i = 0; i < np; i++) nodes.push_back(newNode("proc" + std::to_string(i)));
  // some contents to begin with
  Thread* t0 = spawn(newNode("setup"), "setup", [&] {
    auto s = open(false);
    u64 id = 0;
    for (auto& l : p.lines)
      if (l.kind == "init") {
        KvOp o;
        o.client = 70;
        o.keys = {(int)l.arg(0)};
        o.k = KvOp::SET;
        o.val = l.arg(0) >= 5 ? std::to_string(l.arg(1)) : valueFor(70000 + id++, l.arg(1));
        doOp(h, *s, o, plainKey);
      }
  });
  if (!join(t0, 100 * SEC)) violation("setup-hangs", "%s", threadDump().c_str());
  for (auto& l : p.lines) {
    Node* nd = nodes[l.arg(0) % np];
    if (l.kind == "op" || l.kind == "pausems") todo[l.arg(0) % np].push_back(l);
    else if (l.kind == "crashfs") dies[l.arg(0) % np] = true, crashAtFsCall(nd, l.arg(1) + 1, l.arg(2));
    else if (l.kind == "failfs") failFsCall(nd, l.arg(1) + 1, l.arg(2), l.arg(3));
    else if (l.kind == "kill") {
      dies[l.arg(0) % np] = true;
      atNodeStep(nd, 3 + l.arg(1), [nd] {
        fault("process-killed");
        kill(nd);
      });
    }
  }
  if (p.k("disk", -1) >= 0) fs.diskFree = p.k("disk");
  armSched();
  std::vector<Thread*> ts;
  for (int t = 0; t < np; t++)
    ts.push_back(spawn(nodes[t], "p" + std::to_string(t), [&, t] {
      auto s = open(false);
      u64 id = 0;
      for (auto& l : todo[t]) {
        if (l.kind == "pausems") {
          sleepFor(l.arg(1) * MS);
          continue;
        }
        int f0 = fsFaultsSeen(curThreadId());
        KvOp o = doOp(h, *s, opOf(l, t * 1000 + id++, t), plainKey);
        // "no such key" is also what an operation answers whose look at the disk failed
        if (fsFaultsSeen(curThreadId()) != f0 && (o.k == KvOp::CHECK || o.k == KvOp::DEL) && !o.res) {
          NoPreempt np2;
          for (auto& x : h.ops)
            if (x.inv == o.inv) x.failed = true;
        } else if (fsFaultsSeen(curThreadId()) == f0 && o.failed && fs.diskFree > 100000 && !((o.k == KvOp::GET || o.k == KvOp::WAIT) && o.tRet - o.tInv >= 300 * SEC))
          violation("operation-failed-without-cause", "%s history: %s", o.str().c_str(), historyText(h.ops).c_str());
      }
    }));
  Thread* fin = spawn(newNode("finisher"), "finisher", [&] {
    sleepFor(p.k("finishms", 500) * MS);
    fs.diskFree = ~0ull;
    auto s = open(false);
    for (int k : {0, 1, 5, 6}) {
      KvOp o;
      o.client = 80;
      o.keys = {k};
      o.k = k >= 5 ? KvOp::ADD : KvOp::SET;
      o.num = 100;
      o.val = valueFor(90000 + k, 12);
      if (doOp(h, *s, o, plainKey).failed) violation("survivor-operation-fails", "%s", historyText(h.ops).c_str());
    }
  });
  if (!join(fin, 600 * SEC)) violation("survivor-blocked", "%s history: %s", threadDump().c_str(), historyText(h.ops).c_str());
  for (int t = 0; t < np; t++)
    if (!join(ts[t], 4000 * SEC)) violation("survivor-blocked", "%s history: %s", threadDump().c_str(), historyText(h.ops).c_str());
  quiesce();
  Thread* t = spawn(newNode("reader"), "reader", [&] { readBack(h, 90); });
  if (!join(t, 2000 * SEC)) violation("survivor-blocked", "%s", threadDump().c_str());
  for (auto& o : h.ops) {
    if (o.client >= 70 && o.failed) violation("survivor-operation-fails", "%s history: %s", o.str().c_str(), historyText(h.ops).c_str());
    if (o.ret == ~0ull && !(o.client < np && dies[o.client])) violation("operation-lost", "%s", o.str().c_str());
  }
  checkLin(h);
}
Plan genC07(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.maxStallMs = 20;
  genSwarm(g, p, s);
  int np = 1 + g.below(3);
  p.knob["procs"] = np;
  if (g.chance(1, 4)) p.knob["fshort"] = 20 + g.below(500);
  if (g.chance(1, 6)) p.knob["lockei"] = 20 + g.below(300);
  for (int k : KEYS)
    if (g.chance(1, 2)) p.lines.push_back({"init", {k, k >= 5 ? g.range(1, 99) : (i64)(g.chance(1, 4) ? 5000 : g.below(60))}});
  int ops = 2 + g.below(thorough ? 16 : 10);
  for (int i = 0; i < ops; i++) {
    i64 t = g.below(np);
    if (g.chance(1, 6)) p.lines.push_back({"op", {t, KvOp::SET, (i64)g.below(4), (i64)g.below(9000)}});
    else genOp(g, p, t, false);
  }
  if (g.chance(1, 2)) p.lines.push_back({"crashfs", {(i64)g.below(np), (i64)g.below(g.chance(1, 2) ? 12 : 60), (i64)g.below(2)}});
  if (g.chance(1, 4)) p.lines.push_back({"kill", {(i64)g.below(np), (i64)g.below(g.chance(1, 2) ? 40 : 300)}});
  static const i64 errs[] = {EIO, ENOSPC, EINTR, 0, EDQUOT, EMFILE};
  if (g.chance(1, 2))
    for (u64 i = 1 + g.below(3); i > 0; i--)
      p.lines.push_back({"failfs", {(i64)g.below(np), (i64)g.below(g.chance(1, 2) ? 12 : 60), errs[g.below(6)], (i64)g.below(20)}});
  if (g.chance(1, 3)) p.knob["disk"] = g.chance(1, 3) ? g.below(60) : g.below(9000);
  p.knob["finishms"] = g.range(0, 1500);
  return p;
}
const std::vector<std::string> kReal = {"src/Distributed/FileStore.cpp", "src/Distributed/Store.cpp", "src/Utils/Logger.cpp", "glibc stdio on top of the simulated system calls"};
const std::vector<std::string> kStub = {"file system, file locks (simulated, POSIX semantics)", "processes and threads (simulated scheduling)", "clocks and sleeps (simulated)", "heap (deterministic checking arena)"};
Reg r6({"C06", "1-4 processes with 1-3 threads each run random operations (or waiters against creations and deletions) on one directory under random schedules, interrupted locks, short transfers and stopped processes; the recorded history must be linearizable to a map, waits are judged by certain existence intervals.", kReal, kStub, genC06, execC06, 200000, 8000000, 30, 600, {}});
Reg r7({"C07", "As C06 with a process killed before or after its k-th file-system call (or at any step), failing calls (EIO, ENOSPC, EDQUOT, EMFILE, EINTR), short transfers and a full disk; survivors and a fresh reader extend the history, in which unfinished and failed operations are optional but atomic.", kReal, kStub, genC07, execC07, 200000, 8000000, 30, 600, {}});
}  // namespace
