// C01..C05: the TCP key-value store under simulated network, schedules and failing clients
#include <errno.h>
#include <string.h>
#include <algorithm>

#include "Distributed/TCPStore.h"
#include "kv.h"

using namespace sim;
using tinytorch::distributed::TCPStore;
namespace {
constexpr int PORT = 29500;

std::unique_ptr<TCPStore> open(bool server, bool waitW, int n, i64 tmoMs, bool* err = nullptr, const char* host = "localhost") {
  ErrScope e;
  // a worker that dials before the server listens logs errors for attempts it then retries; the caller looks at connected state by use
  auto s = std::make_unique<TCPStore>(host, PORT, server, waitW, n, std::chrono::milliseconds(tmoMs));
  if (err) *err = e.final();
  return s;
}
struct Shared {
  Hist h;
  bool up = false;  // server object constructed
  std::vector<int> phase;
  bool stopping = false;
};

// =================================================================== C01
void execC01(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int nc = p.k("clients", 3);
  i64 tmo = p.k("tmo", 20000);
  auto sh = std::make_shared<Shared>();
  Node* srv = newNode("server");
  std::vector<Node*> nodes;
  for (int i = 0; i < nc; i++) nodes.push_back(p.k("sameproc") && i > 0 ? nodes[0] : newNode("client" + std::to_string(i)));
  std::vector<std::vector<Line>> todo(nc + 1);
  std::vector<bool> willDie(nc + 1, false);
  for (auto& l : p.lines) {
    if (l.kind == "op") {
      todo[l.arg(0) % (nc + 1)].push_back(l);
    } else if (l.kind == "kill" && !p.k("sameproc")) {
      int c = l.arg(0) % nc;
      willDie[c + 1] = true;
      Node* n = nodes[c];
      atNodeStep(n, 20 + l.arg(1), [n] {
        fault("client-killed");
        kill(n);
      });
    } else if (l.kind == "pause") {
      Node* n = l.arg(0) % (nc + 1) == 0 ? srv : nodes[(l.arg(0) - 1) % nc];
      i64 ms = l.arg(2);
      atNodeStep(n, 20 + l.arg(1), [n, ms] {
        fault("process-paused");
        pauseNode(n);
        after(ms * MS, [n] { resumeNode(n); });
        yieldPoint();
      });
    } else if (l.kind == "part") {
      Node* n = nodes[l.arg(0) % nc];
      i64 ms = l.arg(2);
      atNodeStep(n, 20 + l.arg(1), [n, srv, ms] {
        fault("partition");
        partition(n, srv, true);
        after(ms * MS, [n, srv] { partition(n, srv, false); });
      });
    }
  }
  armSched();
  std::vector<Thread*> ts;
  auto body = [&, sh, tmo](int who) {
    auto s = open(who == 0, false, -1, tmo);
    if (who == 0) sh->up = true;
    u64 id = 0;
    for (auto& l : todo[who]) doOp(sh->h, *s, opOf(l, who * 1000 + id++, who));
    // keep the store open: shutdown is not the subject here
    (void)s.release();
  };
  ts.push_back(spawn(srv, "server-main", [&] { body(0); }));
  for (int c = 0; c < nc; c++) ts.push_back(spawn(nodes[c], "client-main" + std::to_string(c), [&, c] { body(c + 1); }));
  for (auto* t : ts)
    if (!join(t, 2000 * SEC)) violation("operation-hangs", "threads: %s", threadDump().c_str());
  quiesce();
  // final state as one more reader sees it
  Thread* t = spawn(newNode("reader"), "reader", [&] {
    auto s = open(false, false, -1, tmo);
    for (int k : {0, 1, 2, 3, 5, 6}) {
      KvOp o;
      o.client = 90;
      o.k = KvOp::CHECK;
      o.keys = {k};
      if (doOp(sh->h, *s, o).res) {
        o.k = KvOp::GET;
        doOp(sh->h, *s, o);
      }
    }
    KvOp o;
    o.client = 90;
    o.k = KvOp::NUM;
    doOp(sh->h, *s, o);
    (void)s.release();
  });
  if (!join(t, 2000 * SEC)) violation("reader-hangs", "threads: %s", threadDump().c_str());
  // with connections intact nothing but an expired get or wait may fail
  for (auto& o : sh->h.ops) {
    bool dead = o.client >= 1 && o.client <= nc && willDie[o.client];
    if (o.ret == ~0ull && !dead) violation("operation-lost", "%s", o.str().c_str());
    if (!o.failed) continue;
    bool timedOut = (o.k == KvOp::GET || o.k == KvOp::WAIT) && o.tRet - o.tInv >= (u64)tmo * MS;
    if (!timedOut) violation("operation-failed-without-cause", "%s history: %s", o.str().c_str(), historyText(sh->h.ops).c_str());
  }
  checkLin(sh->h);
}
Plan genC01(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  genSwarm(g, p, s);
  int nc = 1 + g.below(4);
  p.knob["clients"] = nc;
  p.knob["tmo"] = 3000 + g.below(3) * 20000;
  if (g.chance(1, 4)) p.knob["sameproc"] = 1;
  int n = 4 + g.below(thorough ? 26 : 18);
  for (int i = 0; i < n; i++) genOp(g, p, g.below(nc + 1), g.chance(1, 4));
  if (g.chance(1, 3)) p.lines.push_back({"kill", {(i64)g.below(nc), (i64)g.below(g.chance(1, 2) ? 60 : 400)}});
  if (g.chance(1, 4)) p.lines.push_back({"pause", {(i64)g.below(nc + 1), (i64)g.below(300), g.range(1, g.chance(1, 2) ? 900 : 3000)}});
  if (g.chance(1, 5)) p.lines.push_back({"part", {(i64)g.below(nc), (i64)g.below(200), g.range(1, g.chance(1, 2) ? 900 : 3000)}});
  if (g.chance(1, 4)) p.knob["sp"] = 10 + g.below(100), p.knob["spmax"] = 500 + g.below(4000);
  return p;
}

// =================================================================== C02
// waiters against concurrent mutators; certain / possible existence intervals come from the recorded mutations
void execC02(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int nw = p.k("waiters", 2), nm = p.k("mutators", 2);
  i64 tmo = p.k("tmo", 20000);
  auto sh = std::make_shared<Shared>();
  Node* srv = newNode("server");
  bool infinite = tmo == 0;
  std::vector<std::vector<Line>> todo(nw + nm);
  std::vector<Node*> cn;
  for (int i = 0; i < nw + nm; i++) cn.push_back(newNode("client" + std::to_string(i)));
  for (auto& l : p.lines) {
    if (l.kind == "op" || l.kind == "pausems")
      todo[l.arg(0) % (nw + nm)].push_back(l);
    else if (l.kind == "pause") {
      Node* n = l.arg(0) % (nw + nm + 1) == 0 ? srv : cn[(l.arg(0) - 1) % (nw + nm)];
      i64 ms = l.arg(2);
      atNodeStep(n, 30 + l.arg(1), [n, ms] {
        fault("process-paused");
        pauseNode(n);
        after(ms * MS, [n] { resumeNode(n); });
        yieldPoint();
      });
    }
  }
  armSched();
  bool srvUp = false;
  int running = 0;
  std::set<int> needed;  // keys some waiter asks for
  for (auto& l : p.lines)
    if (l.kind == "op" && (l.arg(1) == KvOp::GET || l.arg(1) == KvOp::WAIT)) {
      needed.insert(l.arg(2));
      for (size_t i = 4; i < l.a.size() && l.arg(1) == KvOp::WAIT; i++) needed.insert(l.a[i]);
    }
  Thread* st = spawn(srv, "server-main", [&] {
    auto s = open(true, false, -1, tmo);
    srvUp = true;
    (void)s.release();
  });
  std::vector<Thread*> ts;
  int mutLeft = nm;
  for (int c = 0; c < nw + nm; c++)
    ts.push_back(spawn(cn[c], (c < nw ? "waiter" : "mutator") + std::to_string(c), [&, c] {
      auto s = open(false, false, -1, tmo);
      running++;
      u64 id = 0;
      for (auto& l : todo[c]) {
        if (l.kind == "pausems") {
          sleepFor(l.arg(1) * MS);
          continue;
        }
        doOp(sh->h, *s, opOf(l, c * 1000 + id++, c));
      }
      if (c >= nw) {
        // the last mutator leaves every wanted key in place
        if (--mutLeft == 0 && p.k("finish", 1)) {
          quiesce();
          for (int k : needed) {
            KvOp o;
            o.client = c;
            o.k = KvOp::SET;
            o.keys = {k};
            o.val = valueFor(90000 + k, 9);
            doOp(sh->h, *s, o);
          }
        }
      }
      (void)s.release();
    }));
  if (!join(st, 300 * SEC)) violation("hang", "server construction: %s", threadDump().c_str());
  u64 bound = infinite ? 300 * SEC : 3000 * SEC;
  for (auto* t : ts)
    if (!join(t, bound)) violation("waiter-never-returns", "%s history: %s", threadDump().c_str(), historyText(sh->h.ops).c_str());
  checkWaits(sh->h.ops, (u64)tmo * MS, infinite, 4 * SEC);
  checkLin(sh->h);
}
Plan genC02(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  s.maxStallMs = 20;
  genSwarm(g, p, s);
  int nw = 1 + g.below(3), nm = 1 + g.below(3);
  p.knob["waiters"] = nw;
  p.knob["mutators"] = nm;
  static const i64 tm[] = {0, 6000, 8000, 15000, 40000};
  p.knob["tmo"] = tm[g.below(5)];
  if (p.knob["tmo"] && g.chance(1, 4)) p.knob["finish"] = 0;
  int nk = 1 + g.below(3);
  int n = 3 + g.below(thorough ? 20 : 13);
  for (int i = 0; i < nw; i++)
    for (u64 j = 1 + g.below(2); j > 0; j--) {
      if (g.chance(1, 4)) p.lines.push_back({"pausems", {i, g.range(0, 3000)}});
      if (g.chance(1, 2))
        p.lines.push_back({"op", {i, KvOp::GET, (i64)g.below(nk)}});
      else {
        Line l{"op", {i, KvOp::WAIT, (i64)g.below(nk), 0}};
        for (u64 q = g.below(3); q > 0; q--) l.a.push_back(g.below(nk));
        p.lines.push_back(l);
      }
      if (p.knob["tmo"] && g.chance(1, 3)) p.lines.push_back({"op", {i, KvOp::ADD, 6, 1}});
    }
  for (int i = 0; i < n; i++) {
    i64 c = nw + g.below(nm);
    int k = g.below(10);
    if (k < 4) p.lines.push_back({"op", {c, KvOp::SET, (i64)g.below(nk), (i64)g.below(20)}});
    else if (k < 7) p.lines.push_back({"op", {c, KvOp::DEL, (i64)g.below(nk)}});
    else if (k < 8) p.lines.push_back({"op", {c, KvOp::ADD, 6, 1}});
    else p.lines.push_back({"pausems", {c, g.chance(1, 2) ? g.range(0, 30) : g.range(0, 5000)}});
  }
  if (g.chance(1, 5)) p.lines.push_back({"pause", {(i64)g.below(nw + nm + 1), (i64)g.below(200), g.range(1, 800)}});
  return p;
}

// =================================================================== C03
// good clients work on; bad clients are killed, reset, cut off or stopped at arbitrary points and replaced by new ones
void execC03(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int ng = p.k("good", 2);
  i64 tmo = p.k("tmo", 10000);
  auto sh = std::make_shared<Shared>();
  Node* srv = newNode("server");
  std::vector<Node*> gn;
  std::vector<std::vector<Line>> todo(ng + 1);
  std::vector<Line> bad;
  for (auto& l : p.lines) {
    if (l.kind == "op") todo[l.arg(0) % (ng + 1)].push_back(l);
    if (l.kind == "pausems") todo[l.arg(0) % (ng + 1)].push_back(l);
    if (l.kind == "bad") bad.push_back(l);
  }
  for (int i = 0; i < ng; i++) gn.push_back(newNode("good" + std::to_string(i)));
  net.maxFds = p.k("maxfds", 1 << 20);
  armSched();
  bool srvUp = false;
  std::vector<Thread*> ts;
  auto body = [&](int who) {
    auto s = open(who == 0, false, -1, tmo);
    if (who == 0) srvUp = true;
    u64 id = 0;
    for (auto& l : todo[who]) {
      if (l.kind == "pausems") sleepFor(l.arg(1) * MS);
      else doOp(sh->h, *s, opOf(l, who * 1000 + id++, who));
    }
    (void)s.release();
  };
  ts.push_back(spawn(srv, "server-main", [&] { body(0); }));
  for (int c = 0; c < ng; c++) ts.push_back(spawn(gn[c], "good-main" + std::to_string(c), [&, c] { body(c + 1); }));
  waitFor([&] { return srvUp; }, 300 * SEC);
  // bad <how> <step> <kind> <key> <len> <delay ms> <burst>
  int badId = 0;
  std::vector<std::pair<Node*, Thread*>> bads;
  for (auto& b : bad) {
    int burst = std::max<i64>(1, b.arg(6, 1));
    sleepFor(std::max<i64>(0, b.arg(5)) * MS);
    for (int q = 0; q < burst; q++) {
      Node* n = newNode("bad" + std::to_string(badId));
      int how = b.arg(0);
      i64 step = b.arg(1);
      int client = 200 + badId++;
      Thread* t = spawn(n, "bad-main", [&, b, client] {
        auto s = open(false, false, -1, tmo);
        for (int r = 0; r < 3; r++) {
          Line l{"op", {0, b.arg(2), b.arg(3), b.arg(4)}};
          doOp(sh->h, *s, opOf(l, client * 1000 + r, client));
        }
        if (b.arg(0) == 4) {
          // leaves in good order
        } else
          (void)s.release();
      });
      bads.push_back({n, t});
      atNodeStep(n, 5 + step, [n, how, srv] {
        switch (how) {
          case 0: fault("client-killed"); kill(n); break;
          case 1: fault("connection-reset"); resetConnections(n); break;
          case 2: fault("client-cut-off"); partition(n, srv, true); break;
          case 3: fault("client-stopped"); pauseNode(n); yieldPoint(); break;
          case 5: fault("client-killed-silently"); partition(n, srv, true); kill(n); break;
          default: break;
        }
      });
      if (burst > 1) sleepFor(2 * MS);
    }
  }
  for (auto* t : ts)
    if (!join(t, 3000 * SEC)) violation("good-client-hangs", "%s history: %s", threadDump().c_str(), historyText(sh->h.ops).c_str());
  sleepFor(3 * SEC);
  for (auto& b : bads)
    if (b.second && !finished(b.second)) kill(b.first);
  quiesce();
  sleepFor(2 * SEC);
  // a new client can still connect and be served
  Thread* t = spawn(newNode("late"), "late", [&] {
    auto s = open(false, false, -1, tmo);
    for (int k : {0, 1, 2, 3, 5, 6}) {
      KvOp o;
      o.client = 90;
      o.k = KvOp::CHECK;
      o.keys = {k};
      if (doOp(sh->h, *s, o).res) {
        o.k = KvOp::GET;
        doOp(sh->h, *s, o);
      }
    }
    KvOp o;
    o.client = 90;
    o.k = KvOp::NUM;
    doOp(sh->h, *s, o);
    (void)s.release();
  });
  if (!join(t, 600 * SEC)) violation("new-client-hangs", "%s", threadDump().c_str());
  for (auto& o : sh->h.ops) {
    if (o.client >= 200) continue;
    if (o.ret == ~0ull) violation("operation-lost", "%s", o.str().c_str());
    bool timedOut = (o.k == KvOp::GET || o.k == KvOp::WAIT) && o.tRet - o.tInv >= (u64)tmo * MS;
    if (o.failed && !timedOut)
      violation(o.client == 90 ? "new-client-fails" : "good-client-disturbed", "%s history: %s", o.str().c_str(), historyText(sh->h.ops).c_str());
  }
  checkLin(sh->h);
}
Plan genC03(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  genSwarm(g, p, s);
  int ng = 1 + g.below(3);
  p.knob["good"] = ng;
  p.knob["tmo"] = 3000 + g.below(2) * 7000;
  bool many = g.chance(1, thorough ? 10 : 16);
  int n = 4 + g.below(12);
  if (many) {
    p.knob["mem"] = 0;
    p.knob["ss"] = p.knob["sr"] = 0;
    n = 3;
  }
  for (int i = 0; i < n; i++) {
    int th = g.below(ng + 1);
    if (g.chance(1, 3)) p.lines.push_back({"pausems", {th, g.chance(1, 2) ? g.range(0, 20) : g.range(0, 900)}});
    genOp(g, p, th, g.chance(1, 4));
  }
  if (many) {
    int burst = 50 + g.below(60);
    for (int r = 0; r < 2 + (int)g.below(2); r++)
      p.lines.push_back({"bad", {g.chance(1, 2) ? 0 : 4, g.range(20, 80), KvOp::CHECK, 0, 0, g.range(0, 1500), burst}});
  } else {
    int nb = 1 + g.below(5);
    for (int i = 0; i < nb; i++) {
      static const int kinds[] = {KvOp::SET, KvOp::SET, KvOp::GET, KvOp::WAIT, KvOp::ADD};
      int k = kinds[g.below(5)];
      i64 key = k == KvOp::ADD ? 5 : (k == KvOp::GET || k == KvOp::WAIT) && g.chance(1, 2) ? 3 : (i64)g.below(4);
      static const i64 lens[] = {0, 9, 300, 20000, 200000};
      p.lines.push_back({"bad", {(i64)g.below(6), (i64)g.below(g.chance(1, 2) ? 40 : 160), k, key, k == KvOp::ADD ? 1 : lens[g.below(5)], g.chance(1, 2) ? g.range(0, 20) : g.range(0, 1200), 1}});
    }
  }
  if (g.chance(1, 5)) p.knob["sp"] = 10 + g.below(60), p.knob["spmax"] = 500 + g.below(2000);
  return p;
}

// =================================================================== C04
void execC04(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int N = p.k("n", 2);  // expected, including the server
  i64 tmo = p.k("tmo", 15000);
  int nwk = 0;
  for (auto& l : p.lines)
    if (l.kind == "worker") nwk++;
  struct W {
    u64 c0 = ~0ull, c1 = ~0ull, d0 = ~0ull, d1 = ~0ull, killed = ~0ull;  // construction / destruction / kill times
    bool ok = false;
  };
  std::vector<W> ws(nwk + 1);
  Node* srv = newNode("server");
  armSched();
  u64 t0 = now();
  bool srvErr = false;
  std::unique_ptr<TCPStore> srvStore;
  std::vector<Thread*> ts;
  ts.push_back(spawn(srv, "server-main", [&] {
    sleepFor(p.k("sdelay") * MS);
    ws[0].c0 = now();
    ErrScope e;
    srvStore = std::make_unique<TCPStore>("localhost", PORT, true, true, N, std::chrono::milliseconds(tmo));
    srvErr = e.final();
    ws[0].c1 = now();
  }));
  int wi = 0;
  bool connErr = false;
  for (auto& l : p.lines) {
    if (l.kind != "worker") continue;
    int i = ++wi;
    Node* n = newNode("worker" + std::to_string(i));
    i64 delay = l.arg(0), how = l.arg(1), when = l.arg(2);
    ts.push_back(spawn(n, "worker-main", [&, i, delay, how, when, n] {
      sleepFor(delay * MS);
      ws[i].c0 = now();
      if (how == 3)
        atNodeStep(n, 3 + when % 40, [&, i, n] {
          fault("worker-killed-early");
          ws[i].killed = now();
          kill(n);
        });
      auto s = std::make_unique<TCPStore>("localhost", PORT, false, true, N, std::chrono::milliseconds(tmo));
      // usable?
      s->set("w" + std::to_string(i), toB("1"));
      ws[i].ok = s->check({"w" + std::to_string(i)});
      ws[i].c1 = now();
      if (!ws[i].ok) connErr = true;
      if (how == 1) {
        sleepFor(when * MS);
        ws[i].d0 = now();
        s.reset();
        ws[i].d1 = now();
        probe("worker-left");
      } else if (how == 2) {
        sleepFor(when * MS);
        fault("worker-killed");
        ws[i].killed = now();
        kill(n);
      } else
        (void)s.release();
    }));
  }
  (void)t0;
  for (auto* t : ts)
    if (!join(t, 3000 * SEC)) violation("hang", "%s", threadDump().c_str());
  (void)srvStore.release();
  const u64 SLACK = 4 * SEC;
  u64 T = (u64)tmo * MS, call = ws[0].c0, ret = ws[0].c1;
  for (int i = 1; i <= nwk; i++) {
    // connection retry period: about 9 s from the start of construction
    bool reach = ws[i].c0 + 8 * SEC > call;
    if (ws[i].killed == ~0ull && reach && !ws[i].ok)
      violation("worker-not-connected", "worker %d started at %.3f, server at %.3f", i, ws[i].c0 * 1e-9, call * 1e-9);
  }
  // bounds of the number of registered workers over time
  auto count = [&](u64 t, bool certain) {
    int c = 1;  // the server's own client registers in its construction
    for (int i = 1; i <= nwk; i++) {
      auto& w = ws[i];
      if (certain) {
        if (w.ok && w.c1 <= t && std::min(w.d0, w.killed) > t) c++;
      } else {
        u64 end = std::min(w.d1 == ~0ull ? ~0ull : w.d1 + SLACK, w.killed == ~0ull ? ~0ull : w.killed + SLACK);
        if (w.c0 <= t && end >= t) c++;
      }
    }
    return c;
  };
  std::vector<u64> pts{call, ret};
  for (auto& w : ws)
    for (u64 t : {w.c0, w.c1, w.d0, w.d1, w.killed})
      if (t != ~0ull && t >= call && t <= ret) pts.push_back(t);
  std::sort(pts.begin(), pts.end());
  int best = 0;
  for (u64 t : pts) best = std::max(best, count(t, false));
  std::string desc;
  for (int i = 1; i <= nwk; i++) {
    char b[160];
    auto f = [](u64 t) { return t == ~0ull ? -1. : t * 1e-9; };
    snprintf(b, sizeof b, " w%d[start %.3f up %.3f leave %.3f killed %.3f]", i, f(ws[i].c0), f(ws[i].c1), f(ws[i].d0), f(ws[i].killed));
    desc += b;
  }
  if (ret - call > T + 15 * SEC)
    violation("rendezvous-overdue", "server construction took %.3f s, timeout %.3f s", (ret - call) * 1e-9, T * 1e-9);
  if (!srvErr) {
    if (best < N) violation("rendezvous-too-early", "server returned at %.3f with at most %d of %d workers:%s", ret * 1e-9, best, N, desc.c_str());
    probe("rendezvous-complete");
    // and it returned as soon as the workers were there
    u64 full = ~0ull;
    for (u64 t : pts)
      if (count(t, true) >= N) {
        bool stays = true;
        for (u64 t2 : pts)
          if (t2 >= t && t2 <= t + SLACK && count(t2, true) < N) stays = false;
        if (stays) {
          full = t;
          break;
        }
      }
    if (full != ~0ull && ret > full + SLACK)
      violation("rendezvous-late", "all %d workers were there at %.3f, server returned at %.3f:%s", N, full * 1e-9, ret * 1e-9, desc.c_str());
  } else {
    probe("rendezvous-failed");
    if (ret - call < T) violation("rendezvous-failed-early", "after %.3f s, timeout %.3f s:%s", (ret - call) * 1e-9, T * 1e-9, desc.c_str());
    // a stretch with all workers certainly there must not fail
    for (u64 t : pts) {
      if (t + SLACK > call + T) continue;
      bool all = count(t, true) >= N && count(t + SLACK, true) >= N;
      for (u64 t2 : pts)
        if (t2 >= t && t2 <= t + SLACK && count(t2, true) < N) all = false;
      if (all) violation("rendezvous-missed", "all %d workers were there from %.3f on but the server reported failure at %.3f:%s", N, t * 1e-9, ret * 1e-9, desc.c_str());
    }
  }
}
Plan genC04(Rng& g, bool) {
  Plan p;
  Swarm s;
  s.net = true;
  s.maxStallMs = 20;
  genSwarm(g, p, s);
  int N = 1 + g.below(5);
  p.knob["n"] = N;
  static const i64 tm[] = {6000, 10000, 20000};
  p.knob["tmo"] = tm[g.below(3)];
  if (g.chance(1, 2)) p.knob["sdelay"] = g.range(0, 6000);
  int extra = (int)g.below(3) - 1;
  int n = std::max(0, N - 1 + extra);
  for (int i = 0; i < n; i++) {
    i64 how = g.below(10);
    how = how < 6 ? 0 : how < 8 ? 1 : how < 9 ? 2 : 3;
    i64 d = g.chance(1, 3) ? g.range(0, 12000) : g.range(0, 3000);
    p.lines.push_back({"worker", {d, how, g.chance(1, 2) ? g.range(0, 100) : g.range(0, 2000)}});
    if (how && g.chance(3, 4)) p.lines.push_back({"worker", {d + g.range(0, 6000), 0, 0}});
  }
  return p;
}

// =================================================================== C05
void execC05(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int nc = p.k("clients", 2);
  i64 tmo = p.k("tmo", 20000);
  auto sh = std::make_shared<Shared>();
  Node* srv = newNode("server");
  std::vector<Node*> cn;
  std::vector<std::vector<Line>> todo(nc);
  for (int i = 0; i < nc; i++) cn.push_back(newNode("client" + std::to_string(i)));
  for (auto& l : p.lines)
    if (l.kind == "op" || l.kind == "pausems" || l.kind == "reopen") todo[l.arg(0) % nc].push_back(l);
  int rounds = p.k("rounds", 1);
  bool taken = p.k("taken");
  const u64 LIM = 20 * SEC;
  armSched();
  Thread* squat = nullptr;
  Node* sq = nullptr;
  bool sqUp = false, sqGo = false;
  if (taken) {
    sq = newNode("squatter");
    u32 pse = net.pSockErr;
    net.pSockErr = 0;
    squat = spawn(sq, "squatter", [&] {
      auto s = open(true, false, -1, tmo);
      sqUp = true;
      waitFor([&] { return sqGo; }, 5000 * SEC);
      (void)s.release();
    });
    if (!waitFor([&] { return sqUp; }, 100 * SEC)) violation("hang", "first server: %s", threadDump().c_str());
    net.pSockErr = pse;
  }
  int up = 0;
  bool serverDone = false;
  u64 destroyT0 = ~0ull, destroyT1 = ~0ull;
  Thread* st = spawn(srv, "server-main", [&] {
    for (int r = 0; r < rounds; r++) {
      int fd0 = openFds(srv);
      bool err = false;
      auto s = open(true, p.k("waitw") != 0, p.k("waitw") ? nc + 1 : -1, p.k("waitw") ? std::min<i64>(tmo, 5000) : tmo, &err);
      bool started = !err || !(taken || p.k("se"));
      if (taken && !err) violation("start-failure-not-reported", "the port is taken by another server, but the constructor reported nothing");
      up = r + 1;
      // a store whose server could not start still takes calls without crashing
      Hist own;
      KvOp o;
      o.client = 50;
      if (!started || r > 0) {
        o.k = KvOp::NUM;
        auto x = doOp(own, *s, o);
        if (!taken && started && !x.failed && x.res != 0 && p.k("fresh", 1)) {
          // clients of this round may already have written; only keys of the previous round would be a leak
          o.k = KvOp::CHECK;
          o.keys = {40 + r - 1};
          if (doOp(own, *s, o).res) violation("stale-data-after-restart", "key of the previous server is still there");
        }
      }
      if (!taken && started) {
        o.k = KvOp::SET;
        o.keys = {40 + r};
        o.val = "round";
        doOp(own, *s, o);
      }
      sleepFor(p.k("life", 50) * MS);
      if (p.k("quietdestroy")) quiesce();
      destroyT0 = now();
      destroyT1 = ~0ull;
      s.reset();
      destroyT1 = now();
      if (destroyT1 - destroyT0 > LIM)
        violation("destructor-slow", "destroying the store took %.3f s", (destroyT1 - destroyT0) * 1e-9);
      // descriptors are given back (background threads may need a moment)
      if (!waitFor([&] { return openFds(srv) <= fd0; }, 10 * SEC))
        violation("descriptor-leak", "%d descriptors before, %d after destruction", fd0, openFds(srv));
      if (!taken && p.k("rebind", 1) && portBusy(PORT)) violation("address-not-freed", "port is still bound after destruction");
      sleepFor(p.k("gap", 5) * MS);
    }
    serverDone = true;
  });
  std::vector<Thread*> ts;
  struct Act {
    bool busy = false;
    u64 since = 0;
    std::string what;
  };
  std::vector<Act> act(nc);
  for (int c = 0; c < nc; c++)
    ts.push_back(spawn(cn[c], "client-main" + std::to_string(c), [&, c] {
      u64 id = 0;
      auto s = open(false, false, -1, tmo);
      for (auto& l : todo[c]) {
        if (l.kind == "pausems") {
          sleepFor(l.arg(1) * MS);
          continue;
        }
        if (l.kind == "reopen") {  // leaves and comes back: descriptor numbers of the server are used again
          act[c] = {true, now(), "reopen"};
          s.reset();
          sleepFor(l.arg(1) * MS);
          s = open(false, false, -1, tmo);
          act[c].busy = false;
          continue;
        }
        KvOp o = opOf(l, c * 1000 + id++, c);
        act[c] = {true, now(), o.str()};
        doOp(sh->h, *s, o);
        act[c].busy = false;
      }
      act[c] = {true, now(), "destructor"};
      if (p.k("cdestroy", 1)) s.reset();
      else (void)s.release();
      act[c].busy = false;
    }));
  if (!join(st, 3000 * SEC)) {
    if (destroyT0 != ~0ull && destroyT1 == ~0ull) violation("destructor-hangs", "%s", threadDump().c_str());
    violation("server-hangs", "%s", threadDump().c_str());
  }
  quiesce();
  // remaining clients: blocked requests fail instead of hanging (with a taken port they talk to the other server, which lives on)
  if (taken) {
    sleepFor(100 * SEC);
    for (int c = 0; c < nc; c++) kill(cn[c]);
  } else
  for (int c = 0; c < nc; c++)
    if (!join(ts[c], 100 * SEC + (u64)todo[c].size() * 5 * SEC))
      violation("client-hangs-after-shutdown", "client %d in %s; %s", c, act[c].what.c_str(), threadDump().c_str());
  for (auto& o : sh->h.ops) {
    if (o.ret == ~0ull) continue;
    if (o.tInv <= destroyT1 && o.tRet > destroyT1 + LIM && destroyT1 != ~0ull && rounds == 1 && !taken)
      violation("blocked-request-not-failed", "%s returned %.3f s after shutdown", o.str().c_str(), (o.tRet - destroyT1) * 1e-9);
  }
  sleepFor(3 * SEC);
  if (taken) {
    // the first server is unharmed
    bool ok = false;
    Thread* v = spawn(newNode("visitor"), "visitor", [&] {
      auto s = open(false, false, -1, tmo);
      s->set("v", toB("1"));
      ok = s->check({"v"});
      (void)s.release();
    });
    if (!join(v, 100 * SEC) || !ok) violation("other-server-disturbed", "the server that owns the port stopped working");
    sqGo = true;
    join(squat, 10 * SEC);
    return;
  }
  if (p.k("after", 1)) {
    bool ok = false;
    i64 nk = -2;
    bool isErr = true;
    Thread* v = spawn(p.k("sameproc") ? srv : newNode("successor"), "successor", [&] {
      auto s = open(true, false, -1, tmo, &isErr);
      if (isErr) return;
      nk = s->getNumKeys();
      s->set("v", toB("1"));
      ok = s->check({"v"});
      (void)s.release();
    });
    net.pSockErr = 0;
    if (!join(v, 200 * SEC)) violation("successor-hangs", "%s", threadDump().c_str());
    if (isErr) violation("address-not-reusable", "a new server on the port failed to start");
    if (!ok || nk != 0) violation("successor-not-fresh", "keys=%lld usable=%d", (long long)nk, ok);
  }
}
Plan genC05(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  s.net = true;
  s.maxStallMs = 20;
  genSwarm(g, p, s);
  int nc = g.below(4);
  p.knob["clients"] = std::max(1, nc);
  static const i64 tm[] = {0, 4000, 20000};
  p.knob["tmo"] = tm[g.below(3)];
  p.knob["life"] = g.chance(1, 2) ? g.range(0, 30) : g.range(0, 3000);
  p.knob["gap"] = g.chance(1, 2) ? g.range(0, 5) : g.range(0, 2000);
  if (g.chance(1, 5)) p.knob["taken"] = 1;
  if (g.chance(1, 5)) p.knob["se"] = 100 + g.below(500);
  if (g.chance(1, 4)) p.knob["rounds"] = 2;
  if (g.chance(1, 5) && !p.knob.count("se")) p.knob["waitw"] = 1;
  if (g.chance(1, 2)) p.knob["sameproc"] = 1;
  if (g.chance(1, 4)) p.knob["cdestroy"] = 0;
  int n = nc ? 1 + g.below(thorough ? 12 : 8) : 0;
  bool churn = g.chance(1, 3);
  if (churn) {
    p.knob["life"] = 200 + g.range(0, 2000);
    p.knob["cdestroy"] = 0;
  }
  for (int i = 0; i < n; i++) {
    i64 c = g.below(nc);
    if (g.chance(1, 4)) p.lines.push_back({"pausems", {c, g.range(0, 400)}});
    if (churn && g.chance(1, 2)) {
      p.lines.push_back({"reopen", {c, g.chance(1, 2) ? 0 : g.range(0, 5)}});
      continue;
    }
    if (g.chance(1, 3)) {
      if (g.chance(1, 2)) p.lines.push_back({"op", {c, KvOp::GET, 3}});
      else p.lines.push_back({"op", {c, KvOp::WAIT, 3, 0, (i64)g.below(3)}});
    } else
      genOp(g, p, c, true);
  }
  return p;
}
const std::vector<std::string> kReal = {"src/Distributed/TCPStore.cpp", "src/Distributed/Store.cpp", "src/Utils/Logger.cpp", "libstdc++ threads, mutexes and condition variables"};
const std::vector<std::string> kStub = {"Linux TCP/IP sockets (simulated)", "pthread scheduling (simulated)", "clocks and sleeps (simulated)", "heap (deterministic checking arena)"};
Reg r1({"C01", "Random operation lists for a server and 1-4 clients (keys of any bytes and size, values up to 40 kB) under random schedules, delays, fragmentation, EINTR, stalls, pauses, partitions and client kills; the recorded history must be linearizable to a map.", kReal, kStub, genC01, execC01, 200000, 8000000, 30, 600, {}});
Reg r2({"C02", "Waiters (get / wait on 1-3 keys) against set, delete and re-create sequences with random timing; certain-existence intervals of the recorded history decide whether a wait had to succeed, timing bounds whether it ended in time.", kReal, kStub, genC02, execC02, 200000, 8000000, 30, 600, {}});
Reg r3({"C03", "Good clients run random operations while bad clients are killed, reset, cut off or stopped at a random scheduling point of their own (also >100 clients coming and going).", kReal, kStub, genC03, execC03, 200000, 8000000, 30, 600, {}});
Reg r4({"C04", "Server waiting for N workers; workers start at random times, some leave or are killed (also in the middle of construction); the count bounds of the recorded timeline decide.", kReal, kStub, genC04, execC04, 200000, 8000000, 30, 600, {}});
Reg r5({"C05", "Store destroyed at a random moment with clients inside random operations, in one or two rounds, also with the port taken or socket calls failing, followed by a successor on the same port.", kReal, kStub, genC05, execC05, 200000, 8000000, 30, 600, {}});
}  // namespace
