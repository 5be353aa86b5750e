#include "common.h"
#include <string.h>
#include <algorithm>
#include <unordered_set>
namespace sim {
void genSwarm(Rng& g, Plan& p, const Swarm& s) {
  auto& k = p.knob;
  switch (g.below(5)) {
    case 0: k["sw"] = 30; break;
    case 1: k["sw"] = 150; break;
    case 2: k["sw"] = 400; break;
    case 3: k["sw"] = 700; break;
    default: k["pct"] = 1 + g.below(8); k["pctlen"] = 500 << g.below(6); break;
  }
  if (s.memPreempt) {
    static const int mm[] = {0, 20, 100, 400, 2000};
    k["mem"] = mm[g.below(5)];
  }
  if (s.faults && g.chance(1, 3)) {
    k["stall"] = 1 + g.below(400);
    k["stallms"] = 1 + g.below(s.maxStallMs);
  }
  if (s.faults && g.chance(1, 3)) k["spur"] = 20 + g.below(300);
  if (s.net) {
    if (g.chance(1, 2)) k["dl"] = 20 + g.below(500), k["dlmax"] = 1 + g.below(20);
    if (s.faults) {
      if (g.chance(1, 2)) k["ss"] = 20 + g.below(700);
      if (g.chance(1, 2)) k["sr"] = 20 + g.below(700);
      if (g.chance(1, 3)) k["ei"] = 5 + g.below(150);
    }
    static const int wnd[] = {64, 512, 4096, 65536, 65536};
    k["wnd"] = wnd[g.below(5)];
  }
  k["quar"] = g.below(3) == 0 ? 0 : 1 + g.below(400);
  k["fill"] = g.below(256);
}
void applySwarm(const Plan& p) {
  sched.pSwitch = p.k("sw", 100);
  sched.pct = p.k("pct");
  sched.pctLen = p.k("pctlen", 20000);
  sched.memMean = p.k("mem");
  sched.pStall = p.k("stall");
  sched.maxStall = p.k("stallms", 10) * MS;
  sched.pSpur = p.k("spur");
  net.pDelay = p.k("dl");
  net.maxDelay = p.k("dlmax", 5) * MS;
  net.pShortSend = p.k("ss");
  net.pShortRecv = p.k("sr");
  net.pEintr = p.k("ei");
  net.pAcceptErr = p.k("ae");
  net.pSockErr = p.k("se");
  net.pSplit = p.k("sp");
  net.maxSplit = p.k("spmax", 3000) * MS;
  net.window = p.k("wnd", 65536);
  mem.quarantine = p.k("quar", 256);
  mem.fill = p.k("fill", 0xa5);
  mem.fillMode = p.k("fillmode", 1);
  mem.fillSeed = p.k("fillseed", 0);
  mem.pad = p.k("pad", 0);
}
static const char* opn[] = {"set", "get", "add", "check", "delete", "numKeys", "wait"};
std::string KvOp::str(const std::vector<std::string>*) const {
  std::string s = "c" + std::to_string(client) + " " + opn[k] + "(";
  for (size_t i = 0; i < keys.size(); i++) s += (i ? "," : "") + std::string("k") + std::to_string(keys[i]);
  auto sh = [](const std::string& v) {
    std::string o = "'";
    for (size_t i = 0; i < v.size() && i < 12; i++) o += v[i] >= 32 && v[i] < 127 ? v[i] : '?';
    return o + "'[" + std::to_string(v.size()) + "]";
  };
  if (k == SET) s += "," + sh(val);
  if (k == ADD) s += "," + std::to_string(num);
  s += ")";
  if (ret == ~0ull) s += " -> no reply";
  else if (failed) s += " -> failed";
  else if (k == GET) s += " -> " + sh(val);
  else if (k == ADD || k == CHECK || k == DEL || k == NUM) s += " -> " + std::to_string(res);
  s += " @[" + std::to_string(inv) + "," + (ret == ~0ull ? std::string("-") : std::to_string(ret)) + "]";
  return s;
}
std::string historyText(const std::vector<KvOp>& h) {
  std::string s;
  auto v = h;
  std::sort(v.begin(), v.end(), [](const KvOp& a, const KvOp& b) { return a.inv < b.inv; });
  for (auto& o : v) s += o.str() + "; ";
  if (s.size() > 3500) s = s.substr(0, 3500) + "...";
  return s;
}
namespace {
struct Lin {
  const std::vector<KvOp>& h;
  std::vector<int> ord;
  u64 budget;
  std::map<int, std::string> st;
  std::vector<char> done;
  std::unordered_set<u64> seen;
  size_t nMust = 0;
  explicit Lin(const std::vector<KvOp>& x, u64 b) : h(x), budget(b) {}
  static bool num(const std::string& s, i64& v) {
    if (s.empty()) {
      v = 0;
      return true;
    }
    char* e;
    v = strtoll(s.c_str(), &e, 10);
    return e != s.c_str();
  }
  bool optional(const KvOp& o) const { return o.ret == ~0ull || o.failed; }
  u64 key() const {
    u64 a = 0x9e37;
    for (size_t i = 0; i < done.size(); i++) a = Rng::mix(a * 3 + done[i]);
    for (auto& kv : st) a = Rng::mix(a ^ (u64)kv.first * 1315423911ull ^ std::hash<std::string>()(kv.second));
    return a;
  }
  // apply; false if the result does not match
  bool apply(const KvOp& o) {
    bool opt = optional(o);
    switch (o.k) {
      case KvOp::SET: st[o.keys[0]] = o.val; return true;
      case KvOp::GET: {
        auto it = st.find(o.keys[0]);
        return opt || (it != st.end() && it->second == o.val);
      }
      case KvOp::ADD: {
        i64 v;
        auto it = st.find(o.keys[0]);
        if (!num(it == st.end() ? std::string() : it->second, v)) return false;
        v = (i64)((u64)v + (u64)o.num);
        if (!opt && v != o.res) return false;
        st[o.keys[0]] = std::to_string(v);
        return true;
      }
      case KvOp::CHECK: {
        bool all = true;
        for (int k : o.keys) all = all && st.count(k);
        return opt || all == (o.res != 0);
      }
      case KvOp::DEL: {
        bool ex = st.erase(o.keys[0]) != 0;
        return opt || ex == (o.res != 0);
      }
      case KvOp::NUM: return opt || (i64)st.size() == o.res;
      case KvOp::WAIT:
        for (int k : o.keys)
          if (!st.count(k)) return opt;
        return true;
    }
    return false;
  }
  int dfs(size_t must) {
    if (must == nMust) return 1;
    if (budget == 0) return -1;
    budget--;
    if (!seen.insert(key()).second) return 0;
    // minimal return among not-done mandatory operations
    u64 minRet = ~0ull;
    for (int i : ord)
      if (!done[i] && !optional(h[i])) minRet = std::min(minRet, h[i].ret);
    bool gave = false;
    for (int i : ord) {
      if (done[i]) continue;
      if (h[i].inv > minRet) break;
      const KvOp& o = h[i];
      if (optional(o) && (o.k == KvOp::GET || o.k == KvOp::CHECK || o.k == KvOp::NUM || o.k == KvOp::WAIT)) continue;
      auto save = st;
      if (apply(o)) {
        done[i] = 1;
        int r = dfs(must + (optional(o) ? 0 : 1));
        if (r == 1) return 1;
        if (r < 0) gave = true;
        done[i] = 0;
        if (gave) return -1;
      }
      st = std::move(save);
    }
    return 0;
  }
};
}  // namespace
int linearizable(const std::vector<KvOp>& h, u64 budget, const std::map<int, std::string>* init) {
  std::vector<KvOp> v;
  for (auto& o : h)
    if (!o.noEffect) v.push_back(o);
  Lin l(v, budget);
  for (size_t i = 0; i < v.size(); i++) {
    l.ord.push_back(i);
    if (!l.optional(v[i])) l.nMust++;
  }
  std::sort(l.ord.begin(), l.ord.end(), [&](int a, int b) { return v[a].inv < v[b].inv; });
  l.done.assign(v.size(), 0);
  if (init) l.st = *init;
  return l.dfs(0);
}
std::string keyName(int i) {
  switch (i) {
    case 0: return "k0";
    case 1: return std::string("bin\0\n\xff\x01 key", 12);
    case 2: return "";
    case 3: return std::string(3000, 'L') + "x";
    case 4: return "k1";
    case 5: return std::string("k0\0", 3);
    default: return "key/" + std::to_string(i);
  }
}
std::string plainKey(int i) {
  switch (i) {
    case 0: return "k0";
    case 1: return "k";
    case 2: return ".hidden-key";
    case 3: return "key with spaces \xc3\xa4";
    default: return "rank" + std::to_string(i) + ".tmp";
  }
}
std::string valueFor(u64 id, size_t len) {
  std::string s;
  u64 x = Rng::mix(id * 77 + 5);
  while (s.size() < len) {
    s.append((const char*)&x, 8);
    x = Rng::mix(x);
  }
  s.resize(len);
  if (len >= 8) memcpy(&s[0], &id, 8);
  return s;
}
}  // namespace sim
