// helpers shared by the scenarios
#pragma once
#include <memory>
#include <set>
#include "../sim/sim.h"
namespace sim {
// swarm configuration of scheduler, memory and network; what: bit 0 network, bit 1 file system
struct Swarm {
  bool net = false, fs = false, faults = true;
  bool memPreempt = true;
  u32 maxStallMs = 40;
};
void genSwarm(Rng& g, Plan& p, const Swarm& s);
void applySwarm(const Plan& p);

// ---- history of a key-value store and its linearizability check
struct KvOp {
  enum K { SET, GET, ADD, CHECK, DEL, NUM, WAIT } k = SET;
  int client = 0;
  std::vector<int> keys;      // indices of keys
  std::string val;            // SET argument / GET result
  i64 num = 0;                // ADD argument
  i64 res = 0;                // ADD, CHECK, DEL, NUM result
  u64 inv = 0, ret = ~0ull;   // sequence numbers; ret == ~0: no reply (may have taken effect or not)
  u64 tInv = 0, tRet = ~0ull;
  bool failed = false;        // reported failure: like no reply for mutators, ignored for readers
  bool noEffect = false;      // reported failure that must not have taken effect
  std::string str(const std::vector<std::string>* names = nullptr) const;
};
// 1 linearizable, 0 not, -1 gave up
int linearizable(const std::vector<KvOp>& h, u64 budget = 400000, const std::map<int, std::string>* init = nullptr);
std::string historyText(const std::vector<KvOp>& h);
std::string keyName(int i);       // key strings of varied shape (binary, empty, long)
std::string plainKey(int i);      // file-name-safe keys
std::string valueFor(u64 id, size_t len);  // unique value of that length
inline void crashClass(const char* what) {
  std::string w = what;
  onCrash([w](int) { return w; });
}
}  // namespace sim
