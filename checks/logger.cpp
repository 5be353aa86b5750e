// C23: the logger under concurrent use
#include <stdio.h>
#include <string.h>

#include "Utils/Logger.h"
#include "kv.h"

using namespace sim;
using namespace tinytorch;
namespace {
#ifdef HAVE_SINK
// the sink and the minimum level have no public setter: explicit instantiation may name private members
template <class Tag, typename Tag::type M>
struct Rob {
  friend typename Tag::type get(Tag) { return M; }
};
struct TagF { typedef LogFunc* type; friend type get(TagF); };
struct TagC { typedef void** type; friend type get(TagC); };
struct TagL { typedef LogLevel* type; friend type get(TagL); };
template struct Rob<TagF, &Logger::logFunc_>;
template struct Rob<TagC, &Logger::logContext_>;
template struct Rob<TagL, &Logger::minLevel_>;
#endif
const LogLevel LV[] = {LOG_INFO, LOG_DEBUG, LOG_WARNING, LOG_ERROR};
const char* NM[] = {"INFO", "DEBUG", "WARNING", "ERROR"};
struct Got {
  std::string text;
  int thread, level = -1;
};
std::vector<Got>* got;
void sink(void* ctx, int level, const char* msg) {
  NoPreempt np;
  if (ctx != got) violation("wrong-sink-context", "%p", ctx);
  got->push_back({msg, curThreadId(), level});
}
std::string body(int t, int i, i64 len) {
  std::string s = "<" + std::to_string(t) + ":" + std::to_string(i) + ">";
  u64 x = Rng::mix(t * 1000 + i);
  while ((i64)s.size() < len) {
    s += "abcdefghijklmnopqrstuvwxyz%0123456789"[x % 37];
    x = Rng::mix(x);
  }
  return s;
}
void exec(const Plan& p) {
  applySwarm(p);
  crashClass("crash");
  int nt = p.k("threads", 3);
  auto g = std::make_unique<std::vector<Got>>();
  got = g.get();
  bool useSink = false;
  int minLevel = 0;
#ifdef HAVE_SINK
  useSink = p.k("sink");
  minLevel = p.k("min");
#endif
  onLog([&](const LogEnt& e) { got->push_back({e.text, e.thread, -1}); });
  Node* n = newNode("proc");
  std::vector<std::vector<Line>> todo(nt);
  for (auto& l : p.lines)
    if (l.kind == "log") todo[l.arg(0) % nt].push_back(l);
#ifdef HAVE_SINK
  // globals belong to a process
  join(spawn(n, "setup", [&] {
    if (useSink) *get(TagF()) = sink, *get(TagC()) = got;
    *get(TagL()) = (LogLevel)minLevel;
  }), SEC);
#endif
  armSched();
  std::vector<Thread*> ts;
  for (int t = 0; t < nt; t++)
    ts.push_back(spawn(n, "logger" + std::to_string(t), [&, t] {
      int i = 0;
      for (auto& l : todo[t]) {
        std::string s = body(t, i++, l.arg(2));
        int lv = l.arg(1) & 3;
        int plain = l.arg(3);
        if (plain && s.find('%') == std::string::npos) Logger::log(LV[lv], __FILE__, __LINE__, s.c_str());
        else if (plain == 2) Logger::log(LV[lv], __FILE__, __LINE__, "%s%s", s.substr(0, 3).c_str(), s.c_str() + 3);
        else Logger::log(LV[lv], __FILE__, __LINE__, "%s", s.c_str());
      }
    }));
  for (auto* t : ts)
    if (!join(t, 1000 * SEC)) violation("logging-hangs", "%s", threadDump().c_str());
  fflush(stdout);
  fflush(stderr);
  onLog({});
  std::vector<int> next(nt, 0);
  size_t i = 0, expected = 0;
  for (auto& v : todo)
    for (auto& l : v) expected += (l.arg(1) & 3) >= minLevel;
  for (auto& e : *got) {
    i++;
    // which message is it?
    size_t o = e.text.find('<');
    int t = -1, m = -1;
    if (o == std::string::npos || sscanf(e.text.c_str() + o, "<%d:%d>", &t, &m) != 2 || t < 0 || t >= nt || m < 0 || m >= (int)todo[t].size())
      violation("garbled-message", "delivery %zu is '%.100s'", i, e.text.c_str());
    auto& l = todo[t][m];
    int lv = l.arg(1) & 3;
    std::string want = body(t, m, l.arg(2)), have = e.text;
    if (useSink) {
      if (e.level != lv) violation("wrong-level", "%d for a message of level %d", e.level, lv);
    } else {
      std::string pre = std::string("[") + NM[lv] + "] ";
      if (have.compare(0, pre.size(), pre) != 0) violation("garbled-message", "'%.60s' for a message of level %s", have.c_str(), NM[lv]);
      have = have.substr(pre.size());
    }
    if (have != want && !(have.size() >= (size_t)MAX_LOG_LENGTH - 2 && have.size() < want.size() && want.compare(0, have.size(), have) == 0))
      violation("garbled-message", "message %d of thread %d: %zu of %zu characters, '%.40s' instead of '%.40s'", m, t, have.size(), want.size(), have.c_str(), want.c_str());
    if (lv < minLevel) violation("below-level", "message of level %s delivered, minimum %s", NM[lv], NM[minLevel]);
    while (next[t] < m && (todo[t][next[t]].arg(1) & 3) < minLevel) next[t]++;
    if (m != next[t]) violation(m < next[t] ? "duplicate-or-reordered" : "lost-or-reordered", "thread %d delivered message %d, expected %d", t, m, next[t]);
    next[t]++;
  }
  if (got->size() != expected) violation("lost-message", "%zu of %zu messages delivered", got->size(), expected);
}
Plan gen(Rng& g, bool thorough) {
  Plan p;
  Swarm s;
  genSwarm(g, p, s);
  int nt = 1 + g.below(5);
  p.knob["threads"] = nt;
  if (g.chance(1, 2)) p.knob["sink"] = 1;
  if (g.chance(1, 3)) p.knob["min"] = g.below(4);
  int n = 1 + g.below(thorough ? 40 : 24);
  for (int i = 0; i < n; i++) {
    i64 len = g.chance(1, 2) ? g.below(60) : g.chance(1, 3) ? 1000 + g.below(60) : g.below(3000);
    p.lines.push_back({"log", {(i64)g.below(nt), (i64)g.below(4), len, (i64)g.below(3)}});
  }
  return p;
}
Reg r({"C23", "1-5 threads log 1-24 messages of random level and length (around and beyond the buffer limit) to the standard streams or an installed sink, with random minimum level and schedules; every delivery is compared with what was logged.", {"src/Utils/Logger.cpp", "glibc stdio"}, {"pthread scheduling (simulated)", "standard streams (captured)"}, gen, exec, 600000, 20000000, 20, 600, {}});
}  // namespace
