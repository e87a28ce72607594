//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "pubsub/ThreadSafeMultiMap.hh"
#include "pubsub/SimplePatternMatcher.hh"
#include <functional>
#include <map>
#include <set>
#include <thread>
using namespace quarkdb;
typedef std::pair<std::string, int> P; typedef std::set<P> Set;
static std::string S(long n) { return std::to_string(n); }
static std::string show(const P &p) { return p.first + "=" + S(p.second); }
static std::string show(const Set &s) { std::string r; for(auto &p : s) r += (r.empty() ? "" : " ") + show(p); return "{" + r + "}"; }
// one of the ways to iterate, hiding which
struct It { std::function<bool()> valid; std::function<void()> next; std::function<P()> get; std::function<bool()> erase; std::function<void()> skip; std::function<bool(const P&)> covers = [](const P&) { return true; }; bool keysOnly = false; };
typedef ThreadSafeMultiMap<std::string, int> Map; typedef SimplePatternMatcher<int> Pat;
template<typename T> static It wrapPairs(std::shared_ptr<T> i) { It r; r.valid = [i]() { return i->valid(); }; r.next = [i]() { i->next(); }; r.get = [i]() { return P(i->getKey(), i->getValue()); }; r.erase = [i]() { return i->erase(); }; return r; }
static const int kKinds = 11;
static const char *kKeys[] = {"a*", "a", "?"};       // as patterns: all of them match "a", only the first "ab", only the last "z"
static It make(int kind, Map &m, Pat &p, bool &pattern) {
  pattern = kind >= 7; It r;
  if(kind < 4) { r = wrapPairs(std::make_shared<Map::FullIterator>(m.getFullIterator(kind % 2 + 1, kind / 2 + 1))); }
  else if(kind == 4 || kind == 5) { r = wrapPairs(std::make_shared<Map::MatchIterator>(m.findMatching("a", kind - 3))); r.covers = [](const P &q) { return q.first == "a"; }; }
  else if(kind == 6) { auto i = std::make_shared<Map::KeyIterator>(m.getKeyIterator(1)); r.valid = [i]() { return i->valid(); }; r.next = [i]() { i->next(); }; r.get = [i]() { return P(i->getKey(), 0); }; r.keysOnly = true; }
  else if(kind == 7) r = wrapPairs(std::make_shared<decltype(p.getFullIterator())>(p.getFullIterator()));
  else { std::string subject = kind == 8 ? "a" : kind == 9 ? "ab" : "z"; auto i = std::make_shared<Pat::Iterator>(p.find(subject)); r.valid = [i]() { return i->valid(); }; r.next = [i]() { i->next(); }; r.get = [i]() { return P(i->getPattern(), i->getValue()); }; r.erase = [i]() { return i->erase(); }; r.covers = [kind](const P &q) { return kind == 8 || q.first == (kind == 9 ? "a*" : "?"); }; }
  return r;
}
static Set keysOf(const Set &s) { Set r; for(auto &p : s) r.insert(P(p.first, 0)); return r; }
static void sequential(mc::Ctx &x, int values, int muts) {
  int kind = x.choose(kKinds, "iterator"); std::vector<P> universe; for(auto k : kKeys) for(int v = 0; v < values; v++) universe.push_back(P(k, v)); std::sort(universe.begin(), universe.end());
  unsigned mask = x.choose(1u << universe.size(), "contents"); Map m; Pat pm; bool pattern = kind >= 7; Set cur, seen, ever, always; auto ins = [&](const P &p) { return pattern ? pm.insert(p.first, p.second) : m.insert(p.first, p.second); }; auto del = [&](const P &p) { return pattern ? pm.erase(p.first, p.second) : m.erase(p.first, p.second); }; auto size = [&]() { return pattern ? pm.size() : m.size(); };
  for(size_t i = 0; i < universe.size(); i++) if(mask >> i & 1) { x.check(ins(universe[i]), "insert", "inserting " + show(universe[i]) + " claims it existed"); cur.insert(universe[i]); }
  It it = make(kind, m, pm, pattern); auto view = [&](const Set &s) { Set r; for(auto &p : s) if(it.covers(p)) r.insert(p); return it.keysOnly ? keysOf(r) : r; }; always = ever = view(cur); std::string trace;
  auto changed = [&]() { Set v = view(cur); ever.insert(v.begin(), v.end()); for(auto i = always.begin(); i != always.end();) i = v.count(*i) ? std::next(i) : always.erase(i); x.check(size() == cur.size(), "size", "size " + S(size()) + " with " + show(cur)); };
  int left = muts, steps = 0; while(it.valid()) {
    P p = it.get(); x.log("  at ", show(p)); x.check(ever.count(p), "phantom", "iteration returned " + show(p) + ", which was never there during it"); x.check(seen.insert(p).second, "duplicate", "iteration returned " + show(p) + " twice"); x.check(++steps < 50, "endless", "the iteration does not end");
    for(;;) { int op = left ? x.choose((int)universe.size() + 1 + (it.erase ? 1 : 0), "operation") : 0; if(op == 0) break; left--; x.transition(); x.nontrivial(); if(op == (int)universe.size() + 1) { bool had = cur.erase(p); x.check(it.erase() == had, "erase", "erasing through the iterator"); x.log("  erase here"); } else { const P &q = universe[op - 1]; if(cur.count(q)) { x.check(!ins(q), "insert", "inserting " + show(q) + " again"); x.check(del(q), "erase", "erasing " + show(q)); x.check(!del(q), "erase", "erasing " + show(q) + " again"); cur.erase(q); x.log("  erase ", show(q)); } else { x.check(!del(q), "erase", "erasing absent " + show(q)); x.check(ins(q), "insert", "inserting " + show(q)); cur.insert(q); x.log("  insert ", show(q)); } } changed(); }
    it.next(); x.transition();
  }
  for(auto &p : always) x.check(seen.count(p), "missed", show(p) + " was there throughout and never returned; seen " + show(seen)); x.outcome(S(seen.size()));
  // afterwards a fresh iteration gives exactly the contents
  Set fin; if(pattern) for(auto i = pm.getFullIterator(); i.valid(); i.next()) x.check(fin.insert(P(i.getKey(), i.getValue())).second, "duplicate", "twice"); else for(auto i = m.getFullIterator(2, 1); i.valid(); i.next()) x.check(fin.insert(P(i.getKey(), i.getValue())).second, "duplicate", "twice"); x.check(fin == cur, "contents", "contents are " + show(fin) + ", should be " + show(cur));
}
static void concurrent(mc::Ctx &x, int kind, int script, bool second) {
  Map m; Pat pm; bool pattern = kind >= 7; Set cur; std::vector<P> universe; for(auto k : kKeys) for(int v = 0; v < 2; v++) universe.push_back(P(k, v)); auto ins = [&](const P &p) { return pattern ? pm.insert(p.first, p.second) : m.insert(p.first, p.second); }; auto del = [&](const P &p) { return pattern ? pm.erase(p.first, p.second) : m.erase(p.first, p.second); };
  static const std::vector<std::vector<int>> scripts = {{1, 2}, {-1, -2}, {-3, -4, 3}, {-1, 1}, {-3, 5, -4}}; std::set<int> touched; for(int o : scripts[script]) touched.insert(abs(o) - 1); for(int i = 0; i < 6; i++) { bool there = !touched.count(i) ? i % 2 == 0 || i == 5 : [&]() { for(int o : scripts[script]) if(abs(o) - 1 == i) return o < 0; return false; }(); if(there) { ins(universe[i]); cur.insert(universe[i]); } }
  Set fixed; for(auto &p : cur) { bool t = false; for(int i : touched) if(universe[i] == p) t = true; if(!t) fixed.insert(p); } Set possible(cur); for(int i : touched) possible.insert(universe[i]); Set expectEnd(cur); for(int o : scripts[script]) if(o > 0) expectEnd.insert(universe[o - 1]); else expectEnd.erase(universe[-o - 1]);
  std::thread t([&]() { for(int o : scripts[script]) { P p = universe[abs(o) - 1]; bool r = o > 0 ? ins(p) : del(p); if(!second) x.check(r, "result", "operation " + S(o) + " on " + show(p) + " had no effect"); } });
  std::thread u; if(second) u = std::thread([&]() { size_t n = pattern ? pm.size() : m.size(); x.check(n <= 7, "size", "size " + S(n)); bool dummy; It i = make(pattern ? 7 : 0, m, pm, dummy); int k = 0; while(i.valid() && k < 20) { i.get(); i.erase(); i.next(); k++; } x.check(k < 20, "endless", "the iteration does not end"); });
  bool dummy; It it = make(kind, m, pm, dummy); Set seen; int n = 0; while(it.valid()) { P p = it.get(); x.check(it.keysOnly ? keysOf(possible).count(p) : possible.count(p), "phantom", show(p) + " was never there"); x.check(seen.insert(p).second, "duplicate", show(p) + " was returned twice"); x.check(++n < 20, "endless", "the iteration does not end"); it.next(); }
  t.join(); if(u.joinable()) u.join(); Set want; for(auto &p : fixed) if(it.covers(p)) want.insert(p); if(it.keysOnly) want = keysOf(want); if(!second) for(auto &p : want) x.check(seen.count(p), "missed", show(p) + " was there throughout and never returned");
  Set fin; if(pattern) for(auto i = pm.getFullIterator(); i.valid(); i.next()) fin.insert(P(i.getKey(), i.getValue())); else for(auto i = m.getFullIterator(); i.valid(); i.next()) fin.insert(P(i.getKey(), i.getValue())); if(!second) x.check(fin == expectEnd, "contents", "contents are " + show(fin) + ", should be " + show(expectEnd)); x.check((pattern ? pm.size() : m.size()) == fin.size(), "size", "size is wrong"); x.nontrivial(); x.transition(); x.outcome(show(seen));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C32";
  c.rule = "Sequential: all contents over 3 keys x 2 values, all 11 ways to iterate (full, by key, keys, patterns; page sizes 1 and 2), all placements of up to 3 (thorough 4; also 3 values) insertions and erasures (of any pair, and of the current one through the iterator) between the steps of the iteration: return values, sizes, nothing returned twice, nothing returned that never was there, everything that stayed was returned, final contents. Concurrent: an iteration of each kind against 5 scripts of changes, and a second thread erasing through its own iterator, every schedule with up to 2 (thorough 3) preemptions, data races and deadlocks reported. Non-trivial: the contents changed during the iteration.";
  c.spaces.push_back({"sequential", [](mc::Ctx &x) { sequential(x, 2, x.tier(3, 4)); }});
  c.spaces.push_back({"sequential-wide", [](mc::Ctx &x) { sequential(x, 3, 2); }, true});
  c.spaces.push_back({"concurrent", [](mc::Ctx &x) { int k = x.choose(kKinds, "iterator"), s = x.choose(5, "script"), two = x.choose(2, "second"); vsched::Options o; o.preemptions = x.tier(2, 3); vsched::run(x, o, [&]() { concurrent(x, k, s, two); }); }});
  return mc::main(argc, argv, c);
}
