//@ sources: ExpirationEventCache.cc Utils.cc
//@ flags: -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS
#include "mc.hh"
#include "storage/ExpirationEventCache.hh"
#include "utils/Macros.hh"
#include "Utils.hh"
#include <algorithm>
#include <map>
#include <memory>
using namespace quarkdb;
typedef std::vector<std::pair<uint64_t, std::string>> Model;    // sorted by deadline, then by age
static std::string show(const Model &m) { std::string s; for(auto &e : m) s += std::to_string(e.first) + ":" + e.second + " "; return s; }
static void compare(mc::Ctx &x, ExpirationEventCache &c, const Model &m) {
  x.check(c.size() == m.size() && c.empty() == m.empty(), "size", "holds " + std::to_string(c.size()) + " events, expected " + show(m));
  if(m.empty()) return;
  uint64_t d = c.getFrontDeadline(); std::string l = c.getFrontLease(); bool there = false;
  for(auto &e : m) if(e.first == d && e.second == l) there = true;
  x.check(d == m[0].first && there, "front", "front is " + std::to_string(d) + ":" + l + ", expected the earliest of " + show(m));
}
static void run(mc::Ctx &x, const std::vector<uint64_t> &deadlines, const std::vector<std::string> &names, int depth) {
  ExpirationEventCache c; Model m; int nd = deadlines.size(), nn = names.size(), pairs = nd * nn; compare(x, c, m);
  for(int i = 0; i < depth; i++) {
    int op = x.choose(2 * pairs + 3, "operation"), k = op % pairs; uint64_t d = deadlines[k / nn]; std::string n = names[k % nn]; x.transition();
    if(op == 2 * pairs + 2) break;
    bool threw = false, expect = false; std::string what;
    auto held = std::find_if(m.begin(), m.end(), [&](auto &e) { return e.second == n; }), exact = std::find(m.begin(), m.end(), std::make_pair(d, n));
    try {
      if(op < pairs) { what = "insert " + std::to_string(d) + ":" + n; expect = held != m.end(); if(!expect) m.insert(std::upper_bound(m.begin(), m.end(), d, [](uint64_t a, auto &e) { return a < e.first; }), {d, n}); c.insert(d, n); }
      else if(op < 2 * pairs) { what = "remove " + std::to_string(d) + ":" + n; expect = exact == m.end(); if(!expect) m.erase(exact); c.remove(d, n); }
      else if(op == 2 * pairs) { what = "pop_front"; expect = m.empty(); std::string gone; if(!expect) { gone = c.getFrontLease(); m.erase(std::find_if(m.begin(), m.end(), [&](auto &e) { return e.second == gone; })); } c.pop_front(); }
      else { what = "clear"; m.clear(); c.clear(); }
    } catch(FatalException &e) { threw = true; }
    x.log("  ", what, threw ? " refused" : ""); x.check(threw == expect, "refusal", what + (threw ? " was refused" : " was accepted") + " holding " + show(m));
    if(!threw) x.nontrivial();
    compare(x, c, m); x.outcome(show(m));
    if(x.visited(show(m), depth - i - 1)) x.abandon();
  }
  while(!m.empty()) { uint64_t d = c.getFrontDeadline(); std::string l = c.getFrontLease(); auto it = std::find(m.begin(), m.end(), std::make_pair(d, l)); x.check(it != m.end() && d == m[0].first, "drain", "draining gave " + std::to_string(d) + ":" + l + ", expected " + show(m)); m.erase(it); c.pop_front(); compare(x, c, m); }
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C38";
  c.rule = "Every sequence of insertions, removals (present, absent, other deadline), pops and clears of the real index over 3 names and 4 deadlines up to depth 7 (thorough 10), and over 5 names sharing 2 deadlines, deduplicated by contents; after every step size, emptiness and front are compared with a sorted list, refusals must change nothing, and every history ends by draining. Non-trivial: an operation was accepted.";
  c.spaces.push_back({"mixed", [](mc::Ctx &x) { run(x, {0, 1, 2, UINT64_MAX}, {"a", "b", ""}, x.tier(7, 10)); }});
  c.spaces.push_back({"ties", [](mc::Ctx &x) { run(x, {5, 6}, {"a", "b", "c", "d", "e"}, x.tier(8, 12)); }});
  return mc::main(argc, argv, c);
}
