//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
using kv::Cmd; using kv::Alphabet;
static void addReads(Alphabet &a, const std::vector<std::string> &keys, const std::vector<std::string> &fields, const std::vector<std::string> &hints, const std::vector<std::string> &pats) {
  for(auto &k : keys) {
    for(const char *c : {"TYPE", "LHLEN", "HLEN", "HGETALL", "EXISTS"}) a.probes.push_back({c, k});
    a.probes.push_back({"LHSCAN", k, "0"});
    for(auto &h : pats) a.probes.push_back({"LHSCAN", k, "0", "MATCHLOC", h});
    for(auto &f : fields) { a.probes.push_back({"LHGET", k, f}); for(auto &h : hints) a.probes.push_back({"LHGET", k, f, h}); }
  }
  a.probes.push_back({"KEYS", "*"});
}
static Alphabet basic() {
  Alphabet a; a.reopen = true;
  for(std::string f : {"f", "#g"}) {
    for(std::string h : {"h", "h#"}) { a.ops.push_back({"LHSET", "k", f, h, "1"}); a.ops.push_back({"LHLOCDEL", "k", f, h}); }
    a.ops.push_back({"LHSET", "k", f, "h", "2"}); a.ops.push_back({"LHDEL", "k", f});
  }
  a.ops.push_back({"LHMSET", "k", "f", "h", "3", "#g", "h#", "4", "f", "h2", "5"}); a.ops.push_back({"LHMSET", "k", "f", "h", "3", "f", "h", "4"});
  a.ops.push_back({"LHDEL", "k", "f", "#g", "f", "zz"}); a.ops.push_back({"DEL", "k"});
  a.ops.push_back({"LHMSET", "k", "f", "h"}); a.ops.push_back({"LHSET", "k", "f", "h"}); a.ops.push_back({"LHDEL", "k"}); a.ops.push_back({"LHLOCDEL", "k", "f"});
  addReads(a, {"k"}, {"f", "#g", "zz"}, {"h", "h#", "h2", "zz"}, {"h", "h*", "h\\*", "*#", "nope"});
  return a;
}
// Several keys whose names and index entries are adjacent on disk.
static Alphabet neighbours() {
  Alphabet a;
  for(std::string k : {"k", "k#", "k##i"}) {
    a.ops.push_back({"LHSET", k, "f", "h", "1"}); a.ops.push_back({"LHSET", k, "f", "i", "2"}); a.ops.push_back({"LHSET", k, "d", "h", "3"});
    a.ops.push_back({"LHDEL", k, "f"}); a.ops.push_back({"LHLOCDEL", k, "f", "h"}); a.ops.push_back({"DEL", k});
  }
  a.ops.push_back({"HSET", "q", "f", "9"});
  addReads(a, {"k", "k#", "k##i"}, {"f", "d"}, {"h", "i"}, {"h", "i*"});
  return a;
}
static Alphabet fallback() {
  Alphabet a;
  for(std::string f : {"f", "g"}) {
    a.ops.push_back({"HSET", "q", f, "1"}); a.ops.push_back({"HSET", "q2", f, "2"}); a.ops.push_back({"LHSET", "k", f, "h", "3"});
    a.ops.push_back({"LHSET-AND-DEL-FALLBACK", "k", f, "h", "4", "q"}); a.ops.push_back({"LHSET_AND_DEL_FALLBACK", "k", f, "i", "5", "q2"});
    a.ops.push_back({"LHDEL-WITH-FALLBACK", "k", f, "q"}); a.ops.push_back({"LHDEL_WITH_FALLBACK", "k", f, "k"});
    a.ops.push_back({"CONVERT-HASH-FIELD-TO-LHASH", "q", f, "k", f, "h"}); a.ops.push_back({"CONVERT-HASH-FIELD-TO-LHASH", "q", f, "k", "f", "i"});
  }
  a.ops.push_back({"SET", "q2", "str"}); a.ops.push_back({"SET", "k", "str"}); a.ops.push_back({"DEL", "k", "q2"});
  addReads(a, {"k", "q", "q2"}, {"f", "g"}, {"h", "i"}, {"h"});
  for(std::string f : {"f", "g"}) for(std::string q : {"q", "q2"}) { a.probes.push_back({"LHGET-WITH-FALLBACK", "k", f, q}); a.probes.push_back({"LHGET-WITH-FALLBACK", "k", f, "h", q}); a.probes.push_back({"LHGET-WITH-FALLBACK", "k", f, "i", q}); a.probes.push_back({"HGET", q, f}); }
  return a;
}
// All three-field states with sizes beyond a page, one command each way.
static void many(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; model::Store m;
  static const int ns[] = {1, 2, 3, 10, 100, 101, 255, 256, 300};
  int n = ns[x.choose(9, "n")], hints = x.choose(3, "hints") == 0 ? 1 : x.choose(2, "many") ? 1000 : 3;
  int again = x.choose(3, "again");
  auto f = [](int i) { return "f" + std::to_string(i); };
  Cmd c{"LHMSET", "k"}; for(int i = 0; i < n; i++) { c.push_back(f(i)); c.push_back("h" + std::to_string(i % hints)); c.push_back(std::to_string(i)); }
  kv::step(x, w, m, c, "op");
  if(again == 1) { Cmd d{"LHMSET", "k"}; for(int i = 0; i < n; i += 2) { d.push_back(f(i)); d.push_back("H"); d.push_back("x"); } kv::step(x, w, m, d, "op"); }
  if(again == 2) for(int i = 0; i < n; i += 3) kv::step(x, w, m, {"LHLOCDEL", "k", f(i), "h" + std::to_string(i % hints)}, "op");
  kv::step(x, w, m, {"LHLEN", "k"}, "read"); kv::step(x, w, m, {"LHSCAN", "k", "0", "COUNT", "100000"}, "read");
  for(int i = 0; i <= n; i++) { kv::step(x, w, m, {"LHGET", "k", f(i)}, "read"); kv::step(x, w, m, {"LHGET", "k", f(i), "h" + std::to_string(i % hints)}, "read"); }
  x.nontrivial(); x.transition(n); x.visited(w.canon()); x.outcome(kv::modelCanon(m));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C02";
  c.rule = "Every sequence of the locality-hash commands of each alphabet up to the stated length (states equal in storage and reference are merged); after every step all lookups with the right, a stale and no hint, length, scans and per-hint scans are compared with a map field -> (hint, value).";
  c.assumptions = {"RocksDB is replaced by an in-memory ordered store", "one writer"};
  Alphabet b = basic(), n = neighbours(), f = fallback();
  c.spaces.push_back({"basic", [b](mc::Ctx &x) { kv::runSequence(x, b, x.tier(9, 12)); }});
  c.spaces.push_back({"neighbours", [n](mc::Ctx &x) { kv::runSequence(x, n, x.tier(9, 12)); }});
  c.spaces.push_back({"fallback", [f](mc::Ctx &x) { kv::runSequence(x, f, x.tier(8, 11)); }});
  c.spaces.push_back({"many-fields", many});
  return mc::main(argc, argv, c);
}
