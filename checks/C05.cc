//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
#include <set>
using kv::Cmd;
// Follows cursors; COUNT is chosen anew at every page.
static std::vector<std::string> follow(mc::Ctx &x, kv::World &w, const Cmd &head, const Cmd &tail, const std::vector<std::string> &counts, size_t per, size_t limit) {
  std::vector<std::string> all; std::string cursor = "0"; size_t pages = 0;
  while(true) {
    Cmd c = head; c.push_back(cursor); for(auto &t : tail) c.push_back(t);
    const std::string &n = counts[x.choose((int)counts.size(), "count")];
    if(!n.empty()) { c.push_back("COUNT"); c.push_back(n); }
    resp::Value v; std::string raw = w.exec(c); x.transition();
    x.check(resp::one(raw, v) && v.type == '*' && v.arr.size() == 2 && v.arr[1].type == '*', "malformed:" + head[0], kv::show(c) + " -> " + mc::quote(raw));
    x.log("  ", kv::show(c), " -> ", v.show());
    uint64_t max = n.empty() ? 100 : strtoull(n.c_str(), nullptr, 10);
    x.check(v.arr[1].arr.size() % per == 0 && v.arr[1].arr.size() / per <= max, "page-size:" + head[0], kv::show(c) + " returned " + std::to_string(v.arr[1].arr.size()) + " strings");
    for(auto &e : v.arr[1].arr) all.push_back(e.str);
    x.check(++pages <= limit, "endless:" + head[0], kv::show(c) + ": still not finished after " + std::to_string(pages) + " pages");
    cursor = v.arr[0].str;
    if(cursor == "0") return all;
    x.check(cursor.size() > 5 && cursor.compare(0, 5, "next:") == 0, "cursor:" + head[0], "odd cursor " + mc::quote(cursor));
  }
}
static std::string joined(const std::vector<std::string> &v) { std::string s; for(auto &e : v) s += mc::quote(e) + " "; return s; }
static void same(mc::Ctx &x, const Cmd &c, std::vector<std::string> got, std::vector<std::string> want, size_t per) {
  auto group = [&](const std::vector<std::string> &v) { std::vector<std::vector<std::string>> g; for(size_t i = 0; i + per <= v.size(); i += per) g.push_back(std::vector<std::string>(v.begin() + i, v.begin() + i + per)); std::sort(g.begin(), g.end()); return g; };
  x.outcome(joined(want));
  if(!want.empty()) x.nontrivial();
  x.check(group(got) == group(want), "contents:" + c[0], kv::show(c) + " over all pages gave " + joined(got) + ", expected " + joined(want));
}
// Other keys whose storage lies right next to the key under test.
static void crowd(kv::World &w, const std::string &cmd) {
  for(std::string k : {"j", "k#", "k##a", "k0", "kk", "l"}) {
    Cmd c{cmd, k};
    if(cmd == "HSET") { c.push_back("a"); c.push_back("other"); } else if(cmd == "SADD" || cmd == "DEQUE-PUSH-BACK") c.push_back("a"); else { c.push_back("f"); c.push_back("h"); c.push_back("other"); }
    w.exec(c);
  }
  w.exec({"SET", "ka", "v"});
}
static const std::vector<std::string> kNames = {"a", "aa", "a#", "#", "##", "b|", std::string("\xff"), std::string("\0z", 2)};
static const std::vector<std::string> kCounts = {"1", "2", "3", ""};
static void elements(mc::Ctx &x, const std::string &type, const std::string &name) {
  fakedb::wipeAll(); kv::World w; crowd(w, type == "HSCAN" ? "HSET" : "SADD");
  std::vector<std::string> want; size_t n = 0;
  int dirty = x.choose(2, "dirty");
  for(size_t i = 0; i < kNames.size(); i++) {
    auto &f = kNames[i]; bool in = x.choose(2, "member");
    if(!in && !dirty) continue;
    if(type == "HSCAN") { w.exec({"HSET", "k", f, "v" + std::to_string(i)}); if(in) { want.push_back(f); want.push_back("v" + std::to_string(i)); n++; } else w.exec({"HDEL", "k", f}); }
    else { w.exec({"SADD", "k", f}); if(in) { want.push_back(f); n++; } else w.exec({"SREM", "k", f}); }
  }
  auto got = follow(x, w, {type, "k"}, {}, kCounts, type == "HSCAN" ? 2 : 1, n + 2);
  same(x, {type, "k"}, got, want, type == "HSCAN" ? 2 : 1);
}
static void deque(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; crowd(w, "DEQUE-PUSH-BACK"); std::vector<std::string> d;
  int n = x.choose(8, "pushes"), front = x.choose(n + 1, "front");
  for(int i = 0; i < n; i++) { std::string v = "v" + std::to_string(i); if(i < front) { w.exec({"DEQUE-PUSH-FRONT", "k", v}); d.insert(d.begin(), v); } else { w.exec({"DEQUE-PUSH-BACK", "k", v}); d.push_back(v); } }
  int pb = x.choose((int)d.size() + 1, "popback"); for(int i = 0; i < pb; i++) { w.exec({"DEQUE-POP-BACK", "k"}); d.pop_back(); }
  int pf = x.choose((int)d.size() + 1, "popfront"); for(int i = 0; i < pf; i++) { w.exec({"DEQUE-POP-FRONT", "k"}); d.erase(d.begin()); }
  static const std::vector<std::string> counts = {"1", "2", "", "9223372036854775807", "9223372036854775800"};
  auto got = follow(x, w, {"DEQUE-SCAN-BACK", "k"}, {}, counts, 1, d.size() + 2);
  same(x, {"DEQUE-SCAN-BACK", "k"}, got, d, 1);
}
// one page after the other, newest first
static void dequeOrder(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; int n = x.choose(7, "n"); std::vector<std::string> d;
  for(int i = 0; i < n; i++) { d.push_back("v" + std::to_string(i)); w.exec({"DEQUE-PUSH-BACK", "k", d.back()}); }
  std::string cursor = "0"; size_t end = d.size(); int c = x.choose(4, "count") + 1;
  while(true) {
    resp::Value v; x.check(resp::one(w.exec({"DEQUE-SCAN-BACK", "k", cursor, "COUNT", std::to_string(c)}), v), "malformed", "malformed"); x.transition();
    size_t start = end > (size_t)c ? end - c : 0; std::vector<std::string> got; for(auto &e : v.arr[1].arr) got.push_back(e.str);
    std::vector<std::string> want(d.begin() + start, d.begin() + end);
    x.check(got == want, "deque-order", "page gave " + joined(got) + ", expected " + joined(want)); end = start; cursor = v.arr[0].str; x.outcome(joined(got)); x.nontrivial();
    x.check((cursor == "0") == (end == 0), "deque-end", "cursor " + mc::quote(cursor) + " with " + std::to_string(end) + " left"); if(cursor == "0") break;
  }
}
static const std::vector<std::string> kPatterns = {"", "*", "a*", "a", "a#*", "a#", "a|*", "?", "[ab]*", "*#", "b*", "a\\*", "z*", "\\a*", "[^a]*", "b?*"};
static void lhash(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; crowd(w, "LHSET");
  static const std::vector<std::string> hints = {"a", "aa", "a#", "a#b", "b", "#", "a|b"};
  static const std::vector<std::string> fields = {"f", "#g", "##", "h"};
  std::vector<std::pair<std::string, std::vector<std::string>>> all;
  int nf = x.tier(3, 4);
  for(int i = 0; i < nf; i++) {
    int h = x.choose((int)hints.size() + 1, "hint"); if(h == (int)hints.size()) continue;
    w.exec({"LHSET", "k", fields[i], hints[(h + 1) % hints.size()], "old"}); w.exec({"LHSET", "k", fields[i], hints[h], "v" + std::to_string(i)});
    all.push_back({hints[h], {hints[h], fields[i], "v" + std::to_string(i)}});
  }
  const std::string &p = kPatterns[x.choose((int)kPatterns.size(), "pattern")]; Cmd tail; if(!p.empty()) tail = {"MATCHLOC", p};
  std::vector<std::string> want; for(auto &e : all) if(p.empty() || model::glob(p, e.first)) for(auto &s : e.second) want.push_back(s);
  auto got = follow(x, w, {"LHSCAN", "k"}, tail, {"1", "2", ""}, 3, all.size() + 2);
  Cmd c{"LHSCAN", "k"}; for(auto &t : tail) c.push_back(t); same(x, c, got, want, 3);
}
static void keys(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; std::vector<std::string> all;
  static const std::vector<std::string> names = {"a", "aa", "a#", "a|x", "b", "#", std::string("\xff"), "bb", "z"};
  int n = x.tier(7, 9);
  for(int i = 0; i < n; i++) if(x.choose(2, "key")) {
    auto &k = names[i]; all.push_back(k);
    switch(i % 6) { case 0: w.exec({"SET", k, "v"}); break; case 1: w.exec({"HSET", k, "f", "v"}); break; case 2: w.exec({"SADD", k, "m"}); break; case 3: w.exec({"DEQUE-PUSH-BACK", k, "m"}); break; case 4: w.exec({"LHSET", k, "f", "h", "v"}); break; case 5: w.exec({"VHSET", k, "f", "v"}); break; }
  }
  if(x.choose(2, "lease")) { w.exec({"TIMESTAMPED_LEASE_ACQUIRE", "a*", "x", "10", kv::ts(5)}); all.push_back("a*"); w.exec({"CONFIG-SET", "raft.trimming", "1:1"}); }
  const std::string &p = kPatterns[x.choose((int)kPatterns.size(), "pattern")]; Cmd tail; if(!p.empty()) tail = {"MATCH", p};
  std::vector<std::string> want; for(auto &k : all) if(p.empty() || model::glob(p, k)) want.push_back(k);
  resp::Value v; x.check(resp::one(w.exec({"KEYS", p.empty() ? "*" : p}), v), "malformed:KEYS", "malformed reply to KEYS");
  std::vector<std::string> got; for(auto &e : v.arr) got.push_back(e.str);
  same(x, {"KEYS", p}, got, want, 1);
  got = follow(x, w, {"SCAN"}, tail, {"1", "2", ""}, 1, all.size() + 2);
  Cmd c{"SCAN"}; for(auto &t : tail) c.push_back(t); same(x, c, got, want, 1);
}
// more elements than a default page; malformed counts and cursors
static void sizes(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; static const int ns[] = {0, 1, 99, 100, 101, 200, 201, 350}; int n = ns[x.choose(8, "n")], type = x.choose(5, "type");
  static const std::vector<std::string> counts = {"", "1", "7", "99", "100", "101", "1000", "3074457345618258603", "6148914691236517206", "9223372036854775807", "00", "0", "-1", "x", "", "99999999999999999999", "-0", "1x"};
  const std::string count = counts[x.choose((int)counts.size(), "count")];
  static const char *scan[] = {"HSCAN", "SSCAN", "DEQUE-SCAN-BACK", "LHSCAN", "SCAN"}; static const char *add[] = {"HSET", "SADD", "DEQUE-PUSH-BACK", "LHSET", "SET"}; static const int pers[] = {2, 1, 1, 3, 1};
  std::vector<std::string> want;
  for(int i = 0; i < n; i++) {
    std::string e = "e" + std::to_string(i); Cmd c{add[type]}; if(type != 4) c.push_back("k"); c.push_back(e); want.push_back(e);
    if(type == 0) { c.push_back("v"); want.push_back("v"); } if(type == 3) { c.push_back("h"); c.push_back("v"); want.insert(want.end() - 1, "h"); want.push_back("v"); } if(type == 4) c.push_back("v");
    w.exec(c);
  }
  Cmd head{scan[type]}; if(type != 4) head.push_back("k");
  Cmd first = head; first.push_back("0"); first.push_back("COUNT"); first.push_back(count.empty() ? "5" : count);
  resp::Value v; x.check(resp::one(w.exec(first), v), "malformed", kv::show(first));
  bool valid = count.empty(); if(!valid) { char *e; errno = 0; long long k = strtoll(count.c_str(), &e, 10); valid = !*e && errno == 0 && k > 0; }
  if(v.type == '-') { x.check(!valid, "valid-count", kv::show(first) + " refused: " + v.str); x.outcome("refused"); x.nontrivial(); return; }
  x.check(count == "" || v.type == '*', "reply", kv::show(first) + " -> " + v.show());
  if(!valid) x.check(v.type == '-', "bad-count", kv::show(first) + " accepted");
  same(x, head, follow(x, w, head, {}, {count}, pers[type], n + 2), want, pers[type]);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C05";
  c.rule = "For every subset of a universe of awkward element names (prefixes of each other, hashes, binary), every pattern of a list and every sequence of COUNT values chosen page by page, cursors are followed to the end on the real engine and the union of the pages is compared with the matching elements; neighbouring keys of the same type are always present.";
  c.assumptions = {"RocksDB is replaced by an in-memory ordered store", "data does not change during the scan"};
  c.spaces.push_back({"hscan", [](mc::Ctx &x) { elements(x, "HSCAN", "h"); }});
  c.spaces.push_back({"sscan", [](mc::Ctx &x) { elements(x, "SSCAN", "s"); }});
  c.spaces.push_back({"deque-scan-back", deque});
  c.spaces.push_back({"deque-order", dequeOrder});
  c.spaces.push_back({"lhscan", lhash});
  c.spaces.push_back({"scan-keys", keys});
  c.spaces.push_back({"sizes-and-counts", sizes});
  return mc::main(argc, argv, c);
}
