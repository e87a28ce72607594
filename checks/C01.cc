//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
using kv::Cmd; using kv::Alphabet;
static std::vector<Cmd> probesFor(const std::vector<std::string> &keys, const std::vector<std::string> &fields) {
  std::vector<Cmd> p;
  for(auto &k : keys) {
    for(const char *c : {"TYPE", "GET", "EXISTS", "HLEN", "HKEYS", "HVALS", "HGETALL", "SCARD", "SMEMBERS", "DEQUE_LEN"}) p.push_back({c, k});
    p.push_back({"DEQUE-SCAN-BACK", k, "0"});
    for(auto &f : fields) { p.push_back({"HGET", k, f}); p.push_back({"HEXISTS", k, f}); p.push_back({"SISMEMBER", k, f}); }
  }
  p.push_back({"KEYS", "*"}); p.push_back({"KEYS", keys[0]}); p.push_back({"KEYS", keys[0].substr(0, 1) + "*"}); p.push_back({"KEYS", "nope*"});
  Cmd e{"EXISTS"}; for(auto &k : keys) { e.push_back(k); e.push_back(k); } p.push_back(e);
  return p;
}
static Alphabet strings() {
  Alphabet a; a.reopen = true;
  for(std::string k : {"k", "k#", "k##f"}) { a.ops.push_back({"SET", k, "1"}); a.ops.push_back({"SET", k, "xyz##"}); a.ops.push_back({"DEL", k}); }
  a.ops.push_back({"DEL", "k", "k#", "k", "nope"}); a.ops.push_back({"FLUSHALL"});
  a.ops.push_back({"SET", "k"}); a.ops.push_back({"SET", "k", "a", "b"}); a.ops.push_back({"DEL"}); a.ops.push_back({"FLUSHALL", "x"});
  a.ops.push_back({"CONFIG-SET", "c", "1"}); a.ops.push_back({"CONFIG_SET", "c", "2"}); a.ops.push_back({"CONFIG_SET", "k", "z"});
  a.probes = probesFor({"k", "k#", "k##f"}, {"f"}); a.probes.push_back({"CONFIG_GET", "c"}); a.probes.push_back({"CONFIG_GET", "k"}); a.probes.push_back({"CONFIG_GET", "zz"}); a.probes.push_back({"CONFIG_GETALL"});
  return a;
}
static Alphabet hashes() {
  Alphabet a; a.reopen = true;
  std::string b("\0\xff#", 3);
  for(std::string k : {"k", "k#"}) {
    a.ops.push_back({"HSET", k, "f", "1"}); a.ops.push_back({"HSET", k, "#f", "v"}); a.ops.push_back({"HSETNX", k, "f", "7"});
    a.ops.push_back({"HDEL", k, "f"}); a.ops.push_back({"HDEL", k, "f", "#f", "f", b}); a.ops.push_back({"DEL", k});
  }
  a.ops.push_back({"HMSET", "k", "f", "2", b, "3", "f", "4"}); a.ops.push_back({"HMSET", "k", "f"}); a.ops.push_back({"HMSET", "k", "f", "1", "g"});
  a.ops.push_back({"HINCRBY", "k", "f", "5"}); a.ops.push_back({"HINCRBY", "k", "f", "x"}); a.ops.push_back({"HINCRBY", "k#", "n", "-3"});
  a.ops.push_back({"HINCRBYMULTI", "k", "f", "1", "k", "f", "2", "k#", "n", "3"}); a.ops.push_back({"HINCRBYMULTI", "k", "f", "1", "k"});
  a.ops.push_back({"HINCRBYFLOAT", "k", "f", "0.5"}); a.ops.push_back({"HINCRBYFLOAT", "k", "f", "y"});
  a.ops.push_back({"HCLONE", "k", "k#"}); a.ops.push_back({"HCLONE", "k#", "k"}); a.ops.push_back({"HCLONE", "k", "k"});
  a.probes = probesFor({"k", "k#"}, {"f", "#f", b, "n", "nope"});
  return a;
}
static Alphabet sets() {
  Alphabet a; a.reopen = true;
  for(std::string k : {"k", "k#"}) {
    a.ops.push_back({"SADD", k, "a"}); a.ops.push_back({"SADD", k, "a", "b", "a"}); a.ops.push_back({"SREM", k, "a"}); a.ops.push_back({"SREM", k, "a", "b", "a", "z"});
    a.ops.push_back({"DEL", k});
  }
  for(std::string e : {"a", "b"}) { a.ops.push_back({"SMOVE", "k", "k#", e}); a.ops.push_back({"SMOVE", "k#", "k", e}); a.ops.push_back({"SMOVE", "k", "k", e}); }
  a.ops.push_back({"SADD", "k"}); a.ops.push_back({"SREM", "k"}); a.ops.push_back({"SMOVE", "k", "k#"});
  a.probes = probesFor({"k", "k#"}, {"a", "b", "z"});
  return a;
}
static Alphabet deques() {
  Alphabet a; a.reopen = true;
  for(std::string k : {"k", "k#"}) {
    a.ops.push_back({"DEQUE-PUSH-BACK", k, "a", "b"}); a.ops.push_back({"deque-push-front", k, "c", "d"}); a.ops.push_back({"DEQUE_PUSH_BACK", k, "e"});
    a.ops.push_back({"DEQUE_PUSH_FRONT", k, "f"}); a.ops.push_back({"DEQUE_POP_FRONT", k}); a.ops.push_back({"DEQUE_POP_BACK", k});
  }
  for(std::string n : {"0", "1", "2", "-1", "x", "9"}) a.ops.push_back({"DEQUE_TRIM_FRONT", "k", n});
  a.ops.push_back({"DEQUE_CLEAR", "k"}); a.ops.push_back({"DEL", "k"}); a.ops.push_back({"DEQUE_PUSH_BACK", "k"});
  a.probes = probesFor({"k", "k#"}, {"a"});
  return a;
}
static Alphabet mixed() {
  Alphabet a;
  for(std::string k : {"k", "q"}) {
    a.ops.push_back({"SET", k, "3"}); a.ops.push_back({"HSET", k, "f", "3"}); a.ops.push_back({"HINCRBY", k, "f", "1"}); a.ops.push_back({"HINCRBYFLOAT", k, "f", "1"});
    a.ops.push_back({"HSETNX", k, "f", "3"}); a.ops.push_back({"HMSET", k, "f", "3"});
    a.ops.push_back({"SADD", k, "f"}); a.ops.push_back({"DEQUE_PUSH_BACK", k, "f"}); a.ops.push_back({"DEQUE_PUSH_FRONT", k, "f"}); a.ops.push_back({"LHSET", k, "f", "h", "v"}); a.ops.push_back({"LHMSET", k, "f", "h", "v"});
    a.ops.push_back({"VHSET", k, "f", "v"}); a.ops.push_back({"VHDEL", k, "f"}); a.ops.push_back({"TIMESTAMPED_LEASE_ACQUIRE", k, "me", "10", kv::ts(5)});
    a.ops.push_back({"TIMESTAMPED_LEASE_RELEASE", k, kv::ts(5)}); a.ops.push_back({"TIMESTAMPED_LEASE_GET", k, kv::ts(5)});
    a.ops.push_back({"HDEL", k, "f"}); a.ops.push_back({"SREM", k, "f"}); a.ops.push_back({"DEQUE_POP_FRONT", k}); a.ops.push_back({"DEQUE_POP_BACK", k}); a.ops.push_back({"DEQUE_CLEAR", k}); a.ops.push_back({"LHDEL", k, "f"}); a.ops.push_back({"LHLOCDEL", k, "f", "h"});
    a.ops.push_back({"DEL", k});
  }
  a.ops.push_back({"SMOVE", "k", "q", "f"}); a.ops.push_back({"HCLONE", "k", "q"}); a.ops.push_back({"DEL", "k", "q"}); a.ops.push_back({"FLUSHALL"}); a.ops.push_back({"SMOVE", "k", "k", "f"});
  a.ops.push_back({"HINCRBYMULTI", "k", "f", "1", "q", "f", "1"}); a.ops.push_back({"LHSET-AND-DEL-FALLBACK", "k", "f", "h", "v", "q"}); a.ops.push_back({"LHDEL-WITH-FALLBACK", "k", "f", "q"});
  a.ops.push_back({"CONVERT-HASH-FIELD-TO-LHASH", "k", "f", "q", "f", "h"});
  a.ops.push_back({"CONVERT-HASH-FIELD-TO-LHASH", "k", "f", "k", "f", "h"});
  a.probes = probesFor({"k", "q"}, {"f"});
  for(std::string k : {"k", "q"}) { for(const char *c : {"LHLEN", "VHLEN", "VHGETALL"}) a.probes.push_back({c, k}); a.probes.push_back({"LHGET", k, "f"}); a.probes.push_back({"LHGET", k, "f", "h"}); a.probes.push_back({"LHSCAN", k, "0"}); }
  a.probes.push_back({"LHGET-WITH-FALLBACK", "k", "f", "q"}); a.probes.push_back({"LHGET-WITH-FALLBACK", "k", "f", "h", "q"});
  return a;
}
// Sizes beyond what short sequences reach: n elements of one type (in one command or one by one), then one
// shrinking command, then everything read back.
static void sizes(mc::Ctx &x) {
  static const int ns[] = {1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 300, 1000};
  fakedb::wipeAll(); kv::World w; model::Store m;
  int type = x.choose(5, "type"), n = ns[x.choose(15, "n")], how = x.choose(2, "one-by-one"), cut = x.choose(4, "cut");
  std::string k = x.choose(2, "key") ? "k##" : "k";
  x.log("n = ", n);
  auto el = [&](int i) { std::string e = std::to_string(i); e += (char)(i & 0xff); return e; };
  static const char *grow[] = {"HMSET", "SADD", "DEQUE_PUSH_BACK", "DEQUE_PUSH_FRONT", "LHMSET"};
  std::vector<Cmd> c; Cmd all{grow[type], k};
  auto add = [&](Cmd &o, int i) { o.push_back(el(i)); if(type == 0) o.push_back("v" + el(i)); if(type == 4) { o.push_back("h" + std::to_string(i % 7)); o.push_back("v" + el(i)); } };
  for(int i = 0; i < n; i++) { if(how) { Cmd one{grow[type], k}; add(one, i); c.push_back(one); } else add(all, i); }
  if(!how) c.push_back(all);
  int drop = cut == 0 ? 0 : cut == 1 ? 1 : cut == 2 ? n / 2 : n;
  if(drop) {
    if(type == 2 || type == 3) c.push_back({"DEQUE_TRIM_FRONT", k, std::to_string(n - drop)});
    else { Cmd d{type == 0 ? "HDEL" : type == 1 ? "SREM" : "LHDEL", k}; for(int i = 0; i < drop; i++) d.push_back(el(i)); c.push_back(d); }
  }
  for(auto &o : c) { kv::step(x, w, m, o, "op"); x.transition(); }
  x.visited(w.canon()); x.outcome(kv::modelCanon(m)); x.nontrivial();
  for(auto &p : std::vector<Cmd>{{"TYPE", k}, {"EXISTS", k}, {"KEYS", "*"}}) kv::step(x, w, m, p, "read");
  if(type == 0) for(auto &p : std::vector<Cmd>{{"HLEN", k}, {"HGETALL", k}, {"HKEYS", k}, {"HVALS", k}, {"HGET", k, el(n - 1)}, {"HGET", k, el(0)}}) kv::step(x, w, m, p, "read");
  if(type == 1) for(auto &p : std::vector<Cmd>{{"SCARD", k}, {"SMEMBERS", k}, {"SISMEMBER", k, el(n - 1)}}) kv::step(x, w, m, p, "read");
  if(type == 2 || type == 3) { kv::step(x, w, m, {"DEQUE_LEN", k}, "read"); kv::step(x, w, m, {"DEQUE_POP_BACK", k}, "op"); kv::step(x, w, m, {"DEQUE_POP_FRONT", k}, "op"); kv::step(x, w, m, {"DEQUE_PUSH_BACK", k, "z"}, "op"); kv::step(x, w, m, {"DEQUE_LEN", k}, "read"); }
  if(type == 4) for(auto &p : std::vector<Cmd>{{"LHLEN", k}, {"LHGET", k, el(n - 1)}, {"LHGET", k, el(0), "h3"}}) kv::step(x, w, m, p, "read");
  kv::step(x, w, m, {"DEL", k}, "op"); kv::step(x, w, m, {"KEYS", "*"}, "read");
  for(auto &kv : w.contents()) if(kv.first[0] != '_' ) x.fail("leftover", "after DEL the store still holds " + mc::quote(kv.first));
}
// Values are opaque: every length around powers of two and every byte value comes back unchanged.
static void values(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; model::Store m;
  static const int ls[] = {1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 255, 256, 1023, 4096, 65535, 65536, 70000};
  int l = ls[x.choose(18, "length")], b = x.choose(8, "pattern");
  static const unsigned char bytes[] = {0, 1, '#', '|', '\r', 0x7f, 0x80, 0xff};
  std::string v(l, (char)bytes[b]); if(b == 7) for(int i = 0; i < l; i++) v[i] = (char)(i * 7);
  x.log("value of ", l, " bytes, pattern ", b);
  std::string f = l <= 4096 ? v : "f";
  for(auto &p : std::vector<Cmd>{{"SET", "s", v}, {"GET", "s"}, {"HSET", "h", f, v}, {"HGET", "h", f}, {"HGETALL", "h"}, {"SADD", "S", f}, {"SISMEMBER", "S", f}, {"SMEMBERS", "S"}, {"DEQUE_PUSH_BACK", "d", v, "x"}, {"DEQUE_POP_FRONT", "d"},
    {"LHSET", "l", f, "hint", v}, {"LHGET", "l", f, "hint"}, {"LHGET", "l", f}, {"VHSET", "v", f, v}, {"VHGETALL", "v"}, {"HDEL", "h", f}, {"SREM", "S", f}, {"LHDEL", "l", f}, {"VHDEL", "v", f}, {"KEYS", "*"}, {"CONFIG_SET", "c", v}, {"CONFIG_GET", "c"}, {"CONFIG_GETALL"}}) { kv::step(x, w, m, p, "op"); x.transition(); }
  x.visited(w.canon()); x.outcome(w.canon()); x.nontrivial();
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C01";
  c.rule = "every sequence of commands from a fixed alphabet up to the stated depth, states deduplicated on the raw store contents; each reply and, in every new state, every read command is compared with a reference model built from std::map/set/deque; a non-trivial state holds at least one key";
  c.assumptions = {"rocksdb behaves as an ordered map with atomic batches (in-memory stand-in; replayed against the real library in C06/C07)", "values outside the alphabets behave like those inside"};
  static Alphabet s = strings(), h = hashes(), st = sets(), d = deques(), m = mixed();
  c.spaces.push_back({"strings", [](mc::Ctx &x) { kv::runSequence(x, s, x.tier(7, 9)); }});
  c.spaces.push_back({"hashes", [](mc::Ctx &x) { kv::runSequence(x, h, x.tier(5, 7)); }});
  c.spaces.push_back({"sets", [](mc::Ctx &x) { kv::runSequence(x, st, x.tier(9, 12)); }});
  c.spaces.push_back({"deques", [](mc::Ctx &x) { kv::runSequence(x, d, x.tier(6, 7)); }});
  c.spaces.push_back({"mixed-types", [](mc::Ctx &x) { kv::runSequence(x, m, x.tier(4, 5)); }});
 c.spaces.push_back({"sizes", sizes});
  c.spaces.push_back({"values", values});
  return mc::main(argc, argv, c);
}
