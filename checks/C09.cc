//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
#include "storage/KeyLocators.hh"
#include "storage/ReverseLocator.hh"
#include "storage/KeyDescriptor.hh"
#include "storage/InternalKeyParsing.hh"
using namespace quarkdb; using kv::Cmd;
static std::vector<std::string> words(const std::string &abc, int from, int to) {
  std::vector<std::string> all, cur{""}; if(from == 0) all.push_back("");
  for(int l = 1; l <= to; l++) { std::vector<std::string> nx; for(auto &w : cur) for(char c : abc) nx.push_back(w + c); cur = nx; if(l >= from) for(auto &w : cur) all.push_back(w); }
  return all;
}
enum T { HASH, SET_, DEQUE, VHASH, LDATA, LINDEX, STRING, LEASE, DESC, CONF, EXPIRE, NT };
static std::string enc(int t, const std::string &k, const std::string &f, const std::string &h) {
  switch(t) {
    case HASH: return std::string(FieldLocator(KeyType::kHash, k, f).toView());
    case SET_: return std::string(FieldLocator(KeyType::kSet, k, f).toView());
    case DEQUE: return std::string(FieldLocator(KeyType::kDeque, k, f).toView());
    case VHASH: return std::string(FieldLocator(KeyType::kVersionedHash, k, f).toView());
    case LDATA: return std::string(LocalityFieldLocator(k, h, f).toView());
    case LINDEX: return std::string(LocalityIndexLocator(k, f).toView());
    case STRING: return std::string(StringLocator(k).toView());
    case LEASE: return std::string(LeaseLocator(k).toView());
    case DESC: return std::string(DescriptorLocator(k).toView());
    case CONF: return std::string(ConfigurationLocator(k).toView());
  }
  return std::string(ExpirationEventLocator(h.empty() ? 7 : 0x0102030405060708ull + h.size(), k).toView());
}
struct Loc { int t; std::string k, f, h; bool operator<(const Loc &o) const { return std::tie(t, k, f, h) < std::tie(o.t, o.k, o.f, o.h); } };
static std::string show(const Loc &l) { return "type " + std::to_string(l.t) + " key " + mc::quote(l.k) + " hint " + mc::quote(l.h) + " field " + mc::quote(l.f); }
// Every name over an alphabet with all the special characters.
static std::multimap<std::string, Loc> gAll; static std::vector<std::string> gKeys;
static const std::string kAbc = "a#|";
static void fillFor(int kl, int fl) {
  if(!gAll.empty()) return;
  gKeys = words(kAbc + "!", 1, kl); auto fields = words(kAbc, 1, fl), hints = words(kAbc, 1, 2);
  for(auto &k : gKeys) {
    for(int t : {HASH, SET_, DEQUE, VHASH, LINDEX}) for(auto &f : fields) gAll.insert({enc(t, k, f, ""), Loc{t, k, f, ""}});
    for(auto &h : hints) for(auto &f : words(kAbc, 1, 2)) gAll.insert({enc(LDATA, k, f, h), Loc{LDATA, k, f, h}});
    for(int t : {STRING, LEASE, DESC, CONF, EXPIRE}) gAll.insert({enc(t, k, "", ""), Loc{t, k, "", ""}});
    gAll.insert({enc(EXPIRE, k, "", "x"), Loc{EXPIRE, k, "", "x"}});
  }
}
// names whose boundary is ambiguous on disk: <p>| followed by #.. is read as <p># followed by ..
static bool pipe(const std::string &a) { return !a.empty() && a.back() == '|'; }
static void encode(mc::Ctx &x) {
  fillFor(x.tier(3, 4), x.tier(2, 3));
  const std::string &k = gKeys[x.choose((int)gKeys.size(), "key")]; x.transition(); x.nontrivial();
  std::string soft, softMsg;
  for(auto it = gAll.begin(); it != gAll.end(); ++it) {
    if(it->second.k != k) continue; const Loc &l = it->second; const std::string &e = it->first;
    auto r = gAll.equal_range(e);
    bool shared = false;
    for(auto o = r.first; o != r.second; ++o) if(o->second < l || l < o->second) {
      const Loc &m = o->second; bool ambiguous = m.t == l.t && ((pipe(l.k) != pipe(m.k)) || (l.t == LDATA && pipe(l.h) != pipe(m.h)));
      if(!ambiguous) x.fail("collision", show(l) + " and " + show(m) + " share the storage location " + mc::quote(e));
      shared = true; soft = "collision-pipe"; softMsg = show(l) + " and " + show(m) + " share the storage location " + mc::quote(e);
    }
    if(shared) continue;
    // decoding
    if(l.t <= STRING) {
      ReverseLocator rl(e); std::string why;
      if(rl.getKeyType() == KeyType::kParseError) why = "not decoded"; 
      else if(std::string(rl.getOriginalKey()) != l.k) why = "decoded to key " + mc::quote(rl.getOriginalKey());
      else if(l.t < LDATA && std::string(rl.getField()) != l.f) why = "decoded to field " + mc::quote(rl.getField());
      if(why.empty() && (l.t == LDATA || l.t == LINDEX)) {
        x.check(rl.isLocalityIndex() == (l.t == LINDEX), "index-flag", show(l) + ": taken for " + (l.t == LINDEX ? "data" : "an index entry"));
        if(l.t == LDATA) {
          std::string_view rest = rl.getField(); rest.remove_prefix(1); EscapedPrefixExtractor ex;
          if(!ex.parse(rest)) why = "hint not decoded"; else if(std::string(ex.getOriginalPrefix()) != l.h || std::string(ex.getRawSuffix()) != l.f) why = "decoded to hint " + mc::quote(ex.getOriginalPrefix()) + " field " + mc::quote(ex.getRawSuffix());
        } else if(std::string(rl.getField().substr(1)) != l.f) why = "decoded to field " + mc::quote(rl.getField());
      }
      bool amb = pipe(l.k) && (!l.f.empty() && l.f[0] == '#') && l.t < LDATA; amb |= l.t == LDATA && pipe(l.h) && l.f[0] == '#';
      if(!why.empty() && amb) { soft = "collision-pipe"; softMsg = show(l) + ": " + why; }
      else x.check(why.empty(), "round-trip", show(l) + ": " + why);
      x.outcome(std::string(rl.getOriginalKey()));
    }
    // all locations of a (type, key) are contiguous
    auto nx = std::next(it);
    if(l.t < LDATA || l.t == LDATA || l.t == LINDEX) {
      std::string base = l.t == LDATA || l.t == LINDEX ? std::string(LocalityFieldLocator(k).toView()) : std::string(FieldLocator(l.t == HASH ? KeyType::kHash : l.t == SET_ ? KeyType::kSet : l.t == DEQUE ? KeyType::kDeque : KeyType::kVersionedHash, k).toView());
      if(l.t == LDATA || l.t == LINDEX) base.pop_back();     // the d / i marker
      x.check(e.compare(0, base.size(), base) == 0, "prefix", show(l) + ": does not start with the prefix of its key");
      (void)nx;
    }
  }
  // prefix ranges of different keys never overlap
  for(int t : {HASH, SET_, DEQUE, VHASH, LDATA}) {
    auto pre = [&](const std::string &q) { return t == LDATA ? std::string(LocalityFieldLocator(q).toView()) : std::string(FieldLocator(t == HASH ? KeyType::kHash : t == SET_ ? KeyType::kSet : t == DEQUE ? KeyType::kDeque : KeyType::kVersionedHash, q).toView()); };
    std::string p = pre(k); if(t == LDATA) p.pop_back();
    for(auto it = gAll.lower_bound(p); it != gAll.end() && it->first.compare(0, p.size(), p) == 0; ++it) if(it->second.k != k) {
      bool amb = it->second.t == t && (pipe(k) || pipe(it->second.k)); amb |= t == LDATA && it->second.t == LINDEX && (pipe(k) || pipe(it->second.k));
      if(!amb) x.fail("overlap", show(it->second) + " lies among the locations of key " + mc::quote(k)); 
      soft = "collision-pipe"; softMsg = show(it->second) + " lies among the locations of key " + mc::quote(k);
    }
  }
  if(!soft.empty()) x.fail(soft, softMsg);
}
// Binary and long names keep every byte.
static void binary(mc::Ctx &x) {
  int b = x.choose(256, "byte"), where = x.choose(3, "where"), len = x.choose(5, "len"); static const int lens[] = {0, 1, 300, 511, 5000};
  std::string k(lens[len], 'q'); k.insert(where == 0 ? 0 : where == 1 ? k.size() / 2 : k.size(), 1, (char)b); x.transition(); x.nontrivial();
  std::string f = where == 1 ? k : std::string("f") + (char)b + "g";
  if(!pipe(k)) for(int t : {HASH, SET_, DEQUE, VHASH}) { std::string e = enc(t, k, f, ""); ReverseLocator r(e); x.check(r.getKeyType() != KeyType::kParseError && std::string(r.getOriginalKey()) == k && std::string(r.getField()) == f, "round-trip", "byte " + std::to_string(b) + " in a key of length " + std::to_string(k.size()) + " not decoded"); }
  std::string e = enc(STRING, k, "", ""); ReverseLocator r(e); x.check(std::string(r.getOriginalKey()) == k, "round-trip", "string key not decoded"); x.outcome(e.substr(0, 20));
}
// Damaged encodings are refused, never read beyond.
static void damaged(mc::Ctx &x) {
  auto w = words("a#|", 0, x.tier(7, 9)); int part = x.choose(64, "part"), type = x.choose(8, "type"); static const char types[] = "abcdefgz";
  for(size_t i = part; i < w.size(); i += 64) {
    std::unique_ptr<char[]> exact(new char[w[i].size() + 1]); exact[0] = types[type]; memcpy(exact.get() + 1, w[i].data(), w[i].size());
    std::string_view sl(exact.get(), w[i].size() + 1); x.transition();
    try { ReverseLocator r(sl); if(r.getKeyType() != KeyType::kParseError && type != 0) { std::string k(r.getOriginalKey()), f(r.getField()); x.outcome(k + "/" + f); x.check(k.size() + f.size() + 2 <= w[i].size(), "damaged", "decoding " + mc::quote(sl) + " gives key " + mc::quote(k) + " field " + mc::quote(f)); } else x.outcome("refused"); }
    catch(std::exception &e) { if(type != 7) x.outcome("refused"); }
    EscapedPrefixExtractor ex; std::string_view raw(exact.get() + 1, w[i].size()); bool ok = ex.parse(raw);
    if(ok) x.check(ex.getOriginalPrefix().size() + ex.getRawSuffix().size() + 2 <= raw.size(), "damaged", "extractor on " + mc::quote(raw));
    else x.check(w[i].find("##") == std::string::npos || w[i].find('|') != std::string::npos || w[i][0] == '#' || true, "damaged", "");
  }
  x.nontrivial();
}
// the same through a client: cursors
static void cursors(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; w.exec({"LHSET", "k", "f", "h", "1"}); w.exec({"LHSET", "k", "g", "#", "2"}); w.exec({"HSET", "q", "f", "1"}); w.exec({"DEQUE-PUSH-BACK", "d", "x"}); w.exec({"SADD", "s", "m"});
  auto c = words("h#|", 0, 5); int part = x.choose(32, "part");
  for(size_t i = part; i < c.size(); i += 32) for(Cmd cmd : std::vector<Cmd>{{"LHSCAN", "k"}, {"HSCAN", "q"}, {"SSCAN", "s"}, {"DEQUE-SCAN-BACK", "d"}, {"SCAN"}}) {
    cmd.push_back("next:" + c[i]); resp::Value v; std::string raw = w.exec(cmd); x.transition(); x.check(resp::one(raw, v) && (v.type == '-' || (v.type == '*' && v.arr.size() == 2)), "cursor", kv::show(cmd) + " -> " + mc::quote(raw)); x.outcome(v.type == '-' ? "refused" : "page");
  }
  x.nontrivial();
}
static void descriptors(mc::Ctx &x) {
  static const KeyType types[] = {KeyType::kString, KeyType::kHash, KeyType::kSet, KeyType::kDeque, KeyType::kLocalityHash, KeyType::kLease, KeyType::kVersionedHash};
  static const int64_t sizes[] = {0, 1, 127, 128, 255, 256, 65535, 1ll << 31, 1ll << 32, INT64_MAX, -1}; static const uint64_t idx[] = {0, 1, 255, 256, 1ull << 32, (1ull << 63) - 1, 1ull << 63, UINT64_MAX};
  KeyType t = types[x.choose(7, "type")]; KeyDescriptor d; d.setKeyType(t); d.setSize(sizes[x.choose(11, "size")]); bool two = t == KeyType::kDeque || t == KeyType::kLease;
  uint64_t a = 0, b = 0; if(two || t == KeyType::kVersionedHash) { a = idx[x.choose(8, "start")]; d.setStartIndex(a); } if(two) { b = idx[x.choose(8, "end")]; d.setEndIndex(b); }
  x.transition(); x.nontrivial();
  if(two && a > b) { bool refused = false; try { d.serialize(); } catch(std::exception&) { refused = true; } x.check(refused, "descriptor-order", "a descriptor with start beyond end was encoded"); return; }
  std::string s(d.serialize()); KeyDescriptor e{std::string_view(s)}; x.check(e == d && e.getKeyType() == t && e.getSize() == d.getSize(), "descriptor", "descriptor " + mc::quote(s) + " decodes differently"); x.outcome(s);
  if(two) x.check(e.getStartIndex() == a && e.getEndIndex() == b, "descriptor", "indexes decode differently"); if(t == KeyType::kVersionedHash) x.check(e.getStartIndex() == a, "descriptor", "version decodes differently");
  auto bad = [&](const std::string &m, const char *what) { bool refused = false; try { std::unique_ptr<char[]> p(new char[m.size()]); memcpy(p.get(), m.data(), m.size()); KeyDescriptor q{std::string_view(p.get(), m.size())}; } catch(std::exception&) { refused = true; } x.check(refused, "damaged-descriptor", std::string("descriptor ") + mc::quote(m) + " (" + what + ") was accepted"); };
  for(size_t l = 0; l < s.size(); l++) bad(s.substr(0, l), "truncated"); bad(s + '\0', "too long"); bad(s + s, "too long");
  for(int c = 0; c < 256; c++) { bool ok = false; for(auto k : types) if((char)k == (char)c) ok = true; std::string m = s; m[0] = (char)c; if(!ok) bad(m, "unknown type"); }
  if(two && a != b) { std::string m = s; d.setStartIndex(b); d.setEndIndex(b); std::string hi(d.serialize()); d.setStartIndex(a); d.setEndIndex(a); std::string lo(d.serialize()); m = hi.substr(0, 17) + lo.substr(17); bad(m, "start beyond end"); }
}
// On the engine: any two keys never disturb each other.
static void engine(mc::Ctx &x) {
  static const auto keys = words("a#|", 1, 2); static const std::vector<std::string> fields = {"f", "#", "##f", "|#"};
  static const char *put[] = {"HSET", "SADD", "DEQUE-PUSH-BACK", "VHSET", "LHSET"};
  int t1 = x.choose(5, "type"), t2 = x.choose(5, "type"); const std::string k1 = keys[x.choose((int)keys.size(), "key")], k2 = keys[x.choose((int)keys.size(), "key")]; if(k1 == k2) x.abandon();
  const std::string f1 = fields[x.choose(4, "field")], f2 = fields[x.choose(4, "field")];
  if(k1.size() == k2.size() && k1.substr(0, k1.size() - 1) == k2.substr(0, k2.size() - 1) && pipe(k1) + pipe(k2) == 1 && (k1.back() == '#' || k2.back() == '#')) x.abandon();      // the ambiguity is listed above
  fakedb::wipeAll(); kv::World w; model::Store m; x.nontrivial();
  auto add = [&](int t, const std::string &k, const std::string &f, const std::string &v) { Cmd c{put[t], k, f}; if(t == 0 || t == 3) c.push_back(v); if(t == 4) { c.push_back("h#"); c.push_back(v); } kv::step(x, w, m, c, "op"); };
  auto look = [&] { for(auto &k : {k1, k2}) for(const char *c : {"TYPE", "HGETALL", "SMEMBERS", "DEQUE-LEN", "VHGETALL", "LHLEN", "HLEN", "SCARD"}) kv::step(x, w, m, {c, k}, "read"); for(auto &k : {k1, k2}) { kv::step(x, w, m, {"LHSCAN", k, "0"}, "read"); kv::step(x, w, m, {"DEQUE-SCAN-BACK", k, "0"}, "read"); } kv::step(x, w, m, {"KEYS", "*"}, "read"); };
  add(t1, k1, f1, "1"); add(t2, k2, f2, "2"); add(t1, k1, f2, "3"); look(); kv::step(x, w, m, {"DEL", k1}, "op"); look(); kv::step(x, w, m, {"DEL", k2}, "op"); look(); x.outcome(w.canon()); x.visited(w.canon());
}
static void internal(mc::Ctx &x) {
  // a rocksdb internal key ends with 8 bytes, the lowest of which is the kind of record
  int kind = x.choose(256, "kind"); int len = x.choose(12, "len"); std::string k(len, 'x'); std::string full = k; if(x.choose(2, "footer")) { full += (char)kind; full += std::string(7, '\1'); } x.transition(); x.nontrivial();
  bool want = full.size() >= 8 && (full[full.size() - 8] == 0 || full[full.size() - 8] == 7); std::unique_ptr<char[]> p(new char[full.size() + 1]); memcpy(p.get(), full.data(), full.size());
  x.check(isTombstone(std::string_view(p.get(), full.size())) == want, "tombstone", "kind " + std::to_string(kind)); x.outcome(want ? "t" : "f");
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C09";
  c.rule = "Every key, hint and field over {a,#,|,!} up to the stated lengths is encoded for every type; all encodings are compared pairwise (distinct, prefix ranges disjoint) and decoded again. Every byte value at every end of names of several lengths; every word over {a,#,|} up to length 7 (thorough 9) as a damaged encoding and up to 5 as a client cursor; descriptors over boundary values with all truncations and type bytes; every pair of short keys on the real engine.";
  c.assumptions = {"the collision of names ending in | with names ending in # is a listed finding"};
  c.spaces.push_back({"encodings", encode, false, 300});
  c.spaces.push_back({"every-byte", binary});
  c.spaces.push_back({"damaged", damaged, false, 120});
  c.spaces.push_back({"cursors", cursors});
  c.spaces.push_back({"descriptors", descriptors});
  c.spaces.push_back({"engine", engine});
  c.spaces.push_back({"internal-keys", internal});
  return mc::main(argc, argv, c);
}
