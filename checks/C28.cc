//@ sources: *
//@ lib: fakedb nothreads
//@ flags: -fsanitize=address
#include "kv.hh"
#include "Commands.hh"
#include "raft/RaftJournal.hh"
#include "redis/InternalFilter.hh"
#include "storage/KeyConstants.hh"
#include <set>
using namespace quarkdb;
typedef kv::Cmd Cmd;
static std::string show(const std::vector<Cmd> &t) { std::string s; for(auto &c : t) s += "[" + kv::show(c).substr(0, 60) + "] "; return s; }
static bool writes(const std::string &name) {           // what the documentation calls a write; leases always are
  static const std::set<std::string> reads = {"get", "exists", "keys", "scan", "hget", "hexists", "hkeys", "hgetall", "hlen", "hvals", "hscan", "sismember", "smembers", "scard", "sscan", "deque_len", "deque_scan_back", "config_get", "config_getall", "lhget", "lhlen", "lhscan", "lhget_with_fallback", "clock_get", "type", "vhgetall", "vhlen", "lease_get_pending_expiration_events", "raw_scan", "raw_get_all_versions", "raw_scan_tombstones"};
  std::string n; for(char ch : name) n += ch == '-' ? '_' : (char)tolower(ch); return !reads.count(n);
}
static const std::vector<std::string> &texts() { static std::vector<std::string> v = {"", "a", std::string("\0", 1), "\r\n", "*3\r\n$3\r\n", "\xff\xfe", std::string(255, 'x'), std::string(256, '\0'), std::string(70000, 'y'), std::string("\0\0\0\0\0\0\0\1", 8)}; return v; }
static std::vector<Cmd> some() {
  std::vector<Cmd> v;
  for(auto &t : texts()) { v.push_back({"SET", t, "v"}); v.push_back({"get", t}); v.push_back({"hset", "h", t, t}); }
  v.push_back({"HMSET", "h", "a", "", "", "b", std::string("\0\n", 2)}); v.push_back({"TIMESTAMPED_LEASE_ACQUIRE", "l", "v", "10", std::string(8, '\0')}); v.push_back({"lease-get", "l"}); v.push_back({"GET"}); v.push_back({"FLUSHALL"}); v.push_back({"vhset", "k", "f", "v"}); v.push_back({"VHGETALL", "k"}); v.push_back({"del", "", "", ""}); return v;
}
static bool same(const RedisRequest &r, const Cmd &c) { if(r.size() != c.size()) return false; for(size_t i = 0; i < c.size(); i++) if(r[i] != c[i]) return false; return true; }
static void expectTx(mc::Ctx &x, const Transaction &t, const std::vector<Cmd> &cs, bool phantom, const std::string &where) {
  bool w = false; for(auto &c : cs) w = w || writes(c[0]);
  x.check(t.size() == cs.size() && t.empty() == cs.empty(), "size", where + ": " + show(cs) + " has " + std::to_string(t.size()) + " commands");
  for(size_t i = 0; i < cs.size(); i++) { x.check(same(t[i], cs[i]), "command", where + ": command " + std::to_string(i) + " of " + show(cs)); x.check((t[i].getCommandType() == CommandType::WRITE) == writes(cs[i][0]) && t[i].getCommand() != RedisCommand::INVALID, "type", where + ": type of command " + std::to_string(i) + " of " + show(cs)); }
  x.check(t.containsWrites() == w, "classification", where + ": " + show(cs) + (w ? " should count as writing" : " should not count as writing"));
  x.check(t.isPhantom() == phantom && t.expectedResponses() == (phantom ? (int64_t)cs.size() : 1), "responses", where + ": " + show(cs) + " expects " + std::to_string(t.expectedResponses()) + " responses");
}
static void roundtrip(mc::Ctx &x, const std::vector<Cmd> &cs, bool phantom) {
  Transaction t; for(auto &c : cs) t.push_back(kv::req(c)); t.setPhantom(phantom); x.transition(); expectTx(x, t, cs, phantom, "built");
  bool w = t.containsWrites(); Transaction d; std::string ser = t.serialize(); { PinnedBuffer *b = new PinnedBuffer(ser); bool ok = d.deserialize(*b); delete b; x.check(ok, "refused", "decoding " + show(cs)); } d.setPhantom(phantom); expectTx(x, d, cs, phantom, "decoded"); x.check(d == t && d.serialize() == ser, "encoding", "encoding again gives something else: " + show(cs));
  RedisRequest r = t.toRedisRequest(); x.check(t.getFusedCommand() == (w ? "TX_READWRITE" : "TX_READONLY"), "fused", "fused name of " + show(cs));
  if(phantom && cs.size() == 1) { x.check(same(r, cs[0]) && r.getCommand() == t[0].getCommand(), "single", "a batch of one is " + r.toPrintableString()); Transaction one{kv::req(cs[0])}; expectTx(x, one, cs, true, "single"); }
  else {
    x.check(r.size() == 3 && r.getCommand() == (w ? RedisCommand::TX_READWRITE : RedisCommand::TX_READONLY) && r.getCommandType() == (w ? CommandType::WRITE : CommandType::READ), "request", "request for " + show(cs));
    // the log keeps requests as entries
    RaftEntry e(7, RedisRequest(r)), f; x.check(RaftEntry::deserialize(f, e.serialize()) != false && f.term == 7 && f.request == r && f.request.getCommand() == r.getCommand(), "entry", "log entry for " + show(cs));
    Transaction a, b; a.fromRedisRequest(f.request); expectTx(x, a, cs, phantom, "from the log"); x.check(b.deserialize(f.request), "refused", "decoding from a request " + show(cs)); expectTx(x, b, cs, phantom, "from a request");
    RedisRequest other; for(size_t i = 0; i < 3; i++) other.push_back(i ? r[i] : std::string_view(w ? "TX_READONLY" : "TX_READWRITE")); Transaction o; x.check(!o.deserialize(other), "mismatch", "accepted with the wrong classification: " + show(cs));
  }
  Transaction cl; for(auto &c : cs) cl.push_back(kv::req(c)); cl.clear(); expectTx(x, cl, {}, false, "cleared"); x.nontrivial(); x.outcome(std::to_string(mc::hash(ser)) + (phantom ? "p" : ""));
}
// what decoding may return for arbitrary bytes: exactly the commands a plain reader finds, or a refusal
static bool plain(std::string_view s, std::vector<Cmd> &out) {
  size_t pos = 0; auto num = [&](int64_t &v) { if(s.size() - pos < 8) return false; uint64_t u = 0; for(int i = 0; i < 8; i++) u = u << 8 | (unsigned char)s[pos++]; v = (int64_t)u; return true; };
  int64_t n, p, l; if(!num(n) || n < 0) return false;
  for(int64_t i = 0; i < n; i++) { Cmd c; if(!num(p)) return false; for(int64_t k = 0; k < p; k++) { if(!num(l) || l < 0 || (uint64_t)l > s.size() - pos) return false; c.push_back(std::string(s.substr(pos, l))); pos += l; } RedisRequest r = kv::req(c); if(c.empty() || (r.getCommandType() != CommandType::READ && r.getCommandType() != CommandType::WRITE)) return false; out.push_back(c); }
  return pos == s.size();
}
static void arbitrary(mc::Ctx &x, const std::string &s, const std::string &what) {
  std::vector<Cmd> want; bool ok = plain(s, want); Transaction t; x.transition(); char *p = new char[s.size()]; memcpy(p, s.data(), s.size()); PinnedBuffer b(nullptr, nullptr, 0); auto region = MemoryRegion::Construct(s.size() + 1); PinnedBuffer pb = *region->allocate(s.size()); memcpy(pb.data(), p, s.size()); delete[] p;
  bool got = t.deserialize(pb); x.check(got == ok, "malformed", what + (got ? " accepted: " : " refused: ") + mc::quote(s.substr(0, 80)));
  if(got) { x.check(t.size() == want.size(), "malformed", what); for(size_t i = 0; i < want.size(); i++) x.check(same(t[i], want[i]), "malformed", what + ": command " + std::to_string(i)); x.nontrivial(); }
}
static void damaged(mc::Ctx &x) {
  static std::vector<std::vector<Cmd>> base = {{{"SET", "a", "b"}}, {{"GET", "a"}}, {{"SET", "a", ""}, {"GET", ""}}, {{"hset", "h", "f", std::string("\0", 1)}, {"get", "x"}, {"del", "q"}}, {}};
  auto &cs = base[x.choose((int)base.size(), "transaction")]; Transaction t; for(auto &c : cs) t.push_back(kv::req(c)); std::string s = t.serialize(); int how = x.choose(4, "damage"), at = x.choose((int)s.size() + 1, "position");
  if(how == 0) arbitrary(x, s.substr(0, at), "truncated");
  else if(how == 1) { if(at < (int)s.size()) for(int v = 0; v < 256; v++) { std::string d = s; d[at] = (char)v; arbitrary(x, d, "one byte changed"); } }
  else if(how == 2) { for(int v : {0, 1, 255}) { std::string d = s; d.insert(at, 1, (char)v); arbitrary(x, d, "one byte inserted"); } }
  else { for(uint64_t v : {(uint64_t)0, (uint64_t)1, (uint64_t)2, (uint64_t)9, UINT64_MAX, (uint64_t)INT64_MAX, (uint64_t)1 << 63, UINT64_MAX - 7, (uint64_t)1 << 32, UINT64_MAX - s.size(), UINT64_MAX - at - 7}) { std::string d = s; for(int i = 0; i < 8 && at + i < (int)d.size(); i++) d[at + i] = (char)(v >> (56 - 8 * i)); if(v > 100 && at % 8 == 0 && v <= INT64_MAX && at == 0) continue; arbitrary(x, d, "a number replaced"); } }
  x.outcome(std::to_string(how) + std::to_string(at));
}
static void requests(mc::Ctx &x) {        // complete requests with a wrong shape
  Transaction t; if(x.choose(2, "contents")) t.push_back(kv::req({"SET", "a", "b"})); else t.push_back(kv::req({"GET", "a"})); std::string s = t.serialize();
  static const char *names[] = {"TX_READWRITE", "tx_readonly", "MULTIOP_READWRITE", "multiop_read", "GET", "TX_READ", "EXEC", ""}; static const char *kinds[] = {"phantom", "real", "", "Real", "phantomx", "rea"};
  int n = x.choose(8, "name"), k = x.choose(6, "kind"), shape = x.choose(5, "shape"); Cmd c = {names[n], shape == 3 ? s + "x" : shape == 4 ? std::string() : s, kinds[k]}; if(shape == 1) c.pop_back(); if(shape == 2) c.push_back("x");
  bool w = t.containsWrites(), ok = shape == 0 && k < 2 && ((w && (n == 0 || n == 2)) || (!w && (n == 1 || n == 3))); Transaction d; x.transition(); bool got = d.deserialize(kv::req(c)); x.check(got == ok, "shape", kv::show(c) + (got ? " accepted" : " refused")); if(got) { x.check(d.isPhantom() == (k == 0) && d.containsWrites() == w, "shape", "kind lost"); x.nontrivial(); } x.outcome(std::to_string(n * 100 + k * 10 + shape));
}
static void commands(mc::Ctx &x) {        // every command known to the server, in every position of a block
  static std::vector<std::string> names; if(names.empty()) for(auto &e : redis_cmd_map) names.push_back(e.first);
  std::string n = names[x.choose((int)names.size(), "command")]; int style = x.choose(3, "spelling"); if(style == 1) for(auto &ch : n) ch = toupper(ch); if(style == 2) for(auto &ch : n) if(ch == '_') ch = '-';
  RedisRequest r = kv::req({n, "a", "b"}); bool rw = r.getCommandType() == CommandType::READ || r.getCommandType() == CommandType::WRITE; bool tx = r.getCommand() == RedisCommand::TX_READONLY || r.getCommand() == RedisCommand::TX_READWRITE;
  Transaction probe; std::string s; s += std::string(7, 0) + '\1' + std::string(7, 0) + '\1' + std::string(7, 0) + (char)n.size() + n; bool got = probe.deserialize(PinnedBuffer(s)); x.transition(); x.check(got == rw, "kind", n + (got ? " accepted" : " refused") + " inside a transaction"); if(!rw || tx) { x.outcome(n); return; }
  Cmd c = {n, "a", "b"}; for(int p = 0; p < 2; p++) { roundtrip(x, {c}, p); roundtrip(x, {{"GET", "z"}, c}, p); roundtrip(x, {c, {"GET", "z"}, {"TYPE", "y"}}, p); }
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C28";
  c.rule = "All blocks of up to 2 (thorough 3) commands out of 38 with binary, empty and long arguments, real and batched, and every known command in every spelling and position, encoded, put in a log entry, decoded and compared; every truncation, every single-byte change and insertion and every replacement of a length field of encoded transactions, compared with a plain reader; all wrong shapes of the enclosing request. Runs under AddressSanitizer. Non-trivial: something was decoded and compared.";
  c.spaces.push_back({"blocks", [](mc::Ctx &x) { static std::vector<Cmd> all = some(); std::vector<Cmd> cs; int max = x.tier(2, 3); bool ph = x.choose(2, "batched"); while((int)cs.size() < max) { int k = x.choose((int)all.size() + 1, "command"); if(k == (int)all.size()) break; cs.push_back(all[k]); } if(!cs.empty() || !ph) roundtrip(x, cs, ph); }});
  c.spaces.push_back({"commands", commands});
  c.spaces.push_back({"damaged", damaged});
  c.spaces.push_back({"shapes", requests});
  return mc::main(argc, argv, c);
}
