//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "fakedb.hh"
#include "conn.hh"
#include "Commands.hh"
#include "Dispatcher.hh"
#include "StandaloneGroup.hh"
#include "StateMachine.hh"
#include "pubsub/Publisher.hh"
#include "redis/InternalFilter.hh"
#include "redis/LeaseFilter.hh"
#include "redis/Transaction.hh"
#include "storage/KeyConstants.hh"
using namespace quarkdb;
typedef std::vector<std::string> Cmd;
static std::string S(long n) { return std::to_string(n); }
static std::string show(const Cmd &c) { std::string s; for(auto &e : c) s += mc::quote(e) + " "; return s; }
static RedisRequest req(const Cmd &c) { RedisRequest r; for(auto &e : c) r.emplace_back(std::string(e)); return r; }
static Cmd cmd(const RedisRequest &r) { Cmd c; for(auto &e : r) c.emplace_back(e.sv()); return c; }
static vsched::Options opts() { vsched::Options o; o.preemptions = 0; o.races = false; o.orders = false; return o; }
static std::string canon(std::string s) { for(char &c : s) c = c == '-' ? '_' : (char)tolower((unsigned char)c); return s; }
static const std::vector<std::string> &names() {
  static std::vector<std::string> v; if(v.empty()) { for(auto &e : redis_cmd_map) v.push_back(e.first); for(auto s : {"LEASE-GET", "lease-ACQUIRE", "Lease_Release", "TIMESTAMPED-LEASE-GET", "timestamped-lease_acquire", "Timestamped_Lease-Release", "LEASE-GET ", "TIMESTAMPED_LEASE_ACQUIRE_", "nonsense"}) v.push_back(s); } return v;
}
static bool stamped(const std::string &n) { return canon(n).compare(0, 12, "timestamped_") == 0 && redis_cmd_map.count(canon(n)); }
static bool lease(const std::string &n) { auto c = canon(n); return c == "lease_get" || c == "lease_acquire" || c == "lease_release"; }
static const uint64_t kClocks[] = {0, 1, 255, 256, 1577836800000ull, 0x0102030405060708ull, 0x8000000000000000ull, 0xffffffffffffffffull};
static std::string be(uint64_t t) { std::string s(8, 0); for(int i = 7; i >= 0; i--) { s[i] = (char)(t & 255); t >>= 8; } return s; }
static Cmd pickCmd(mc::Ctx &x, const std::vector<std::string> &ns, int args) { Cmd c = {ns[x.choose((int)ns.size(), "command")]}; int n = x.choose(args + 1, "arguments"); static const std::string a[] = {"k", std::string("\0\r\n\xff", 4), "12345678", be(7)}; for(int i = 0; i < n; i++) c.push_back(a[i % 4]); return c; }
static void checkOne(mc::Ctx &x, const Cmd &before, const RedisRequest &r, uint64_t clock, bool invalid) {
  Cmd after = cmd(r);
  if(lease(before[0])) {
    Cmd want = before; want[0] = "timestamped_" + canon(before[0]); want.push_back(be(clock)); Cmd a = after; a[0] = canon(a[0]);
    x.check(a == want, "stamp", show(before) + "at clock " + std::to_string(clock) + " became " + show(after)); RedisRequest f = req(want);
    x.check(r.getCommand() == f.getCommand() && r.getCommandType() == f.getCommandType() && r.getCommandType() == CommandType::WRITE, "stamp-type", show(before) + ": the stamped command is classified wrongly"); x.nontrivial();
  } else {
    x.check(after == before, "changed", show(before) + "became " + show(after)); RedisRequest f = req(before);
    if(!invalid) x.check(r.getCommand() == f.getCommand() && r.getCommandType() == f.getCommandType(), "reclassified", show(before) + "is classified differently afterwards");
  }
}
// blocks of commands, as a dispatcher passes them through the filter
static void filter(mc::Ctx &x, int len) {
  static const std::vector<std::string> few = {"LEASE-GET", "lease_acquire", "lease-release", "SET", "get", "hset", "TIMESTAMPED_LEASE_GET", "flushall"};
  int n = 1 + x.choose(len, "length"); std::vector<Cmd> cs; Transaction t; for(int i = 0; i < n; i++) { cs.push_back(n == 1 ? pickCmd(x, names(), 4) : pickCmd(x, few, 2)); RedisRequest r = req(cs.back()); if(r.getCommandType() != CommandType::READ && r.getCommandType() != CommandType::WRITE) { if(lease(cs.back()[0])) x.fail("type", cs.back()[0] + " is neither read nor write"); return; } t.push_back(std::move(r)); }
  bool phantom = x.choose(2, "phantom"); t.setPhantom(phantom); uint64_t clock = kClocks[x.choose(8, "clock")]; bool wrote = t.containsWrites(); LeaseFilter::transform(t, clock); x.transition();
  x.check((int)t.size() == n && t.isPhantom() == phantom && t.containsWrites() == wrote, "block", "the block itself changed");
  for(int i = 0; i < n; i++) checkOne(x, cs[i], t[i], clock, false);
  // what reaches the log is what was transformed
  Transaction back; std::string ser = t.serialize(); back.deserialize(PinnedBuffer(std::string_view(ser))); x.check((int)back.size() == n, "logged", "size"); for(int i = 0; i < n; i++) { checkOne(x, cs[i], back[i], clock, false); x.check(back[i].getCommandType() == t[i].getCommandType(), "logged", "type"); }
  x.outcome(S(n) + cs[0][0]);
}
static void internal(mc::Ctx &x) {
  Cmd c = pickCmd(x, names(), 4); RedisRequest r = req(c); x.transition(); InternalFilter::process(r);
  x.check(cmd(r) == c, "changed", show(c) + "was changed"); if(stamped(c[0])) { x.check(r.getCommand() == RedisCommand::INVALID && r.getCommandType() == CommandType::INVALID, "forged", show(c) + "is let through"); x.nontrivial(); } else { RedisRequest f = req(c); x.check(f.getCommand() == r.getCommand() && f.getCommandType() == r.getCommandType(), "reclassified", show(c)); }
  x.outcome(c[0]); { auto ty = req(c).getCommandType(); if(ty != CommandType::READ && ty != CommandType::WRITE) return; }
  Transaction t; t.push_back(req({"get", "a"})); t.push_back(req(c)); bool inner = stamped(c[0]) || req(c).getCommand() == RedisCommand::TX_READONLY || req(c).getCommand() == RedisCommand::TX_READWRITE; x.check(InternalFilter::allowed(t) == !inner, "block", show(c) + (inner ? "is let through inside a block" : "is refused inside a block")); x.outcome(c[0] + S(inner));
}
// whatever a client sends, on a real connection in front of a real standalone server
static std::string packed(const std::vector<Cmd> &cs) { Transaction t; for(auto &c : cs) t.push_back(req(c)); return t.serialize(); }
static void client(mc::Ctx &x) {
  fakedb::wipeAll(); Publisher pub; StateMachine sm(mc::scratch() + "/sm"); StandaloneDispatcher d(sm, pub); conn::Client c;
  static const std::vector<std::string> forged = {"TIMESTAMPED_LEASE_ACQUIRE", "timestamped-lease-acquire", "Timestamped_LEASE-Release", "TIMESTAMPED_LEASE_RELEASE", "timestamped_lease_get", "TIMESTAMPED-LEASE-GET"};
  auto data = [&]() { auto m = fakedb::contents(mc::scratch() + "/sm"); return fakedb::canon(m); };
  vsched::advance(5000000000ull); bool held = x.choose(2, "held"); if(held) { c.feed(&d, resp::encode({"lease-acquire", "k", "me", "100000"})); auto v = c.take(); x.check(v.size() == 1 && v[0] == resp::status("ACQUIRED"), "acquire", "lease-acquire failed"); }
  std::string name = forged[x.choose(6, "command")]; Cmd f = {name, "k"}; if(canon(name) == "timestamped_lease_acquire") { f.push_back("you"); f.push_back("10"); } static const uint64_t at[] = {0, 1, 5000, 1000000000, 0xffffffffffffffffull}; if(x.choose(2, "stamp")) f.push_back(be(at[x.choose(5, "when")]));
  std::string before = data(), bytes; int how = x.choose(9, "how"); int errors = 1; std::vector<Cmd> around = {{"GET", "q"}};
  switch(how) {
    case 0: bytes = resp::encode(f); break;
    case 1: bytes = resp::encode({"GET", "q"}) + resp::encode(f) + resp::encode({"GET", "q"}); break;
    case 2: bytes = resp::encode({"MULTI"}) + resp::encode(f) + resp::encode({"EXEC"}); break;
    case 3: bytes = resp::encode({"MULTI"}) + resp::encode({"GET", "q"}) + resp::encode(f) + resp::encode({"EXEC"}); break;
    case 4: bytes = resp::encode({"TX_READWRITE", packed({f}), "real"}); break;
    case 5: bytes = resp::encode({"TX_READWRITE", packed({{"GET", "q"}, f}), "real"}); break;
    case 6: bytes = resp::encode({"TX_READONLY", packed({f}), "real"}); break;
    case 7: bytes = resp::encode({"TX_READWRITE", packed({{"TX_READWRITE", packed({f}), "real"}}), "real"}); break;
    case 8: bytes = resp::encode({"TX_READWRITE", packed({f}), "phantom"}); break;
  }
  x.transition(); int rc = c.feed(&d, bytes); auto v = c.take(); std::string got; for(auto &e : v) { got += e.show() + " "; if(e.type == '-') errors--; } x.log("  ", show(f), how, " -> ", got);
  x.check(rc == 1, "closed", "connection closed"); x.check(errors <= 0, "accepted", show(f) + "sent by a client (way " + S(how) + ") is not refused: " + got); x.check(data() == before, "effect", show(f) + "sent by a client (way " + S(how) + ") changed the store");
  // the clock must not have moved either: the lease still has its own deadline
  if(held) { c.feed(&d, resp::encode({"lease-get", "k"})); v = c.take(); x.check(v.size() == 1 && v[0].arr.size() == 2 && v[0].arr[0].str == "HOLDER: me" && v[0].arr[1].str == "REMAINING: 100000 ms", "lease", "the lease is now " + (v.empty() ? "-" : v[0].show())); }
  x.nontrivial(); x.outcome(S(how) + got);
}
// lease commands of clients are stamped with the clock of the server, alone, batched, in MULTI and packed
static void stampedOnce(mc::Ctx &x) {
  fakedb::wipeAll(); Publisher pub; StateMachine sm(mc::scratch() + "/sm"); StandaloneDispatcher d(sm, pub); conn::Client c; static const uint64_t ms[] = {0, 1, 250, 1000, 3600000};
  uint64_t t0 = vsched::now(); vsched::advance(ms[x.choose(5, "first")] * 1000000ull); Cmd a = {"LEASE-ACQUIRE", "k", "me", "1000"}, g = {"lease_get", "k"}; int how = x.choose(4, "how"); 
  auto send = [&](const std::vector<Cmd> &cs) { std::string b; if(how == 1) b += resp::encode({"MULTI"}); if(how == 2) b += resp::encode({"TX_READWRITE", packed(cs), "real"}); else for(auto &q : cs) b += resp::encode(q); if(how == 1) b += resp::encode({"EXEC"}); c.feed(&d, b); auto v = c.take(); std::vector<resp::Value> r; if(how == 1 || how == 2) r = v.back().arr; else r = v; return r; };
  std::vector<Cmd> first = {a}; if(how == 3) first = {{"SET", "z", "1"}, a, {"SET", "z", "2"}}; auto v = send(first); x.check(v.size() == first.size() && v[how == 3 ? 1 : 0] == resp::status("ACQUIRED"), "acquire", "not acquired");
  uint64_t acquired = vsched::now(); uint64_t wait = ms[x.choose(5, "wait")]; vsched::advance(wait * 1000000ull); v = send({g}); x.check(v.size() == 1, "get", "no reply"); uint64_t elapsed = (vsched::now() - t0) / 1000000 - (acquired - t0) / 1000000; x.transition(2); 
  if(elapsed >= 1000) x.check(v[0].type == '_', "expiry", "after " + S(elapsed) + " ms a lease of 1000 ms is " + v[0].show()); else { x.check(v[0].arr.size() == 2 && v[0].arr[0].str == "HOLDER: me", "expiry", "after " + S(elapsed) + " ms a lease of 1000 ms is " + v[0].show()); std::string left = v[0].arr[1].str; x.check(left == "REMAINING: " + S(1000 - (long)elapsed) + " ms", "expiry", "after " + S(elapsed) + " ms of 1000 there remain " + left); }
  x.nontrivial(); x.outcome(S(how) + S(elapsed));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C30"; Link::setConnectionLogging(false);
  c.rule = "Every command the server knows plus misspellings, with 0-4 arguments, at 8 clock values, and all blocks of up to 3 (thorough 4) of 8 commands, are passed through the real filters and the log encoding and compared with the rule; every already-stamped command in 6 spellings with and without a stamp of 5 values is sent in 9 ways (alone, between others, MULTI, packed, nested, batched) over a real connection to a standalone server with and without a held lease: it must be refused and change nothing; lease commands of clients are checked to carry the server's clock under virtual time. Non-trivial: a stamp was appended or a forged command refused.";
  c.spaces.push_back({"filter", [](mc::Ctx &x) { filter(x, x.tier(3, 4)); }});
  c.spaces.push_back({"internal", internal});
  c.spaces.push_back({"client", [](mc::Ctx &x) { mc::scratch(); vsched::run(x, opts(), [&]() { client(x); }); }});
  c.spaces.push_back({"server-clock", [](mc::Ctx &x) { mc::scratch(); vsched::run(x, opts(), [&]() { stampedOnce(x); }); }});
  return mc::main(argc, argv, c);
}
