//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
using kv::Cmd; using Tx = std::vector<Cmd>;
static void pending(mc::Ctx &x, kv::World &w, model::Store &m) {
  resp::Value got; std::string raw = w.exec({"LEASE_GET_PENDING_EXPIRATION_EVENTS"});
  x.check(resp::one(raw, got) && got.type == '*' && got.arr.size() >= 2, "pending-malformed", "malformed pending list " + mc::quote(raw));
  std::vector<std::pair<uint64_t, std::string>> l; for(auto &k : m.keys) if(k.second.type == 'L') l.push_back({k.second.deadline, k.first});
  std::sort(l.begin(), l.end());
  std::vector<std::string> want, have; for(auto &e : l) want.push_back(std::to_string(e.first) + ": " + e.second);
  for(size_t i = 2; i < got.arr.size(); i++) have.push_back(got.arr[i].str);
  x.check(got.arr[0].str == "STATIC-CLOCK: " + std::to_string(m.clock), "clock", "clock reported as " + got.arr[0].str + ", expected " + std::to_string(m.clock));
  std::string a, b; for(auto &s : want) a += s + "; "; for(auto &s : have) b += s + "; ";
  x.check(want == have, "pending-list", "pending expiration events: " + b + " expected: " + a);
  quarkdb::ClockValue c; w.sm->getClock(c); x.check(c == m.clock, "clock", "getClock gives " + std::to_string(c));
}
static void run(mc::Ctx &x, const std::vector<Tx> &txs, int depth, bool resets) {
  fakedb::wipeAll(); kv::World w; model::Store m; uint64_t stale = 0;   // leases alive when the store was last reset: memory could still hold them
  for(int d = depth; d > 0; d--) {
    int n = (int)txs.size(), i = x.choose(n + 1 + resets, "tx"); x.transition();
    if(i == n) { x.log("  reopen"); w.close(); w.open(); stale = 0; }
    else if(i == n + 1) { x.log("  reset"); stale = mc::hash(kv::modelCanon(m)); w.sm->reset(); m = model::Store(); }
    else if(txs[i].size() == 1) kv::step(x, w, m, txs[i][0], "op");
    else {
      m.beginTx(); std::vector<resp::Value> want; for(auto &c : txs[i]) want.push_back(m.exec(c));
      resp::Value got; x.check(resp::one(w.tx(txs[i]), got) && got.arr.size() == want.size(), "tx-reply", "malformed transaction reply");
      for(size_t j = 0; j < want.size(); j++) { x.log("  tx ", kv::show(txs[i][j]), " -> ", got.arr[j].show()); x.check(model::same(txs[i][j][0], got.arr[j], want[j]), "tx:" + kv::sigOf(txs[i][j]), kv::show(txs[i][j]) + ": got " + got.arr[j].show() + ", expected " + want[j].show()); }
    }
    if(x.visited(mc::mix(mc::mix(mc::hash(w.canon()), mc::hash(kv::modelCanon(m))), stale), d - 1)) x.abandon();
    if(!m.keys.empty()) x.nontrivial();
    pending(x, w, m);
    for(std::string k : {"a", "b"}) { kv::step(x, w, m, {"TYPE", k}, "read"); kv::step(x, w, m, {"EXISTS", k}, "read"); kv::step(x, w, m, {"GET", k}, "read"); }
    kv::step(x, w, m, {"KEYS", "*"}, "read");
    x.outcome(kv::modelCanon(m));
  }
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C04";
  c.rule = "Every sequence of lease operations (acquisitions, renewals, releases, reads with clock values before, at and after the deadlines, deletions, reopening, transactions) up to the stated length; replies, the clock and the pending-expiration list are compared with a plain list of leases after every step.";
  c.assumptions = {"RocksDB is replaced by an in-memory ordered store which also refuses a single-delete of a key written more than once"};
  auto acq = [](std::string k, std::string v, std::string d, uint64_t t) { return Cmd{"TIMESTAMPED_LEASE_ACQUIRE", k, v, d, kv::ts(t)}; };
  auto get = [](std::string k, uint64_t t) { return Cmd{"TIMESTAMPED_LEASE_GET", k, kv::ts(t)}; };
  auto rel = [](std::string k, uint64_t t) { return Cmd{"TIMESTAMPED_LEASE_RELEASE", k, kv::ts(t)}; };
  std::vector<Tx> one, two, odd;
  for(uint64_t t : {5, 14, 15, 16, 25}) { for(std::string v : {"x", "y"}) one.push_back({acq("a", v, "10", t)}); one.push_back({get("a", t)}); one.push_back({rel("a", t)}); }
  one.push_back({acq("a", "x", "1", 15)}); one.push_back({acq("a", "x", "11", 4)}); one.push_back({{"DEL", "a"}});
  for(std::string k : {"a", "b"}) { for(uint64_t t : {5, 14, 15}) { two.push_back({acq(k, "x", "10", t)}); two.push_back({acq(k, "y", "1", t)}); two.push_back({get(k, t)}); } two.push_back({rel(k, 6)}); two.push_back({{"DEL", k}}); }
  two.push_back({get("c", 25)}); two.push_back({{"FLUSHALL"}}); two.push_back({{"SET", "b", "v"}}); two.push_back({{"DEL", "a", "b"}});
  odd = {{acq("a", "x", "10", 5)}, {acq("a", "x", "0", 5)}, {acq("a", "x", "-1", 50)}, {acq("a", "x", "z", 50)}, {acq("b", "holder with a long name", "9223372036854775807", 5)}, {acq("a", "x", "10", 5), acq("a", "x", "10", 5)}, {acq("a", "x", "10", 5), acq("a", "x", "20", 6), acq("b", "x", "9", 6)},
    {acq("a", "x", "10", 5), rel("a", 5), acq("a", "y", "10", 5)}, {acq("a", "x", "10", 5), get("a", 15), acq("a", "y", "10", 15)}, {acq("a", "x", "10", 5), {"DEL", "a"}, acq("a", "y", "3", 5)}, {acq("b", "x", "10", 5), {"FLUSHALL"}, get("b", 16)},
    {get("a", 15)}, {get("b", 16)}, {rel("b", 40)}, {{"SET", "a", "v"}}, {{"HSET", "b", "f", "v"}}, {{"DEL", "a", "b"}}, {{"FLUSHALL"}}, {get("a", uint64_t(1) << 40)}};
  odd.push_back({{"TIMESTAMPED_LEASE_ACQUIRE", "a", "x", "10"}}); odd.push_back({{"TIMESTAMPED_LEASE_GET", "a"}});
  c.spaces.push_back({"one-lease", [one](mc::Ctx &x) { run(x, one, x.tier(12, 20), false); }});
  c.spaces.push_back({"two-leases", [two](mc::Ctx &x) { run(x, two, x.tier(10, 16), false); }});
  c.spaces.push_back({"transactions", [odd](mc::Ctx &x) { run(x, odd, x.tier(9, 14), false); }});
  std::vector<Tx> few = {odd[0], {acq("a", "y", "20", 5)}, {acq("b", "x", "10", 5)}, {get("a", 14)}, {get("b", 15)}, {rel("a", 6)}, odd[10]};
  c.spaces.push_back({"resets", [few](mc::Ctx &x) { run(x, few, x.tier(7, 9), true); }});
  return mc::main(argc, argv, c);
}
