//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
#include "conn.hh"
#include "storage/KeyConstants.hh"
using kv::Cmd;
static Cmd sp(const std::string &s) { Cmd c; std::string w; for(char ch : s) { if(ch == ' ') { c.push_back(w); w.clear(); } else w += ch; } c.push_back(w); return c; }
struct Sets { std::vector<std::vector<Cmd>> before; std::vector<Cmd> cmds; };
// blocks over a single key of a kind, and over keys of several kinds
static Sets hashes() {
  Sets s; s.before = {{}, {{"HSET", "k", "f", "1"}}, {{"HMSET", "k", "f", "1", "g", "2"}}, {{"SET", "k", "x"}}};
  for(auto c : {"HSET k f 2", "HSET k g 3", "HSETNX k f 9", "HDEL k f", "HDEL k f g", "HINCRBY k f 5", "HCLONE k q", "DEL k", "HGET k f", "HLEN k", "HGETALL k", "HEXISTS k g", "HSCAN k 0", "HVALS k", "EXISTS k", "TYPE k", "KEYS *", "SCAN 0", "SET k v", "GET k", "HGET q f", "FLUSHALL"}) s.cmds.push_back(sp(c));
  return s;
}
static Sets sets() {
  Sets s; s.before = {{}, {{"SADD", "k", "a"}}, {{"SADD", "k", "a", "b"}, {"SADD", "q", "b"}}, {{"HSET", "k", "a", "x"}}};
  for(auto c : {"SADD k a", "SADD k b c", "SREM k a", "SREM k a b", "SMOVE k q a", "SMOVE q k b", "SISMEMBER k a", "SISMEMBER k b", "SISMEMBER q a", "SMEMBERS k", "SSCAN k 0", "SCARD k", "SCARD q", "DEL k", "EXISTS k q", "TYPE q", "FLUSHALL"}) s.cmds.push_back(sp(c));
  return s;
}
static Sets deques() {
  Sets s; s.before = {{}, {{"DEQUE-PUSH-BACK", "k", "a"}}, {{"DEQUE-PUSH-BACK", "k", "a", "b"}, {"DEQUE-PUSH-FRONT", "k", "z"}}};
  for(auto c : {"DEQUE-PUSH-BACK k a", "DEQUE-PUSH-FRONT k b c", "DEQUE-POP-BACK k", "DEQUE-POP-FRONT k", "DEQUE-TRIM-FRONT k 1", "DEQUE-CLEAR k", "DEQUE-LEN k", "DEQUE-SCAN-BACK k 0", "DEL k", "EXISTS k", "SET k v", "GET k", "CONFIG-SET a b", "CONFIG-GET a", "CONFIG-GETALL"}) s.cmds.push_back(sp(c));
  return s;
}
static Sets lhashes() {
  Sets s; s.before = {{}, {{"LHSET", "k", "f", "h", "1"}}, {{"LHMSET", "k", "f", "h", "1", "g", "i", "2"}, {"HSET", "q", "f", "5"}}};
  for(auto c : {"LHSET k f h 2", "LHSET k f i 3", "LHSET k g h 4", "LHDEL k f", "LHLOCDEL k f h", "LHGET k f", "LHGET k f h", "LHGET k f i", "LHLEN k", "LHSCAN k 0", "LHSCAN k 0 MATCHLOC h", "LHSET-AND-DEL-FALLBACK k f h 6 q", "LHDEL-WITH-FALLBACK k f q", "LHGET-WITH-FALLBACK k f q", "CONVERT-HASH-FIELD-TO-LHASH q f k f h", "HGET q f", "HLEN q", "DEL k", "EXISTS k q"}) s.cmds.push_back(sp(c));
  return s;
}
// versioned hashes and leases: versions step once per block, so only the replies which do not depend on it
static Sets leases() {
  Sets s; s.before = {{}, {{"TIMESTAMPED_LEASE_ACQUIRE", "k", "x", "10", kv::ts(5)}}, {{"TIMESTAMPED_LEASE_ACQUIRE", "k", "x", "10", kv::ts(5)}, {"TIMESTAMPED_LEASE_ACQUIRE", "q", "y", "20", kv::ts(6)}}, {{"SET", "k", "s"}}};
  for(uint64_t t : {5, 15, 30}) { s.cmds.push_back({"TIMESTAMPED_LEASE_ACQUIRE", "k", "x", "10", kv::ts(t)}); s.cmds.push_back({"TIMESTAMPED_LEASE_ACQUIRE", "k", "y", "5", kv::ts(t)}); s.cmds.push_back({"TIMESTAMPED_LEASE_GET", "k", kv::ts(t)}); s.cmds.push_back({"TIMESTAMPED_LEASE_RELEASE", "q", kv::ts(t)}); }
  for(auto c : {"DEL k", "EXISTS k q", "TYPE k", "FLUSHALL", "SET q v", "GET q"}) s.cmds.push_back(sp(c));
  return s;
}
static void block(mc::Ctx &x, const Sets &s, int len) {
  fakedb::wipeAll(); kv::World a("a"), b("b"); model::Store m;
  for(auto &c : s.before[x.choose((int)s.before.size(), "before")]) { a.exec(c); b.exec(c); m.beginTx(); m.exec(c); }
  bool phantom = x.choose(2, "phantom"), shared = x.choose(2, "log") == 1;
  int n = x.choose(len, "length") + 1; std::vector<Cmd> cs; bool writes = false;
  for(int i = 0; i < n; i++) { cs.push_back(s.cmds[x.choose((int)s.cmds.size(), "cmd")]); if(kv::req(cs.back()).getCommandType() == quarkdb::CommandType::WRITE) writes = true; }
  if(shared && !writes) x.abandon();
  auto before = a.contents(); int records = 0; std::string path = a.path;
  fakedb::gOnWrite = [&](const std::string &p, const fakedb::Record &) { if(p == path) records++; };
  quarkdb::LogIndex at = shared ? a.sm->getLastApplied() + 1 : 0;
  std::string raw = a.tx(cs, phantom, at); fakedb::gOnWrite = nullptr; x.transition();
  x.check(records == (writes ? 1 : 0), "not-atomic", "a block of " + std::to_string(n) + " commands made " + std::to_string(records) + " storage writes");
  std::vector<resp::Value> got; size_t pos = 0; std::string_view sv(raw);
  if(!phantom) { resp::Value v; x.check(resp::one(raw, v) && v.type == '*', "reply-form", "reply of the block: " + mc::quote(raw)); got = v.arr; }
  else while(pos < sv.size()) { resp::Value v; x.check(resp::parse(sv, pos, v) == 1, "reply-form", "reply of the batch: " + mc::quote(raw)); got.push_back(v); }
  x.check(got.size() == cs.size(), "reply-count", std::to_string(got.size()) + " replies to " + std::to_string(cs.size()) + " commands");
  std::string all;
  for(int i = 0; i < n; i++) {
    m.beginTx(); resp::Value single; x.check(resp::one(b.exec(cs[i]), single), "single", "malformed reply");
    x.log("  ", kv::show(cs[i]), " -> in the block ", got[i].show(), ", alone ", single.show()); all += kv::show(cs[i]) + ";";
    x.check(got[i] == single, "reply:" + kv::sigOf(cs[i]), all + " command " + kv::show(cs[i]) + " gave " + got[i].show() + " inside a block but " + single.show() + " alone");
    if(model::Store::canonName(cs[i][0]).find("scan") == std::string::npos || cs[i][0].substr(0, 2) == "LH" || cs[i][0][0] == 'D') { resp::Value want = m.exec(cs[i]); x.check(model::same(cs[i][0], got[i], want), "model:" + kv::sigOf(cs[i]), kv::show(cs[i]) + ": got " + got[i].show() + ", expected " + want.show()); }
    x.outcome(got[i].show());
  }
  auto after = a.contents(), want = b.contents(); 
  x.check(a.sm->getLastApplied() == at, "last-applied", "last applied is " + std::to_string(a.sm->getLastApplied()));
  std::string la; for(auto *c : {&after, &want}) for(auto it = c->begin(); it != c->end();) if(it->first == quarkdb::KeyConstants::kStateMachine_LastApplied) it = c->erase(it); else ++it;
  x.check(after == want, "contents", "after [" + all + "] as a block the store holds\n" + mc::quote(fakedb::canon(after)) + "\none by one\n" + mc::quote(fakedb::canon(want)));
  if(writes && after != before) x.nontrivial(); x.visited(fakedb::canon(after));
}
// MULTI / EXEC through a connection: nothing is visible before EXEC, another connection sees all or nothing
static void client(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World w; model::Store m; conn::Client a, b;
  static const std::vector<Cmd> cmds = {{"SET", "s", "1"}, {"HSET", "k", "f", "2"}, {"GET", "s"}, {"HGET", "k", "f"}, {"DEL", "k"}, {"SISMEMBER", "t", "a"}, {"SADD", "t", "a"}, {"SET", "k", "x"}, {"HSET", "k"}, {"PING"}, {"NOSUCH", "x"}, {"MULTI"}, {"VHSET", "v", "f", "1"}, {"VHGETALL", "v"}};
  auto enc = [](const Cmd &c) { std::string s = "*" + std::to_string(c.size()) + "\r\n"; for(auto &e : c) s += "$" + std::to_string(e.size()) + "\r\n" + e + "\r\n"; return s; };
  if(x.choose(2, "before")) { a.feed(w.disp.get(), enc({"HSET", "k", "f", "old"})); m.exec({"HSET", "k", "f", "old"}); a.take(); }
  std::string start = w.canon();
  a.feed(w.disp.get(), enc({"MULTI"})); auto v = a.take(); x.check(v.size() == 1 && v[0] == resp::status("OK"), "multi", "MULTI not answered OK");
  int n = x.choose(x.tier(4, 5), "n"); std::vector<Cmd> queued;
  for(int i = 0; i < n; i++) {
    Cmd c = cmds[x.choose((int)cmds.size(), "cmd")]; a.feed(w.disp.get(), enc(c)); v = a.take(); x.transition(); x.log("  ", kv::show(c));
    x.check(v.size() == 1, "queue-reply", kv::show(c) + " inside MULTI: " + std::to_string(v.size()) + " replies");
    auto t = kv::req(c).getCommandType(); bool q = t == quarkdb::CommandType::READ || t == quarkdb::CommandType::WRITE;
    if(q) { x.check(v[0] == resp::status("QUEUED"), "queue-reply", kv::show(c) + " -> " + v[0].show()); queued.push_back(c); } else x.check(v[0].type == '-', "queue-reply", kv::show(c) + " -> " + v[0].show());
    x.check(w.canon() == start, "visible-early", kv::show(c) + " took effect before EXEC");
    b.feed(w.disp.get(), enc({"HGET", "k", "f"}) + enc({"GET", "s"})); auto seen = b.take(); m.beginTx();
    x.check(seen.size() == 2 && seen[0] == m.exec({"HGET", "k", "f"}) && seen[1] == m.exec({"GET", "s"}), "visible-early", "another client sees the effects of a block before EXEC");
  }
  if(x.choose(2, "end")) {
    a.feed(w.disp.get(), enc({"DISCARD"})); v = a.take(); x.check(v.size() == 1 && v[0] == resp::status("OK"), "discard", "DISCARD not answered OK");
    x.check(w.canon() == start, "discard", "a discarded block took effect"); x.outcome("discard"); 
    a.feed(w.disp.get(), enc({"EXEC"})); v = a.take(); x.check(v.size() == 1 && v[0].type == '-', "exec-after-discard", "EXEC after DISCARD accepted"); return;
  }
  a.feed(w.disp.get(), enc({"EXEC"})); v = a.take(); x.check(v.size() == 1 && v[0].type == '*' && v[0].arr.size() == queued.size(), "exec-reply", "EXEC of " + std::to_string(queued.size()) + " commands -> " + (v.empty() ? "nothing" : v[0].show()));
  m.beginTx(); for(size_t i = 0; i < queued.size(); i++) { resp::Value want = m.exec(queued[i]); x.log("  exec ", kv::show(queued[i]), " -> ", v[0].arr[i].show()); x.check(model::same(queued[i][0], v[0].arr[i], want), "exec:" + kv::sigOf(queued[i]), kv::show(queued[i]) + " -> " + v[0].arr[i].show() + ", expected " + want.show()); }
  for(Cmd c : {Cmd{"GET", "s"}, {"GET", "k"}, {"HGETALL", "k"}, {"SMEMBERS", "t"}, {"VHGETALL", "v"}}) kv::step(x, w, m, c, "read");
  b.feed(w.disp.get(), enc({"EXEC"})); v = b.take(); x.check(v.size() == 1 && v[0].type == '-', "exec-without-multi", "EXEC without MULTI accepted");
  a.feed(w.disp.get(), enc({"EXEC"})); v = a.take(); x.check(v.size() == 1 && v[0].type == '-', "exec-twice", "second EXEC accepted");
  x.nontrivial(); x.outcome(kv::modelCanon(m));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C06";
  c.rule = "Every block of up to 3 (thorough 4) commands over the alphabet of each data type, on several starting contents, as MULTI/EXEC and as an internal batch, unreplicated and with a log index, is executed as one transaction on one real store and command by command on a second one; replies, number of replies, number of storage writes and final contents are compared, and replies also with the reference model. Separately, all conversations MULTI .. EXEC / DISCARD of up to 3 commands over a real connection with a second connection looking on.";
  c.assumptions = {"RocksDB is replaced by an in-memory ordered store whose write batches are atomic", "versions of versioned hashes step once per block by design (C03)"};
  Sets h = hashes(), s = sets(), d = deques(), l = lhashes(), e = leases();
  c.spaces.push_back({"hashes", [h](mc::Ctx &x) { block(x, h, x.tier(3, 4)); }});
  c.spaces.push_back({"sets", [s](mc::Ctx &x) { block(x, s, x.tier(3, 4)); }});
  c.spaces.push_back({"deques", [d](mc::Ctx &x) { block(x, d, x.tier(3, 4)); }});
  c.spaces.push_back({"locality-hashes", [l](mc::Ctx &x) { block(x, l, x.tier(3, 4)); }});
  c.spaces.push_back({"leases", [e](mc::Ctx &x) { block(x, e, x.tier(3, 4)); }});
  c.spaces.push_back({"client", client});
  return mc::main(argc, argv, c);
}
