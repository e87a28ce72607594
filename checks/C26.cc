//@ sources: *
//@ lib: fakedb nothreads
#include "kv.hh"
#include "conn.hh"
#include "StandaloneGroup.hh"
#include "raft/RaftBlockedWrites.hh"
#include "storage/KeyConstants.hh"
using namespace quarkdb;
using kv::Cmd;
static std::string S(long n) { return std::to_string(n); }
static std::string show(const std::vector<Cmd> &cs) { std::string s; for(auto &c : cs) s += "[" + kv::show(c).substr(0, 60) + "] "; return s; }
static Cmd packed(const std::vector<Cmd> &cs, bool phantom = false) { Transaction t; for(auto &c : cs) t.push_back(kv::req(c)); t.setPhantom(phantom); bool w = t.containsWrites(); return {w ? "TX_READWRITE" : "TX_READONLY", t.serialize(), phantom ? "phantom" : "real"}; }
// A server which queues writes like a leader does, and applies them when told they are committed.
struct Leader : public Dispatcher {
  RedisDispatcher &d; Publisher &pub; RaftBlockedWrites blocked; LogIndex appended = 0, applied = 0;
  Leader(RedisDispatcher &d_, Publisher &p) : d(d_), pub(p) {}
  LinkStatus dispatch(Connection *c, RedisRequest &r) override {
    if(r.getCommandType() == CommandType::RAFT) return c->err(SSTR("raft not enabled, " << r[0] << " is unavailable, try quarkdb-info for general information"));
    if(r.getCommandType() == CommandType::PUBSUB) return pub.dispatch(c, r);
    if(r.getCommandType() != CommandType::READ && r.getCommandType() != CommandType::WRITE) return d.dispatch(c, r);
    Transaction t; t.push_back(std::move(r)); t.setPhantom(true); return dispatch(c, t);
  }
  LinkStatus dispatch(Connection *c, Transaction &t) override {
    if(!t.containsWrites()) return c->addPendingTransaction(&d, std::move(t), -1);
    LogIndex i = ++appended; blocked.insert(i, c->getQueue()); return c->addPendingTransaction(&d, std::move(t), i);
  }
  void notifyDisconnect(Connection *) override {}
  bool commit() { if(applied == appended) return false; applied++; auto q = blocked.popIndex(applied); if(!q) mc::current()->fail("blocked", "no queue waits for a committed write"); LogIndex n = q->dispatchPending(&d, applied); if(n > 0) blocked.insert(n, q); return true; }
};
static fakedb::Map data(kv::World &w) { auto m = w.contents(); m.erase(KeyConstants::kStateMachine_LastApplied); return m; }
struct Result { std::string out; fakedb::Map store; };
static Result baseline(mc::Ctx &x, const std::vector<Cmd> &cs) {
  fakedb::wipeAll(); kv::World w("a"); StandaloneDispatcher sd(*w.sm, *w.pub); conn::Client c; Connection::setPhantomBatchLimit(100);
  for(auto &cmd : cs) {
    size_t had = c.pipe.out.size(); int rc = c.feed(&sd, resp::encode(cmd)); bool bad = false; auto v = c.take(&bad);
    x.check(rc == 1 && !bad && v.size() == 1 && c.seen == c.pipe.out.size(), "one-reply", show(cs) + ": command " + kv::show(cmd) + " alone got " + S(v.size()) + " replies: " + mc::quote(c.pipe.out.substr(had)));
  }
  return {c.pipe.out, data(w)};
}
static void compare(mc::Ctx &x, const std::vector<Cmd> &cs, const Result &want, const std::string &got, const fakedb::Map &store, const std::string &how) {
  if(got != want.out) {
    std::vector<resp::Value> a, b; resp::parseAll(want.out, a); bool ok = resp::parseAll(got, b); std::string s; for(auto &v : a) s += v.show() + " "; s += "| "; for(auto &v : b) s += v.show() + " ";
    x.fail(b.size() != a.size() || !ok ? "count" : "replies", show(cs) + " " + how + ": one at a time gives | this way: " + s + (ok ? "" : "(malformed)"));
  }
  x.check(store == want.store, "contents", show(cs) + " " + how + ": the store differs from sending the requests one at a time\n" + mc::quote(fakedb::canon(store)) + "\n" + mc::quote(fakedb::canon(want.store)));
}
static std::string pieces(const std::vector<std::string> &p) { std::string s; for(auto &e : p) s += (s.empty() ? "" : "+") + S(e.size()); return s; }
static void standalone(mc::Ctx &x, const std::vector<Cmd> &cs, const Result &want, const std::vector<std::string> &parts, int limit) {
  fakedb::wipeAll(); kv::World w("a"); StandaloneDispatcher sd(*w.sm, *w.pub); conn::Client c; Connection::setPhantomBatchLimit(limit);
  for(auto &p : parts) { int rc = c.feed(&sd, p); x.check(rc == 1, "closed", show(cs) + ": connection closed"); }
  x.transition(); compare(x, cs, want, c.pipe.out, data(w), "arriving as " + pieces(parts) + " with batches up to " + S(limit));
}
// commits: after each part, commits are made up to a point, in all ways
static void leader(mc::Ctx &x, const std::vector<Cmd> &cs, const Result &want, const std::vector<std::string> &parts, int limit) {
  fakedb::wipeAll(); kv::World w("a"); Leader l(*w.disp, *w.pub); conn::Client c; Connection::setPhantomBatchLimit(limit); std::string how;
  for(auto &p : parts) {
    x.check(c.feed(&l, p) == 1, "closed", show(cs) + ": connection closed"); long open = l.appended - l.applied;
    int k = x.choose((int)open + 1, "commits"); how += "," + S(k); for(int i = 0; i < k; i++) l.commit(); x.transition();
    x.check(want.out.compare(0, c.pipe.out.size(), c.pipe.out) == 0, "early", show(cs) + ": replies so far are not a prefix of those expected: " + mc::quote(c.pipe.out));
  }
  while(l.commit()) {} x.check(l.blocked.size() == 0, "left", "writes left waiting");
  compare(x, cs, want, c.pipe.out, data(w), "committed later" + how + ", batches up to " + S(limit));
}
static std::vector<std::string> split(const std::vector<Cmd> &cs, int mask) { std::vector<std::string> v(1); for(size_t i = 0; i < cs.size(); i++) { v.back() += resp::encode(cs[i]); if(i + 1 < cs.size() && (mask >> i & 1)) v.emplace_back(); } return v; }
static const std::vector<Cmd> &mixed() {
  static const std::vector<Cmd> v = {{"GET", "s"}, {"SET", "s", "1"}, {"SET", "s", "2"}, {"SET", "s"}, {"HSET", "s", "f", "1"}, {"DEQUE-PUSH-BACK", "d", "x"}, {"DEQUE-LEN", "d"}, {"PING"}, {"PING", "a\r\nb"}, {"NOSUCH"}, {"NO\r\nSUCH", "a"}, {"MULTI"}, {"MULTI", "x"}, {"EXEC"}, {"DISCARD"}, packed({{"SET", "s", "9"}, {"GET", "s"}}), packed({{"GET", "s"}, {"DEQUE-LEN", "d"}}), packed({{"SET", "s", "8"}}, true), {"TX_READWRITE", "xx", "real"}, {"TX_READONLY"}, {"RAFT_INFO"}, {"PUBLISH", "c", "m"}, {"DEQUE-POP-FRONT", "d"}, {"TIMESTAMPED_LEASE_ACQUIRE", "l", "v", "1", kv::ts(1)}, {"CLOCK-GET", "x"}};
  return v;
}
static const std::vector<Cmd> &writey() { static const std::vector<Cmd> v = {{"DEQUE-PUSH-BACK", "d", "x"}, {"DEQUE-LEN", "d"}, {"SET", "d"}, {"MULTI"}, {"EXEC"}, {"DISCARD"}, {"SADD", "t", "a", "b"}, {"PING"}}; return v; }
static std::vector<Cmd> pick(mc::Ctx &x, const std::vector<Cmd> &a, int depth) { std::vector<Cmd> cs; int n = x.choose(depth, "length") + 1; for(int i = 0; i < n; i++) cs.push_back(a[x.choose((int)a.size(), "command")]); return cs; }
static const int kLimits[] = {1, 2, 3, 100};
static void run(mc::Ctx &x, const std::vector<Cmd> &cs) {
  Result want = baseline(x, cs); if(cs.size() > 1) x.nontrivial(); x.outcome(want.out);
  for(int mask = 0; mask < 1 << (cs.size() - 1); mask++) for(int l : kLimits) { if(l >= (int)cs.size() && l != 100) continue; standalone(x, cs, want, split(cs, mask), l); }
}
static void bytes(mc::Ctx &x) {
  auto cs = pick(x, mixed(), 2); Result want = baseline(x, cs); std::string all; for(auto &c : cs) all += resp::encode(c); x.nontrivial(); x.outcome(want.out);
  for(size_t cut = 1; cut < all.size(); cut++) standalone(x, cs, want, {all.substr(0, cut), all.substr(cut)}, 100);
  std::vector<std::string> each; for(char c : all) each.push_back(std::string(1, c)); standalone(x, cs, want, each, 100);
}
static void leading(mc::Ctx &x, const std::vector<Cmd> &a, int depth) {
  auto cs = pick(x, a, depth); Result want = baseline(x, cs); int mask = x.choose(1 << (cs.size() - 1), "split"); int l = kLimits[x.choose(3, "limit")]; x.nontrivial(); x.outcome(want.out);
  leader(x, cs, want, split(cs, mask), l == 3 ? 100 : l);
}
// many writes in one read: the limit on the size of batches itself
static void batches(mc::Ctx &x) {
  int n = x.choose(12, "writes") + 95, reads = x.choose(3, "reads"), limit = x.choose(2, "limit") ? 100 : 7, multi = x.choose(3, "multi"); std::vector<Cmd> cs;
  if(multi == 1) cs.push_back({"MULTI"});
  for(int i = 0; i < n; i++) { cs.push_back(i % 10 == 3 ? Cmd{"SET", "k"} : Cmd{"DEQUE-PUSH-BACK", "d", S(i)}); if(reads && i % (reads * 30) == 29) cs.push_back({"DEQUE-LEN", "d"}); if(multi == 2 && i == n - 2) cs.push_back({"MULTI"}); }
  if(multi) cs.push_back({"EXEC"}); cs.push_back({"DEQUE-LEN", "d"});
  Result want = baseline(x, cs); standalone(x, cs, want, split(cs, 0), limit); fakedb::wipeAll();
  kv::World w("a"); Leader l(*w.disp, *w.pub); conn::Client c; Connection::setPhantomBatchLimit(limit); c.feed(&l, split(cs, 0)[0]); while(l.commit()) {} compare(x, cs, want, c.pipe.out, data(w), "committed later"); x.nontrivial(); x.outcome(S(n) + "," + S(l.appended));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C26"; Link::setConnectionLogging(false);
  c.rule = "Every sequence of up to 3 (thorough 4) of 25 requests (reads, writes, wrong arity, unknown, control, publication, MULTI/EXEC/DISCARD, packed transactions good and bad, names with line breaks) and of up to 4 (thorough 6) of 8 write-heavy ones, sent on a real connection with every way of grouping the requests into network reads and batching limits 1, 2, 3, 100; every byte split of all pairs; a server that applies writes only when committed, with every number of commits after each read; long runs of writes around the batch limit. Replies and contents are compared byte for byte with sending the requests one at a time, each of which must give one reply. Non-trivial: at least two requests.";
  c.assumptions = {"versioned hashes are left out: their version steps once per batch by design (C03)", "clients do not send empty strings (refused by the parser)"};
  c.spaces.push_back({"mixed", [](mc::Ctx &x) { run(x, pick(x, mixed(), x.tier(3, 4))); }});
  c.spaces.push_back({"writes", [](mc::Ctx &x) { run(x, pick(x, writey(), x.tier(4, 6))); }});
  c.spaces.push_back({"bytes", bytes});
  c.spaces.push_back({"leader-mixed", [](mc::Ctx &x) { leading(x, mixed(), x.tier(3, 3)); }});
  c.spaces.push_back({"leader-writes", [](mc::Ctx &x) { leading(x, writey(), x.tier(4, 5)); }});
  c.spaces.push_back({"batches", batches});
  return mc::main(argc, argv, c);
}
