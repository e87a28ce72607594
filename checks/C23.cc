//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "vsched.hh"
#include "conn.hh"
#include <deque>
#include <set>
#include <thread>
using namespace quarkdb; using rn::S; using std::string; using resp::Value;
using Cmd = std::vector<string>;
static vsched::Options opts(int pre, bool orders, bool races) { vsched::Options o; o.preemptions = pre; o.orders = orders; o.races = races; o.spin = 300; o.timers = !races; o.maxSteps = 1000000; return o; }
static long p10(long n) { long r = 1; while(n--) r *= 10; return r; }
static Cmd incr(long by) { return {"HINCRBY", "h", "f", S(by)}; }
static const Cmd kRead = {"HGET", "h", "f"};
static string enc(const std::vector<Cmd> &v) { string s; for(auto &c : v) s += resp::encode(c); return s; }
static const string kMoved = "MOVED 0 b:1";
static bool unavailable(const Value &v) { return v.type == '-' && v.str.find("unavailable") != string::npos; }
static bool moved(const Value &v) { return v.type == '-' && v.str == kMoved; }
static RedisRequest rreq(const Cmd &c) { RedisRequest r; for(auto &s : c) r.emplace_back(s.data(), s.size()); return r; }
// a node that has just become leader of term 1, its leadership marker (entry 1) committed and applied
static void lead(rn::Group &g, bool settled = true) {
  g->dispatcher(); g->writeTracker(); g->state()->observed(1, {}); g->state()->becomeCandidate(1); g->state()->ascend(1); if(!settled) return; g->journal()->setCommitIndex(1); g->stateMachine()->waitUntilTargetLastApplied(1, std::chrono::seconds(10));
}
static long stored(rn::Group &g) { string v; auto st = g->stateMachine()->hget("h", "f", v); return st.ok() ? atol(v.c_str()) : 0; }
// ---- every sequence of operations, the node standing still after each
struct Item { int kind; long index; Value raw; };           // 0 a reply waiting behind others; 1 a read; 2 a write; 3 a transaction; 4 two writes at once
struct Model {
  struct Entry { int code; int client, ser; bool owned; };  // code is what it adds, in units of 10^index
  std::vector<Entry> log{{0, -1, 0, false}, {0, -1, 0, false}}; long commit = 1, applied = 1, term = 1, marker = 1; bool leader = true; bool knows = false; long value = 0; long high[2] = {0, 0};       // the highest index either client ever waited for: a queue could remember it
  std::deque<Item> pend[2]; std::vector<Value> want[2];
};
static void deliver(Model &m, int c) { while(!m.pend[c].empty() && m.pend[c].front().kind < 2) { auto &i = m.pend[c].front(); m.want[c].push_back(i.kind == 0 ? i.raw : m.value ? resp::str(S(m.value)) : resp::nil()); m.pend[c].pop_front(); } }
static Value arr(std::vector<Value> v) { Value r; r.type = '*'; r.arr = std::move(v); return r; }
static void fail(Model &m) { Value e; e.type = '!'; for(int c = 0; c < 2; c++) { for(auto &i : m.pend[c]) for(int k = 0; k < (i.kind == 4 ? 2 : 1); k++) m.want[c].push_back(i.kind == 0 ? i.raw : e); m.pend[c].clear(); } for(auto &e : m.log) e.owned = false; }
static void apply(Model &m) {
  while(m.applied < m.commit) {
    auto &e = m.log[++m.applied]; long unit = p10(m.applied), before = m.value; m.value += e.code * unit;
    if(e.owned) { auto &q = m.pend[e.client]; int kind = q.front().kind; q.pop_front(); auto num = [](long n) { return resp::integer(n); }; if(kind == 2) m.want[e.client].push_back(num(m.value)); else if(kind == 3) m.want[e.client].push_back(arr({num(before + unit), num(m.value)})); else { m.want[e.client].push_back(num(before + unit)); m.want[e.client].push_back(num(m.value)); } e.owned = false; deliver(m, e.client); }
  }
}
enum { OpAW, OpAR, OpAM, OpAP, OpBW, OpBR, OpCommit1, OpCommitAll, OpLose, OpRegain, OpOther, OpOtherKeep, OpDrop, OpAMix, kOps };
static const char *kNames[] = {"A writes", "A reads", "A runs a transaction", "A writes twice at once", "B writes", "B reads", "one more entry is committed", "all entries are committed", "leadership is lost", "leadership is regained", "another leader replaces what is not committed", "another leader keeps everything and adds one", "A disconnects and returns", "A writes, reads and pings in one go"};
static void sequences(mc::Ctx &x, int depth, const std::vector<int> &start = {}) {
  { vsched::Quiet q; fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); }
  rn::Group g("n", jr::srv("a")); lead(g); Model m; std::unique_ptr<conn::Client> cl[2]; for(auto &c : cl) c.reset(new conn::Client()); auto *d = g->dispatcher(); int marker = 0;
  auto raw = [&](int c, const Value &v) { if(m.pend[c].empty()) m.want[c].push_back(v); else m.pend[c].push_back({0, 0, v}); };
  auto refused = [&](int c, int n) { Value e = m.knows ? resp::error(kMoved) : Value(); if(!m.knows) e.type = '!'; for(int i = 0; i < n; i++) raw(c, e); };
  auto write = [&](int c, int kind, int code) { if(!m.leader) { refused(c, kind == 4 ? 2 : 1); return; } m.log.push_back({code, c, 0, true}); m.pend[c].push_back({kind, (long)m.log.size() - 1, Value()}); m.high[c] = m.log.size() - 1; };
  auto read = [&](int c) { if(!m.leader) { refused(c, 1); return; } m.pend[c].push_back({1, 0, Value()}); deliver(m, c); };
  for(int k = -(int)start.size(); k < depth; k++) {
    int op = k < 0 ? start[start.size() + k] : x.choose(kOps, "operation"); x.transition(); x.log("  ", kNames[op]); long unit = p10(m.log.size());
    switch(op) {
      case OpAW: write(0, 2, 1); cl[0]->feed(d, enc({incr(unit)})); break;
      case OpAR: read(0); cl[0]->feed(d, enc({kRead})); break;
      case OpAM: raw(0, resp::status("OK")); raw(0, resp::status("QUEUED")); raw(0, resp::status("QUEUED")); write(0, 3, 5); cl[0]->feed(d, enc({{"MULTI"}, incr(unit), incr(4 * unit), {"EXEC"}})); break;
      case OpAP: write(0, 4, 6); cl[0]->feed(d, enc({incr(unit), incr(5 * unit)})); break;
      case OpAMix: write(0, 2, 7); read(0); raw(0, resp::error("ERR not authorized to issue raft commands")); cl[0]->feed(d, enc({incr(7 * unit), kRead, {"RAFT_HEARTBEAT"}})); break;
      case OpBW: write(1, 2, 2); cl[1]->feed(d, enc({incr(2 * unit)})); break;
      case OpBR: read(1); cl[1]->feed(d, enc({kRead})); break;
      case OpCommit1: case OpCommitAll: { long target = op == OpCommit1 ? m.commit + 1 : (long)m.log.size() - 1; if(target == m.commit || target >= (long)m.log.size()) return; m.commit = target; g->journal()->setCommitIndex(target); apply(m); break; }
      case OpLose: if(!m.leader) return; m.leader = false; m.knows = false; m.term++; x.check(g->state()->observed(m.term, {}), "setup", "a newer term"); g->writeTracker()->flushQueues(Formatter::err("unavailable")); fail(m); break;
      case OpRegain: { if(m.leader) return; m.term++; g->state()->observed(m.term, {}); x.check(g->state()->becomeCandidate(m.term) && g->state()->ascend(m.term), "setup", "ascending"); m.leader = true; m.log.push_back({0, -1, 0, false}); m.marker = m.log.size() - 1; m.commit = m.marker; g->journal()->setCommitIndex(m.commit); apply(m); break; }
      case OpOther: case OpOtherKeep: {
        RaftAppendEntriesRequest r; m.term++; m.leader = false; m.knows = true; fail(m); r.term = m.term; r.leader = jr::srv("b"); long at = op == OpOther ? m.commit + 1 : (long)m.log.size(); r.prevIndex = at - 1; RaftTerm pt; g->journal()->fetch(at - 1, pt); r.prevTerm = pt; m.log.resize(at); m.log.push_back({3, -1, 0, false}); r.commitIndex = m.commit; r.entries.push_back(RaftEntry(m.term, RedisRequest(rreq(incr(3 * p10(at)))))); auto a = d->appendEntries(std::move(r)); x.check(a.outcome, "setup", "append entries refused: " + a.err); break; }
      case OpDrop: cl[0]->drop(); cl[0].reset(new conn::Client()); m.pend[0].clear(); m.high[0] = 0; for(auto &e : m.log) if(e.client == 0) e.owned = false; break;
    }
    (void)marker; vsched::settle(); vsched::Quiet q; string c;
    for(int i = 0; i < 2; i++) {
      bool bad = false; auto got = cl[i]->take(&bad); x.check(!bad, "partial", "half a reply"); string show, should; bool ok = got.size() == m.want[i].size(); for(auto &v : got) show += v.show() + " "; for(auto &v : m.want[i]) should += v.show() + " "; for(size_t n = 0; ok && n < got.size(); n++) ok = m.want[i][n].type == '!' ? unavailable(got[n]) || moved(got[n]) : got[n] == m.want[i][n];
      x.check(ok, "reply", string(i ? "B" : "A") + " received [" + show + "], should be [" + should + "]"); m.want[i].clear(); c += "|"; for(auto &p : m.pend[i]) c += S(p.kind) + "@" + S(p.index) + " ";
    }
    x.check(g->stateMachine()->getLastApplied() == m.applied, "applied", "applied up to " + S(g->stateMachine()->getLastApplied()) + ", should be " + S(m.applied)); x.check(stored(g) == m.value, "value", "the value is " + S(stored(g)) + ", should be " + S(m.value)); x.check(g->journal()->getLogSize() == (LogIndex)m.log.size(), "log", "log size " + S(g->journal()->getLogSize()) + ", should be " + S(m.log.size()));
    c += "^" + S(m.high[0]) + "," + S(m.high[1]); c += "/" + S(m.commit) + S(m.leader) + S(m.knows) + " "; for(auto &e : m.log) c += S(e.code) + (e.owned ? S(e.client) : ""); x.nontrivial(); x.outcome(c); if(k >= 0 && x.visited(c, depth - k)) return;
  }
}
// ---- concurrent: each request adds its own power of ten, so any reply tells which entries were applied before it
struct Log { std::vector<long> delta; };
static std::vector<long> deltas(rn::Group &g) {               // what each entry of the log adds
  std::vector<long> v; LogIndex n = g->journal()->getLogSize(); for(LogIndex i = 0; i < n; i++) { RaftEntry e; long sum = 0; if(g->journal()->fetch(i, e).ok()) { Transaction tx; auto &r = e.request; if(r.size() == 4 && r[0] == "HINCRBY") sum = atol(string(r[3]).c_str()); else if(r.size() == 3 && tx.deserialize(r)) for(size_t k = 0; k < tx.size(); k++) if(tx[k].size() == 4) sum += atol(string(tx[k][3]).c_str()); } v.push_back(sum); } return v;
}
struct Script { const char *name; std::vector<std::vector<std::vector<Cmd>>> clients; int disturb; int pre; };
// disturb: 0 none, 1 leadership lost, 2 another leader replaces the uncommitted part, 3 the first client goes away, 4 the tracker goes away, 5 the leadership marker is not committed yet, 6 and leadership is lost as well
static std::vector<Cmd> W(std::vector<int> k) { std::vector<Cmd> v; for(int i : k) v.push_back(i < 0 ? kRead : incr(p10(i))); return v; }
static const std::vector<Script> &scripts() {
  static const std::vector<Script> s = {
    {"pipeline", {{W({0, -1}), W({1, -1})}}, 0, 2}, {"two clients", {{W({0, -1})}, {W({1, -1})}}, 0, 1}, {"batches", {{W({0, 1, -1})}, {W({2})}}, 0, 1},
    {"transaction", {{{{"MULTI"}, incr(1), kRead, incr(10), {"EXEC"}, kRead}}, {W({2, -1})}}, 0, 1},
    {"lost", {{W({0, -1}), W({1, -1})}}, 1, 2}, {"lost, two clients", {{W({0, -1})}, {W({1})}}, 1, 1}, {"replaced", {{W({0, -1}), W({1})}}, 2, 2}, {"replaced, two clients", {{W({0, -1})}, {W({1})}}, 2, 1},
    {"disconnect", {{W({0, -1}), W({1, -1})}, {W({2})}}, 3, 1}, {"shutdown", {{W({0, -1})}, {W({1})}}, 4, 1},
    {"stalled", {{W({-1, 0})}}, 5, 1}, {"stalled, lost", {{W({0, -1})}}, 6, 1}};
  return s;
}
static void concurrent(mc::Ctx &x, const Script &s) {
  std::unique_ptr<vsched::Calm> calm(new vsched::Calm()); { vsched::Quiet q; fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); }
  std::unique_ptr<rn::Group> gp(new rn::Group("n", jr::srv("a"))); lead(*gp, s.disturb < 5); vsched::settle(); auto *d = (*gp)->dispatcher(); size_t nc = s.clients.size(); std::vector<std::unique_ptr<conn::Client>> cl; for(size_t i = 0; i < nc; i++) cl.emplace_back(new conn::Client());
  bool stop = false, served = false; calm.reset(); std::vector<std::thread> t;
  for(size_t i = 0; i < nc; i++) t.emplace_back([&, i]() { for(auto &b : s.clients[i]) cl[i]->feed(d, enc(b)); if(s.disturb == 3 && i == 0) cl[0]->drop(); });
  // stands for the replication: commits whatever is in the log; gives up when leadership goes
  std::thread committer([&]() { for(int i = 0; i < (s.disturb && s.disturb != 5 ? 1 : 2); i++) { LogIndex n = (*gp)->journal()->getLogSize() - 1; if(n <= (*gp)->journal()->getCommitIndex()) continue; if(s.disturb == 1 || s.disturb == 2) n = std::min<LogIndex>(n, 2); try { (*gp)->journal()->setCommitIndex(n); } catch(FatalException &) { x.check(s.disturb == 2, "commit", "commit"); } } });
  if(s.disturb == 1 || s.disturb == 6) { (*gp)->state()->observed(2, {}); (*gp)->writeTracker()->flushQueues(Formatter::err("unavailable")); }
  if(s.disturb == 2) { committer.join(); RaftAppendEntriesRequest r; r.term = 2; r.leader = jr::srv("b"); LogIndex at = (*gp)->journal()->getCommitIndex() + 1; r.prevIndex = at - 1; RaftTerm pt; (*gp)->journal()->fetch(at - 1, pt); r.prevTerm = pt; r.commitIndex = at; r.entries.push_back(RaftEntry(2, RedisRequest(rreq(incr(p10(9)))))); auto a = d->appendEntries(std::move(r)); x.check(a.outcome, "append", "another leader is refused: " + a.err); }
  for(auto &e : t) e.join(); if(committer.joinable()) committer.join(); calm.reset(new vsched::Calm()); (void)stop; (void)served;
  if(s.disturb == 1 || s.disturb == 2 || s.disturb == 6) (*gp)->writeTracker()->flushQueues(Formatter::err("unavailable"));          // the follower does this all the time
  if(s.disturb != 4) { (*gp)->journal()->setCommitIndex((*gp)->journal()->getLogSize() - 1); vsched::settle(); }
  if(s.disturb == 4) { gp.reset(); gp.reset(new rn::Group("n", jr::srv("a"))); }
  std::vector<long> log; { log = deltas(*gp); } long final = 0; LogIndex applied = (*gp)->stateMachine()->getLastApplied(); std::vector<long> prefix; { long sum = 0; for(size_t i = 0; i < log.size(); i++) { sum += log[i]; prefix.push_back(sum); if((LogIndex)i <= applied) final = sum; } }
  x.check(stored(*gp) == final, "applied", "the value is " + S(stored(*gp)) + ", the log up to " + S(applied) + " adds up to " + S(final)); if(s.disturb != 4) x.check(applied == (LogIndex)log.size() - 1, "behind", "not everything committed is applied");
  vsched::Quiet q; string oc; std::set<long> used;
  for(size_t i = 0; i < nc; i++) {
    if(s.disturb == 3 && i == 0) continue; bool bad = false; auto got = cl[i]->take(&bad); x.check(!bad, "partial", "half a reply"); std::vector<Cmd> reqs; for(auto &b : s.clients[i]) for(auto &c : b) reqs.push_back(c); string show; for(auto &v : got) show += v.show() + " "; oc += show + "| ";
    x.check(got.size() == reqs.size(), "count", "client " + S(i) + " sent " + S(reqs.size()) + " requests and received " + S(got.size()) + " replies: " + show); long last = 0, own = 0; bool inTx = false; std::vector<Cmd> tx;
    auto judge = [&](const Cmd &c, const Value &v) {
      bool err = v.type == '-'; if(err) { x.check(s.disturb && s.disturb != 5 && (unavailable(v) || moved(v)), "error", "client " + S(i) + " received " + v.show()); return; }
      long n = v.type == '_' ? 0 : atol(v.str.c_str()); bool write = c[0] == "HINCRBY"; x.check(v.type == (write ? ':' : n ? '$' : '_'), "type", "reply " + v.show() + " to " + c[0]); bool known = n == 0; for(long p : prefix) known |= p == n;
      if(!known && !inTx) { bool batch = false; for(size_t k = 1; k < prefix.size(); k++) if(n > prefix[k - 1] && n < prefix[k]) batch = true; known = batch && write; }     // in the middle of a batch
      x.check(known || inTx, "value", "client " + S(i) + " was told " + S(n) + " which is not the result of a prefix of the log: " + show); x.check(n >= last, "order", "client " + S(i) + " went back from " + S(last) + " to " + S(n) + ": " + show); last = n;
      if(write) { long by = atol(c[3].c_str()); own += by; x.check(n / by % 10 == 1 && used.insert(by).second, "own", "the reply does not contain the write itself: " + show); x.check(!(n % 10 > 1 || n / 10 % 10 > 1 || n / 100 % 10 > 1), "twice", "a write counted twice: " + show); }
      for(long o = own, u = 1; o; o /= 10, u *= 10) x.check(o % 10 == 0 || n / u % 10 == 1, "own-write", "client " + S(i) + " does not see its own write: " + show);
    };
    for(size_t k = 0; k < reqs.size(); k++) {
      if(reqs[k][0] == "MULTI") { inTx = true; x.check(got[k] == resp::status("OK"), "multi", show); continue; }
      if(reqs[k][0] == "EXEC") { x.check(got[k].type == '*' && got[k].arr.size() == tx.size(), "exec", show); long before = -1; for(size_t n = 0; n < tx.size(); n++) { judge(tx[n], got[k].arr[n]); if(n) x.check(atol(got[k].arr[n].str.c_str()) == before + (tx[n][0] == "HINCRBY" ? atol(tx[n][3].c_str()) : 0), "atomic", "something came between the parts of a transaction: " + show); before = atol(got[k].arr[n].str.c_str()); } inTx = false; continue; }
      if(inTx) { x.check(got[k] == resp::status("QUEUED"), "queued", show); tx.push_back(reqs[k]); continue; }
      judge(reqs[k], got[k]);
    }
  }
  x.nontrivial(); x.transition(); x.outcome(string(s.name) + ": " + oc);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C23"; Link::setConnectionLogging(false);
  c.rule = "Real connections, RaftDispatcher, RaftWriteTracker, journal and state machine of a leader. (a) Every sequence of 14 operations (writes, reads, transactions, batches and mixed pipelines of two clients, commits of one or all entries, leadership lost and regained, another leader replacing or extending the log, a client going away) up to depth 5 (thorough 6), and up to depth 4 (5) after an uncommitted stretch of four writes was replaced by another leader and behind a pipeline of reads and writes, every byte sent to both clients compared with a model of the log after each step. (b) 12 scripts of concurrent clients, commits and disturbances, every schedule up to 1-2 (thorough 2-3) preemptions with data-race detection: exactly one reply per request, in order, each the value at the place of its own entry in the final log; reads include all earlier writes of the client; the stored value is the sum of the log.";
  c.assumptions = {"the harness stands for the replicator (it commits entries) and for the director (it flushes the queues of a follower)"};
  c.spaces.push_back({"sequences", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(0, false, false), [&]() { sequences(x, x.tier(5, 6)); }); }});
  c.spaces.push_back({"after-a-replacement", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(0, false, false), [&]() { sequences(x, x.tier(4, 5), {OpAW, OpBW, OpAW, OpAW, OpOther}); }); }});
  c.spaces.push_back({"behind-reads", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(0, false, false), [&]() { sequences(x, x.tier(4, 5), {OpAW, OpAR, OpBW, OpAMix}); }); }});
  for(auto &s : scripts()) { const Script *p = &s; string n = s.name; for(auto &ch : n) if(ch == ' ' || ch == ',') ch = '-'; c.spaces.push_back({n, [p](mc::Ctx &x) { rn::dir("n"); auto o = opts(x.tier(p->pre, p->pre + 1), true, true); if(p->disturb >= 5) o.timers = true; vsched::run(x, o, [&]() { concurrent(x, *p); }); }}); }
  return mc::main(argc, argv, c);
}
