//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -DVS_MAXT=160
#include "raftnode.hh"
#include "vsched.hh"
#include "reply.hh"
#include "conn.hh"
#include "Version.hh"
#include <set>
using namespace quarkdb; using rn::S; using std::string; using Strs = std::vector<string>; using ms = std::chrono::milliseconds;
static vsched::Options opts(int preemptions = 0) { vsched::Options o; o.preemptions = preemptions; o.orders = false; o.races = false; o.spin = 3000; o.maxSteps = 20000000; return o; }
static void sleepMs(int n) { std::this_thread::sleep_for(ms(n)); }
static string wire(const Strs &p) { string w = "*" + S(p.size()) + "\r\n"; for(auto &e : p) w += "$" + S(e.size()) + "\r\n" + e + "\r\n"; return w; }
enum Fault { OK, CUT, HOLD, LATE };      // of a node: its messages are refused, vanish, or are delivered and the replies come late
struct Ask { std::unique_ptr<conn::Client> c; string what; int node; int id; bool done = false; };
struct Cluster {
  mc::Ctx &x; Strs names; std::map<string, std::unique_ptr<rn::Group>> g; std::map<string, bool> up, cutOnVote; std::map<string, int> inside; std::map<std::pair<string, string>, int> link;
  std::map<std::pair<string, string>, std::vector<std::unique_ptr<conn::Client>>> idle; std::vector<std::pair<std::promise<qclient::redisReplyPtr>, qclient::redisReplyPtr>> pending;
  // what is known to be so
  std::map<LogIndex, string> committed; std::map<string, LogIndex> seen; std::map<string, RaftTerm> term; std::map<RaftTerm, string> leader; std::map<LogIndex, std::pair<string, string>> applied; std::map<string, RaftServer> voted; 
  std::vector<std::unique_ptr<Ask>> asks; std::set<int> acked; int sent = 0, answered = 0; bool asym = false;
  Cluster(mc::Ctx &x, const Strs &n) : x(x), names(n) { qclient::transport() = [this](const string &host, int, const Strs &req) { return talk(host, req); }; }
  void start(const string &n) { g[n].reset(new rn::Group(n, jr::srv(n))); (*g[n])->spinup(); up[n] = true; }
  std::function<void()> stop(const string &n) {     // to be called once it is gone: its storage as a power failure leaves it
    up[n] = false; std::function<void()> f; { vsched::Quiet q; std::map<string, fakedb::Map> durable; for(auto p : {rn::journalPath(n), rn::dir(n) + "/current/state-machine"}) durable[p] = fakedb::at(p, fakedb::store(p).synced); f = [=]() { for(auto &d : durable) fakedb::put(d.first, d.second); }; }
    while(inside[n]) sleepMs(1); for(auto &a : asks) if(a->node == (int)n[0] && a->c) { collect(*a); a->c.reset(); } (*g[n])->spindown(); g[n].reset(); for(auto &p : idle) if(p.first.second == n) p.second.clear(); return f;
  }
  static string source(const Strs &req) { if(req[0] == "RAFT_APPEND_ENTRIES") return req[1].substr(0, 1); if(req[0] == "RAFT_HEARTBEAT" || req[0] == "RAFT_REQUEST_VOTE" || req[0] == "RAFT_REQUEST_PRE_VOTE") return req[2].substr(0, 1); return ""; }
  std::future<qclient::redisReplyPtr> talk(const string &host, const Strs &req) {
    string src = source(req); std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); auto no = [&]() { p.set_value(nullptr); return std::move(f); };
    if(src == "" || !up[src] || !up[host] || link[{src, host}] == CUT) return no(); if(link[{src, host}] == HOLD) { pending.emplace_back(std::move(p), nullptr); return f; }
    std::unique_ptr<conn::Client> c; auto &pool = idle[{src, host}]; inside[host]++; if(!pool.empty()) { c = std::move(pool.back()); pool.pop_back(); } else { c.reset(new conn::Client(src)); c->feed((*g[host])->dispatcher(), wire({"RAFT_HANDSHAKE", VERSION_FULL_STRING, jr::kCluster, rn::timeouts().toString()})); auto v = c->take(); x.check(v.size() == 1 && v[0].type == '+', "handshake", "handshake"); }
    c->feed((*g[host])->dispatcher(), wire(req)); auto v = c->take(); x.check(v.size() == 1, "answers", req[0] + " is answered " + S(v.size()) + " times"); inside[host]--; bool late = link[{src, host}] == LATE; if(req[0] == "RAFT_REQUEST_VOTE" && cutOnVote[host]) { cutOnVote[host] = false; x.log("      ", host, " is cut off after its vote for ", src); for(auto &o : names) link[{host, o}] = link[{o, host}] = CUT; } if(up[host]) pool.push_back(std::move(c)); else c.reset();
    if(x.tracing() && (req[0] != "RAFT_HEARTBEAT" && (req[0] != "RAFT_APPEND_ENTRIES" || getenv("C46_ALL")))) x.log("      ", S(vsched::now() / 1000000), " ms ", src, "->", host, " ", req[0], ": ", v[0].show());
    inspect(); auto r = reply::make(v[0]); if(late) { pending.emplace_back(std::move(p), r); return f; } p.set_value(r); return f;
  }
  void release() { auto v = std::move(pending); pending.clear(); for(auto &p : v) p.first.set_value(p.second); }
  // ---- what must hold at every moment ----
  void inspect() {
    vsched::Quiet q;
    for(auto &n : names) {
      if(!up[n] || !g[n]) continue; auto &d = *g[n]; auto s = d->state()->getSnapshot(); auto *j = d->journal(); x.check(s->term >= term[n], "term", n + " goes back from term " + S(term[n]) + " to " + S(s->term)); if(s->term > term[n]) voted[n] = RaftServer{}; term[n] = s->term;
      if(!s->votedFor.empty()) { x.check(voted[n].empty() || voted[n] == s->votedFor || s->votedFor == RaftState::BLOCKED_VOTE, "votes", n + " votes for " + voted[n].toString() + " and " + s->votedFor.toString() + " in term " + S(s->term)); voted[n] = s->votedFor; }
      if(!s->leader.empty()) { string l = s->leader.hostname; auto it = leader.emplace(s->term, l).first; x.check(it->second == l, "two leaders", "in term " + S(s->term) + " " + it->second + " leads, and " + n + " says it is " + l); }
      LogIndex c = j->getCommitIndex(); LogIndex &k = seen[n]; if(c < k) k = c;       /* only after a power failure, see below */
      for(; k <= c; k++) { RaftSerializedEntry e; if(!j->fetch(k, e).ok()) { x.check(k < j->getLogStart(), "missing", n + " lacks committed entry " + S(k)); continue; } if(k == 0 && e.find("#!^NULL-HOSTNAME^!#") != string::npos) continue;      /* an observer's journal before it hears of the cluster */ auto it = committed.emplace(k, e).first; if(it->second != e) { auto term = [](const RaftEntry &e) { string s = "term " + S(e.term); for(size_t i = 0; i < e.request.size(); i++) s += " " + string(e.request[i]); return s; }; RaftEntry a, b; RaftEntry::deserialize(a, it->second); RaftEntry::deserialize(b, e); x.check(false, "committed", "entry " + S(k) + ": " + term(a) + " was committed, and now " + n + " has committed " + term(b)); } }
      LogIndex a = d->stateMachine()->getLastApplied(); x.check(a <= c, "applied", n + " has applied entry " + S(a) + " of " + S(c) + " committed"); 
    }
  }
  void machines() { vsched::Quiet q; for(auto &n : names) { if(!up[n]) continue; LogIndex a = (*g[n])->stateMachine()->getLastApplied(); string c = fakedb::canon(fakedb::contents(rn::dir(n) + "/current/state-machine")); auto it = applied.emplace(a, std::make_pair(n, c)).first; x.check(it->second.second == c, "diverged", "after entry " + S(a) + " the databases of " + it->second.first + " and " + n + " differ:\n" + it->second.second + "\n" + c); } }
  // ---- clients ----
  void collect(Ask &a) {
    if(a.done || !a.c) return; auto v = a.c->take(); if(v.empty()) return; a.done = true; x.check(v.size() == 1, "answers", a.what + " is answered " + S(v.size()) + " times"); const auto &r = v[0]; answered++;
    if(a.id >= 0) { x.log("      ", a.what, " answered ", r.show()); if(r.type != '-') acked.insert(a.id); x.check(r.type == ':' || r.type == '-', "reply", a.what + " is answered " + r.show()); }
  }
  void collect() { for(auto &a : asks) collect(*a); }
  void ask(const string &n, const Strs &p, int id = -1) { asks.emplace_back(new Ask()); Ask &a = *asks.back(); a.what = p[0] + (id >= 0 ? " " + S(id) : "") + " to " + n; a.node = n[0]; a.id = id; a.c.reset(new conn::Client()); inside[n]++; a.c->feed((*g[n])->dispatcher(), wire(p)); inside[n]--; collect(a); }
  int write(const string &n) { int id = sent++; ask(n, {"DEQUE-PUSH-BACK", "log", S(id)}, id); return id; }
  std::optional<std::vector<int>> scan(const string &n) {
    conn::Client c; inside[n]++; c.feed((*g[n])->dispatcher(), wire({"DEQUE-SCAN-BACK", "log", "0", "COUNT", "1000"})); inside[n]--; auto v = c.take(); if(v.empty()) return {};        // behind a write not yet committed
    x.check(v.size() == 1, "answers", "a read is answered " + S(v.size()) + " times"); if(v[0].type == '-') return {}; x.check(v[0].type == '*' && v[0].arr.size() == 2 && v[0].arr[0].str == "0", "reply", "a read is answered " + v[0].show()); std::vector<int> got; for(auto &e : v[0].arr[1].arr) got.push_back(atoi(e.str.c_str())); return got;
  }
  Strs leaders() { vsched::Quiet q; Strs v; for(auto &n : names) if(up[n] && (*g[n])->state()->getSnapshot()->status == RaftStatus::LEADER) v.push_back(n); return v; }
  // a read sent now to any node is refused or shows every write acknowledged before
  void read(const string &n) {
    collect(); std::set<int> must = acked; auto v = scan(n); if(!v) return; for(int i : must) x.check(std::count(v->begin(), v->end(), i), "stale", "write " + S(i) + " was acknowledged, a read from " + n + " misses it");
  }
  void wait(int m) { for(int t = 0; t < m; t += 250) { sleepMs(std::min(250, m - t)); collect(); inspect(); } machines(); }
  string canon() {
    vsched::Quiet q; string s; for(auto &n : names) { if(!up[n]) { s += "down "; continue; } auto &d = *g[n]; auto sn = d->state()->getSnapshot(); auto *j = d->journal(); s += S(sn->term) + sn->leader.hostname + sn->votedFor.hostname + S((int)sn->status) + "c" + S(j->getCommitIndex()) + "a" + S(d->stateMachine()->getLastApplied()) + "e" + S(j->getEpoch()) + "[";
      for(LogIndex i = std::max<LogIndex>(0, j->getLogSize() - 12); i < j->getLogSize(); i++) { RaftSerializedEntry e; if(j->fetch(i, e).ok()) s += S(RaftEntry::fetchTerm(e)) + "." + S(std::hash<string>()(e) % 1000000) + " "; } s += "]"; for(auto &o : names) s += S(link[{n, o}]); s += cutOnVote[n] ? "v" : ""; }
    s += S(pending.size()); for(auto &a : asks) s += a->id < 0 ? "" : a->done ? (acked.count(a->id) ? "y" : "n") : "?"; return s;
  }
  // ---- everything heals ----
  void heal() { vsched::Quiet q; for(auto &l : link) l.second = OK; cutOnVote.clear(); release(); }
  void finish() {
    heal(); for(auto &n : names) if(!g[n]) start(n); x.log("   everything works again"); string l; int id = -1; uint64_t from = vsched::now();
    for(int t = 0; t < 120; t++) {      // 30 seconds
      wait(250); auto v = leaders(); if(v.size() != 1) continue; l = v[0]; if(id < 0 || !acked.count(id)) { if(id < 0 || asks.back()->done) id = write(l); continue; }
      RaftMembership m; bool all = true; { vsched::Quiet q; m = (*g[l])->journal()->getMembership(); LogIndex size = (*g[l])->journal()->getLogSize(); for(auto *list : {&m.nodes, &m.observers}) for(auto &s : *list) { auto &d = *g[s.hostname]; all &= d->journal()->getLogSize() == size && d->journal()->getCommitIndex() == size - 1 && d->stateMachine()->getLastApplied() == size - 1; } } if(!all) continue;
      x.log("   all agree after ", S((vsched::now() - from) / 1000000), " ms"); machines(); check(l); x.nontrivial(); return;
    }
    x.fail("unavailable", "30 seconds after everything works again " + (leaders().size() == 1 ? string("not all nodes have the same log, or writes are not acknowledged") : S(leaders().size()) + " nodes lead"));
  }
  void check(const string &l) {
    auto got = scan(l); if(!got) x.fail("unavailable", "a read from the leader is refused"); auto &v = *got; std::set<int> had(v.begin(), v.end()); string what; for(int i : v) what += S(i) + " ";
    x.check(had.size() == v.size(), "twice", "a write was done twice: " + what); for(int i : acked) x.check(had.count(i), "lost", "write " + S(i) + " was acknowledged and is lost: " + what); for(int i : v) x.check(i >= 0 && i < sent, "invented", "a write nobody sent: " + what);
    for(auto &a : before) if(had.count(a.first) && had.count(a.second)) x.check(std::find(v.begin(), v.end(), a.first) < std::find(v.begin(), v.end(), a.second), "order", "write " + S(a.first) + " was acknowledged before " + S(a.second) + " was sent: " + what);
    x.outcome(what + canon());
  }
  std::set<std::pair<int, int>> before; 
  void send(const string &n) { collect(); int id = sent; for(int i : acked) before.insert({i, id}); write(n); }
  void end() { heal(); for(auto &n : names) if(g[n]) { stop(n); } asks.clear(); idle.clear(); release(); qclient::transport() = nullptr; }
};
// ---- what happens ----
struct Plan { Strs members, observers; Strs victims; std::vector<int> kinds = {CUT, HOLD, LATE}, waits = {0, 300, 3000}; bool always = false, power = false, reads = true; int depth = 3; };
static void plain(mc::Ctx &x, const Plan &p) {
  Strs all = p.members; { vsched::Quiet q; fakedb::wipeAll(); std::vector<RaftServer> v; for(auto &n : p.members) v.push_back(jr::srv(n)); for(auto &n : p.members) rn::format(n, v, 0, p.always ? FsyncPolicy::kAlways : FsyncPolicy::kSyncImportantUpdates); for(auto &n : p.observers) { rn::format(n, {RaftServer::Null()}, 0, p.always ? FsyncPolicy::kAlways : FsyncPolicy::kSyncImportantUpdates); all.push_back(n); } if(p.power) for(auto &n : all) { { rn::Group g(n, jr::srv(n)); g->stateMachine(); } for(auto path : {rn::journalPath(n), rn::dir(n) + "/current/state-machine"}) { auto m = fakedb::contents(path); fakedb::put(path, m); } } }
  Cluster c(x, all); for(auto &n : all) c.start(n); for(int t = 0; t < 20 && c.leaders().empty(); t++) c.wait(250); x.check(c.leaders().size() == 1, "unavailable", "no leader at the start"); c.wait(1000); x.log("   ", c.leaders()[0], " leads");
  const int W = (int)p.waits.size(); const Strs &victims = p.victims.empty() ? all : p.victims;
  for(int d = 0; d < p.depth; d++) {
    if(x.visited(c.canon() + S(vsched::now() / 10000000 % 25), p.depth - d)) { c.end(); return; } auto ls = c.leaders(); struct Op { string name; std::function<void()> f; }; std::vector<Op> ops; ops.push_back({"nothing", [](){}});
    for(auto &n : ls) ops.push_back({"write to " + n, [&c, n]() { c.send(n); }});
    for(auto &n : victims) for(int k : p.kinds) ops.push_back({n + (k == CUT ? " is cut off" : k == HOLD ? ": its messages vanish" : ": replies to and from it are late"), [&c, n, k, &all]() { for(auto &o : all) if(o != n) c.link[{n, o}] = c.link[{o, n}] = k; }});
    ops.push_back({"the network heals", [&c]() { c.heal(); }});
    for(auto &n : victims) { ops.push_back({n + " restarts", [&c, n]() { c.stop(n); c.start(n); }}); if(p.power) ops.push_back({n + " loses power", [&c, n]() { auto f = c.stop(n); { vsched::Quiet q; f(); c.seen[n] = 0; } c.start(n); }}); }
    if(p.power) ops.push_back({"all lose power", [&c, &all]() { std::vector<std::function<void()>> f; for(auto &n : all) c.up[n] = false; for(auto &n : all) f.push_back(c.stop(n)); { vsched::Quiet q; for(auto &h : f) h(); for(auto &n : all) c.seen[n] = 0; } for(auto &n : all) c.start(n); }});
    for(auto &n : victims) if(!std::count(ls.begin(), ls.end(), n)) ops.push_back({n + " attempts a coup", [&c, n]() { c.ask(n, {"RAFT_ATTEMPT_COUP"}); }});
    int k = x.choose((int)ops.size() * W, "operation"); x.log(S(vsched::now() / 1000000), " ms: ", ops[k / W].name, ", then ", S(p.waits[k % W]), " ms"); ops[k / W].f(); x.transition(); if(p.reads) for(auto &n : c.leaders()) c.read(n); c.wait(p.waits[k % W]); if(p.reads) for(auto &n : c.leaders()) c.read(n);
  }
  c.finish(); c.end();
}
// members a, b, c, d and the observer e: changes of the membership while the network falls apart and heals
static void membership(mc::Ctx &x, int depth) {
  const Strs all = {"a", "b", "c", "d", "e"}; { vsched::Quiet q; fakedb::wipeAll(); std::vector<RaftServer> v; for(auto n : {"a", "b", "c", "d"}) v.push_back(jr::srv(n)); for(auto n : {"a", "b", "c", "d"}) rn::format(n, v); rn::format("e", {RaftServer::Null()}); }
  Cluster c(x, all); for(auto &n : all) c.start(n); for(int t = 0; t < 20 && c.leaders().empty(); t++) c.wait(250); x.check(c.leaders().size() == 1, "unavailable", "no leader at the start"); string first = c.leaders()[0]; x.log("   ", first, " leads"); c.ask(first, {"RAFT_ADD_OBSERVER", "e:1"}); c.wait(3000);
  auto split = [&](const std::set<string> &s) { for(auto &n : all) for(auto &o : all) c.link[{n, o}] = n != o && s.count(n) != s.count(o) ? CUT : OK; }; struct Op { string name; std::function<void()> f; int wait; };
  for(int d = 0;; d++) {
    if(x.visited(c.canon() + S(vsched::now() / 10000000 % 25), depth - d)) { c.end(); return; } auto ls = c.leaders(); std::vector<Op> ops;
    for(int w : {0, 2000}) { if(d == depth && !w) continue; ops.push_back({"{a,e} and {b,c,d} are separated", [&]() { split({"a", "e"}); }, w}); ops.push_back({"{a,d,e} and {b,c} are separated", [&]() { split({"a", "d", "e"}); }, w}); ops.push_back({"the network heals", [&]() { c.heal(); }, w}); if(d < depth) ops.push_back({"{a,e} and {b,c,d} are separated, d is cut off once it has voted", [&]() { split({"a", "e"}); c.cutOnVote["d"] = true; }, w}); }
    if(d < depth) for(auto &n : ls) { if(x.thorough()) ops.push_back({"write to " + n, [&c, n]() { c.send(n); }, 2000}); ops.push_back({"promote e on " + n, [&c, n]() { c.ask(n, {"RAFT_PROMOTE_OBSERVER", "e:1"}); }, 2000}); for(auto m : {"a", "d"}) if(n != m) ops.push_back({string("remove ") + m + " on " + n, [&c, n, m]() { c.ask(n, {"RAFT_REMOVE_MEMBER", string(m) + ":1"}); }, 2000}); }
    Op &o = ops[x.choose((int)ops.size(), "operation")]; x.log(S(vsched::now() / 1000000), " ms: ", o.name, ", then ", S(o.wait), " ms"); size_t had = c.asks.size(); o.f(); if(x.tracing() && c.asks.size() > had) { auto &a = *c.asks.back(); x.log("      ", a.what, ": ", a.c->pipe.out.substr(0, a.c->pipe.out.find('\r'))); } x.transition(); c.wait(o.wait); if(d == depth) break;
  }
  c.finish(); c.end();
}
int main(int argc, char **argv) {
  Link::setConnectionLogging(false);
  mc::Check c; c.id = "C46";
  c.rule = "Complete clusters of the real components (directors, replicators, lease, write tracker, journal, state machine, client connections, all their threads) in virtual time; messages are delivered to the destination's real dispatcher over real connections. Every sequence, up to depth 2 (thorough 3), of writes to any node that takes itself for the leader, nodes being cut off, their messages vanishing or replies coming late, healing, restarts, coups and pauses of 0, 0.3 and 3 s on 3 nodes; up to depth 3 (4) of a subset; up to depth 2 (3) with power failures of one or all nodes under fsync policy 'always'; up to depth 4 (5) of partitions, a node dropping out after its vote, promotions and removals on 4 members and an observer. At every message: one leader per term, one vote per term, committed prefixes agree, terms do not go back, nothing is applied before it is committed; after every step: equal databases for equal positions, reads show all acknowledged writes; in the end, with everything healed: one leader, equal logs, acknowledged writes present once and in order.";
  c.assumptions = {"between blocking points threads run in a fixed order; interleavings of the components are explored by the checks of those components", "a power failure loses the unsynced part of both databases of a node", "whole nodes are cut off, not single directions of a link, while reads are checked", "no node is resilvered"};
  auto prep = []() { for(auto n : {"a", "b", "c", "d", "e"}) rn::dir(n); };
  c.spaces.push_back({"three", [=](mc::Ctx &x) { prep(); Plan p; p.members = {"a", "b", "c"}; p.depth = x.tier(2, 3); vsched::run(x, opts(), [&]() { plain(x, p); }); }});
  c.spaces.push_back({"deposed", [=](mc::Ctx &x) { prep(); Plan p; p.members = {"a", "b", "c"}; p.victims = {"a", "b"}; p.kinds = {CUT, LATE}; p.waits = {0, 3000}; p.depth = x.tier(3, 4); vsched::run(x, opts(), [&]() { plain(x, p); }); }});
  c.spaces.push_back({"power", [=](mc::Ctx &x) { prep(); Plan p; p.members = {"a", "b", "c"}; p.always = p.power = true; p.depth = x.tier(2, 3); vsched::run(x, opts(), [&]() { plain(x, p); }); }});
  c.spaces.push_back({"membership", [=](mc::Ctx &x) { prep(); vsched::run(x, opts(), [&]() { membership(x, x.tier(3, 4)); }); }});
  return mc::main(argc, argv, c);
}
