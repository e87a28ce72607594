//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "vsched.hh"
#include "leader.hh"
#include "reply.hh"
#include "raft/RaftUtils.hh"
#include <set>
#include <algorithm>
#include <thread>
using namespace quarkdb; using rn::S; using std::string;
using Clock = std::chrono::steady_clock; using ms = std::chrono::milliseconds; using TP = Clock::time_point;
static vsched::Options opts(int pre, bool orders, bool races) { vsched::Options o; o.preemptions = pre; o.orders = orders; o.races = races; o.spin = 1000000; return o; }
static const string kServers[] = {"b", "c", "d", "e", "f"};
static TP at(long n) { return TP() + std::chrono::seconds(1000000) + ms(n); }
static TP never() { return TP(); }
// The contact that keeps a quorum alive: the leader counts itself, so of n others the (quorum-1)-th most recent.
struct Model {
  std::map<string, TP> last; std::vector<string> targets;
  bool deadline(int extra, ms dur, TP &out) const { size_t n = targets.size(), need = (n + 1) / 2 + 1 + extra - 1; if(n == 0) return false; need = std::min(need, n); std::vector<TP> v; for(auto &t : targets) { auto it = last.find(t); v.push_back(it == last.end() ? never() : it->second); } std::sort(v.rbegin(), v.rend()); out = v[need - 1] + dur; return true; }
};
static const std::vector<std::vector<string>> kTargets = {{}, {"b"}, {"b", "c"}, {"b", "c", "d"}, {"b", "c", "d", "e"}, {"c", "d"}, {"b", "c", "d", "e", "f"}};
static void lease(mc::Ctx &x, int depth, int servers, int times) {
  const ms dur(100); int first = x.choose(kTargets.size(), "targets"); auto mk = [](const std::vector<string> &v) { std::vector<RaftServer> r; for(auto &s : v) r.push_back(jr::srv(s)); return r; };
  RaftLease l(mk(kTargets[first]), dur); Model m; m.targets = kTargets[first]; std::map<string, RaftLastContact*> handles;
  for(int d = 0; d < depth; d++) {
    int op = x.choose(servers * times + (int)kTargets.size(), "operation");
    if(op < servers * times) { string s = kServers[op / times]; TP t = at((op % times) * 50); auto &h = l.getHandler(jr::srv(s)); if(handles.count(s)) x.check(handles[s] == &h, "handler", "another handler for the same server"); handles[s] = &h; h.heartbeat(t); auto it = m.last.find(s); if(it == m.last.end() || it->second < t) m.last[s] = t; x.log("  contact ", s, " at ", (op % times) * 50); x.check(h.get() == m.last[s], "contact", "the last contact with " + s + " is not the latest one"); }
    else { m.targets = kTargets[op - servers * times]; l.updateTargets(mk(m.targets)); string n; for(auto &t : m.targets) n += t; x.log("  targets ", n); }
    x.transition(); for(int extra : {0, 1}) { TP want, got, before = Clock::now(); got = extra ? l.getShakyQuorumDeadline() : l.getDeadline(); if(m.deadline(extra, dur, want)) { x.check(got == want, extra ? "shaky" : "deadline", string(extra ? "shaky quorum " : "") + "deadline is " + S(std::chrono::duration_cast<ms>(got - at(0)).count()) + " ms, should be " + S(std::chrono::duration_cast<ms>(want - at(0)).count())); } else x.check(got >= before + dur && got <= Clock::now() + dur, "alone", "the lease of a lone node does not count from now"); }
    string c; for(auto &t : m.last) c += t.first + S(std::chrono::duration_cast<ms>(t.second - at(0)).count()) + " "; c += "|"; for(auto &t : m.targets) c += t; x.nontrivial(); x.outcome(c); if(x.visited(c, depth - d)) return;
  }
}
// contacts arriving on several threads, deadlines being read meanwhile
static void concurrent(mc::Ctx &x, int readers, bool reconfigure) {
  const ms dur(100); RaftLease l({jr::srv("b"), jr::srv("c")}, dur); std::vector<std::thread> t; l.getHandler(jr::srv("b")).heartbeat(at(0));
  t.emplace_back([&]() { l.getHandler(jr::srv("b")).heartbeat(at(20)); l.getHandler(jr::srv("b")).heartbeat(at(10)); }); t.emplace_back([&]() { l.getHandler(jr::srv("c")).heartbeat(at(15)); if(reconfigure) l.getHandler(jr::srv("z")).heartbeat(at(90)); });
  if(reconfigure) t.emplace_back([&]() { l.updateTargets({jr::srv("b"), jr::srv("c"), jr::srv("d")}); });
  TP prev = never(); for(int i = 0; i < readers; i++) { TP d = l.getDeadline(); vsched::Quiet q; bool ok = reconfigure ? d == never() + dur || d == at(0) + dur || d == at(15) + dur || d == at(20) + dur : d == at(0) + dur || d == at(15) + dur || d == at(20) + dur; x.check(ok, "deadline", "a deadline nobody's contact explains: " + S(std::chrono::duration_cast<ms>(d - at(0)).count())); if(!reconfigure) x.check(d >= prev, "back", "the deadline went back"); prev = d; }
  for(auto &e : t) e.join(); TP d = l.getDeadline(); x.check(d == (reconfigure ? at(15) : at(20)) + dur, "final", "the final deadline is " + S(std::chrono::duration_cast<ms>(d - at(0)).count())); x.nontrivial(); x.transition(); x.outcome(S(reconfigure));
}
// ---- followers
static const std::vector<std::pair<int, int>> kRanges = {{5, 5}, {1, 2}, {3, 7}, {1000, 1500}, {0, 0}, {0, 1}};
static void follower(mc::Ctx &x, int depth) {
  auto rg = kRanges[x.choose(5, "range")]; RaftHeartbeatTracker h(RaftTimeouts(ms(rg.first), ms(rg.second), ms(1))); TP last = never(); bool artificial = false; TP now = at(0); h.heartbeat(now); last = now; ms to = h.getRandomTimeout(); string c = S(to.count());
  for(int d = 0; d < depth; d++) {
    int op = x.choose(8, "operation"); x.transition();
    switch(op) {
      case 0: now += ms(1); break; case 1: now += to; break; case 2: now += to + ms(1); break;
      case 3: h.heartbeat(now); last = std::max(last, now); break; case 4: h.heartbeat(now - ms(2)); last = std::max(last, now - ms(2)); break;
      case 5: h.triggerTimeout(); artificial = true; break; case 6: { ms r = h.refreshRandomTimeout(); x.check(r.count() >= rg.first && r.count() <= rg.second, "range", "timeout " + S(r.count()) + " outside " + S(rg.first) + ".." + S(rg.second)); x.check(h.getRandomTimeout() == r, "refresh", "another timeout than the one returned"); to = r; break; }
      case 7: { auto got = h.timeout(last + to); x.check(got == (artificial ? TimeoutStatus::kArtificial : TimeoutStatus::kNo), "early", "a timeout exactly at the limit"); if(artificial) artificial = false; x.check(h.timeout(last + to + std::chrono::nanoseconds(1)) == TimeoutStatus::kYes, "late", "no timeout just after the limit"); break; }
    }
    x.check(h.getLastHeartbeat() == last, "heartbeat", "the last heartbeat is not the latest one"); x.check(to.count() >= rg.first && to.count() <= rg.second && h.getRandomTimeout() == to, "range", "timeout " + S(h.getRandomTimeout().count()));
    if(op != 5) { auto got = h.timeout(now), want = artificial ? TimeoutStatus::kArtificial : now - last > to ? TimeoutStatus::kYes : TimeoutStatus::kNo; x.check(got == want, "timeout", "timeout status " + S((int)got) + " should be " + S((int)want)); artificial = false; c += S((int)got); } else c += "t";
  }
  x.nontrivial(); x.outcome(c);
}
static void range(mc::Ctx &x) {
  auto rg = kRanges[x.choose(kRanges.size(), "range")]; RaftTimeouts t(ms(rg.first), ms(rg.second), ms(3)); x.check(t.getLow() == ms(rg.first) && t.getHigh() == ms(rg.second) && t.getHeartbeatInterval() == ms(3), "getters", "getters"); std::set<long> seen; for(int i = 0; i < 20000; i++) { long v = t.getRandom().count(); x.check(v >= rg.first && v <= rg.second, "range", "drew " + S(v) + " from " + S(rg.first) + ".." + S(rg.second)); seen.insert(v); }
  if(rg.second - rg.first < 10) x.check((int)seen.size() == rg.second - rg.first + 1, "spread", "some timeouts in the range are never drawn"); RaftTimeouts back(ms(1), ms(1), ms(1)); x.check(RaftTimeouts::fromString(back, t.toString()) && back == t, "text", "timeouts do not survive as text"); x.nontrivial(); x.transition(20000); x.outcome(S(seen.size()));
}
static void texts(mc::Ctx &x) {
  static const std::vector<string> parts = {"1", "1500", "", "x", "1x", " 1", "99999999999999999999", "1.5"}; int n = x.choose(5, "parts"); string s; bool ok = n == 3; for(int i = 0; i < n; i++) { int p = x.choose(parts.size(), "part"); s += (i ? ":" : "") + parts[p]; ok &= p < 2; }
  RaftTimeouts t(ms(7), ms(8), ms(9)); bool got = RaftTimeouts::fromString(t, s); x.check(got == ok, "parse", mc::quote(s) + (got ? " is taken for timeouts" : " is refused")); if(!got) x.check(t == RaftTimeouts(ms(7), ms(8), ms(9)), "parse", "refused timeouts changed the target"); else x.check(t.toString() == s, "text", t.toString() + " from " + s); x.nontrivial(); x.transition(); x.outcome(S(ok));
}
static void heartbeats(mc::Ctx &x) {
  RaftHeartbeatTracker h(rn::timeouts()); std::thread a([&]() { h.heartbeat(at(10)); h.heartbeat(at(5)); }), b([&]() { h.heartbeat(at(7)); h.triggerTimeout(); }), c([&]() { h.refreshRandomTimeout(); }); TP l = h.getLastHeartbeat(); int art = 0; for(int i = 0; i < 2; i++) { auto s = h.timeout(at(20)); if(s == TimeoutStatus::kArtificial) art++; TP n = h.getLastHeartbeat(); x.check(n >= l, "back", "the last heartbeat went back"); l = n; }
  a.join(); b.join(); c.join(); x.check(h.getLastHeartbeat() == at(10), "final", "a heartbeat was lost"); if(h.timeout(at(20)) == TimeoutStatus::kArtificial) art++; x.check(art == 1, "artificial", S(art) + " artificial timeouts for one request"); x.check(h.timeout(at(1010)) == TimeoutStatus::kNo && h.timeout(at(1011)) == TimeoutStatus::kYes, "timeout", "timeout"); x.nontrivial(); x.transition(); x.outcome(S(art));
}
// ---- a leader steps down exactly when its lease runs out, a follower starts a round exactly when its timeout does
static void node(mc::Ctx &x) {
  { vsched::Quiet q; fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); } uint64_t firstRound = 0; qclient::transport() = [&](const string &, int, const std::vector<string> &req) { vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); if(req[0].find("VOTE") != string::npos && !firstRound) firstRound = vsched::now(); p.set_value(nullptr); return f; };
  { rn::Group g("n", jr::srv("a")); int beats = x.choose(4, "heartbeats"), gap = x.choose(2, "gap") ? 700 : 300; g->spinup(); uint64_t last = 0; for(int i = 0; i < beats; i++) { std::this_thread::sleep_for(ms(gap)); RaftHeartbeatRequest r; r.term = 1; r.leader = jr::srv("b"); auto resp = g->dispatcher()->heartbeat(r); x.check(resp.nodeRecognizedAsLeader, "setup", "setup"); last = vsched::now(); } std::this_thread::sleep_for(ms(4000)); g->spindown(); vsched::Quiet q; long waited = (long)((firstRound - last) / 1000000); x.check(firstRound > 0, "no-round", "a follower that hears nothing never times out"); x.check(waited >= 1000, "early", "a round was held " + S(waited) + " ms after the last heartbeat"); x.check(waited <= 2001, "late", "the first round was held only " + S(waited) + " ms after the last heartbeat"); }
  qclient::transport() = nullptr; x.nontrivial(); x.transition(); x.outcome(S(firstRound / 1000000));
}
// others answer until they stop; some of them observers
static void stepsDown(mc::Ctx &x) {
  bool observer = x.choose(2, "observer"); int others = x.choose(2, "size") ? 4 : 2; { vsched::Quiet q; fakedb::wipeAll(); std::vector<RaftServer> m; for(int i = 0; i <= others; i++) m.push_back(jr::srv(string(1, (char)('a' + i)))); rn::format("n", m); if(observer) { RaftJournal j(rn::journalPath("n")); string e; j.addObserver(0, jr::srv("z"), e); j.setCommitIndex(1); } }
  std::map<string, uint64_t> until, acked; uint64_t ledSince = 0, ledUntil = 0; for(int i = 1; i <= others; i++) until[string(1, (char)('a' + i))] = 2200 + (i > 2 ? 300 : 1) * x.choose(i > 2 ? 2 : 4, "answers until") * (i > 2 ? 1 : 310); if(observer) until["z"] = 1000000;
  qclient::transport() = [&](const string &host, int, const std::vector<string> &req) {
    vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); resp::Value v; v.type = '*'; auto add = [&](const string &s) { resp::Value e; e.type = '$'; e.str = s; v.arr.push_back(e); }; bool ok = vsched::now() / 1000000 <= until[host];
    if(req[0] == "RAFT_REQUEST_VOTE" || req[0] == "RAFT_REQUEST_PRE_VOTE") { add(req[1]); add("granted"); }
    else if(req[0] == "RAFT_HEARTBEAT") { add(req[1]); add("1"); add(""); }
    else if(req[0] == "RAFT_APPEND_ENTRIES") { RedisRequest r; for(auto &e : req) r.emplace_back(e.data(), e.size()); RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(r), a)) x.check(false, "parse", "append entries"); add(S(a.term)); add(S(a.prevIndex + 1 + a.entries.size())); add("1"); add(""); }
    else ok = false;
    if(ok) { acked[host] = vsched::now(); p.set_value(reply::make(v)); } else p.set_value(nullptr); return f; };
  { rn::Group g("n", jr::srv("a")); g->spinup(); for(int i = 0; i < 100; i++) { std::this_thread::sleep_for(ms(50)); vsched::Quiet q; bool l = g->state()->getSnapshot()->status == RaftStatus::LEADER; if(l && !ledSince) ledSince = vsched::now(); if(!l && ledSince && !ledUntil) { ledUntil = vsched::now(); break; } } g->spindown(); }
  qclient::transport() = nullptr; vsched::Quiet q; std::vector<uint64_t> v; for(auto &a : acked) if(a.first != "z") v.push_back(a.second); std::sort(v.rbegin(), v.rend()); x.check(ledSince > 0 && ledUntil > 0, "leader", ledSince ? "the leader does not step down though nobody answers any more" : "the node is not elected"); long after = ((long)ledUntil - (long)v[others / 2 - 1]) / 1000000;
  x.check(after >= 1000, "early", "the leader stepped down " + S(after) + " ms after the last contact with a quorum, the lease is 1000 ms"); x.check(after <= 1300, "late", "the leader stepped down only " + S(after) + " ms after the last contact with a quorum, the lease is 1000 ms"); x.nontrivial(); x.transition(); x.outcome(S(after));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C21";
  c.rule = "Every sequence of contacts (4 servers at 3 times, in and out of order) and target changes (7 sets) up to depth 4 (thorough 5) on the real RaftLease: after each step the deadline and the shaky-quorum deadline equal the quorum-th most recent contact plus the duration. Every sequence of 8 kinds of events up to depth 5 (thorough 6) on the real heartbeat tracker for 5 ranges. Every schedule of concurrent contacts and reads, with data-race detection. Drawn timeouts, texts, and a follower in virtual time. A complete leader among followers that answer, refuse connections, fall silent, answer slowly, late or not at all, or announce a newer term: every sequence of such changes, writes and pauses up to depth 2 (thorough 3): at every message the lease is never trusted longer than its duration after the sending of requests that a quorum answered.";
  c.assumptions = {"the random source is drawn from 20000 times per range, not enumerated"};
  c.spaces.push_back({"lease", [](mc::Ctx &x) { vsched::run(x, opts(0, false, false), [&]() { lease(x, x.tier(4, 5), 4, 3); }); }});
  c.spaces.push_back({"lease-race", [](mc::Ctx &x) { int r = x.choose(2, "reconfigure"); auto o = opts(x.tier(2, 3), true, true); vsched::run(x, o, [&]() { concurrent(x, 2, r); }); }});
  c.spaces.push_back({"follower", [](mc::Ctx &x) { vsched::run(x, opts(0, false, false), [&]() { follower(x, x.tier(5, 6)); }); }});
  c.spaces.push_back({"ranges", [](mc::Ctx &x) { auto o = opts(0, false, false); o.maxSteps = 100000000; vsched::run(x, o, [&]() { range(x); }); }});
  c.spaces.push_back({"texts", [](mc::Ctx &x) { vsched::run(x, opts(0, false, false), [&]() { texts(x); }); }});
  c.spaces.push_back({"follower-race", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(2, 3), true, true), [&]() { heartbeats(x); }); }});
  c.spaces.push_back({"node", [](mc::Ctx &x) { rn::dir("n"); auto o = opts(0, false, false); o.spin = 3000; o.maxSteps = 100000; vsched::run(x, o, [&]() { node(x); }); }});
  c.spaces.push_back({"leader", [](mc::Ctx &x) { rn::dir("n"); auto o = opts(0, false, false); o.spin = 3000; o.maxSteps = 1000000; vsched::run(x, o, [&]() { stepsDown(x); }); }});
  c.spaces.push_back({"replicator", [](mc::Ctx &x) { leader::space(x, x.tier(2, 3), false, true); }});
  return mc::main(argc, argv, c);
}
