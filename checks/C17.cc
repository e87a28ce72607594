//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "raftmodel.hh"
#include "vsched.hh"
using namespace quarkdb; using rn::S; using std::string;
static vsched::Options opts() { vsched::Options o; o.preemptions = 0; o.orders = false; o.races = false; o.spin = 3000; o.maxSteps = 50000000; return o; }
struct Node { jr::Model j; rm::Model s; LogIndex commit() const { return j.commit; } Node(const jr::Names &n) : j(n, 0, FsyncPolicy::kSyncImportantUpdates) {} };
static const std::vector<std::vector<RaftTerm>> kLogs = {{}, {1, 2}, {1, 1, 2}, {1}, {1, 1}, {1, 2, 2}};
static const char *kRoles[] = {"follower", "follower, voted for b", "follower of b", "follower of b, voted for c", "candidate", "leader", "in shutdown"};
struct Req {
  int kind; RaftTerm term; string who; LogIndex index = 0; RaftTerm lastTerm = 0; LogIndex commit = 0; std::vector<jr::Entry> entries; bool pre = false;    // 0 vote, 1 heartbeat, 2 append
  string show() const { string s = kind == 0 ? (pre ? "pre-vote" : "vote") : kind == 1 ? "heartbeat" : "append"; s += " of " + who + " in term " + S(term); if(kind != 1) s += " at " + S(index) + " of term " + S(lastTerm); if(kind == 2) { s += " commit " + S(commit) + " ["; for(auto &e : entries) s += jr::show(e) + "; "; s += "]"; } return s; }
};
struct Want { bool throws = false; int granted = 0; bool ok = false; bool contact = false; bool freeContact = false, freeThrow = false; };   // granted: 1 must, 0 must not, 2 either
static bool member(const Node &n, const string &s) { for(auto &e : n.j.members().nodes) if(e == s) return true; return false; }
// what the rules of raft ask for
static Want expect(Node &n, const Req &r) {
  Want w; auto &s = n.s; auto &j = n.j; auto sync = [&]() { j.term = s.term; j.vote = s.vote == "!" ? RaftState::BLOCKED_VOTE.hostname : s.vote; };
  if(r.who == s.me) { w.throws = true; return w; }
  if(r.kind == 0) {
    if(!member(n, r.who) && !s.leader.empty()) return w;
    if(!r.pre) s.apply({rm::OBSERVE, r.term, ""}); sync();
    RaftTerm mine = j.log.back().term; LogIndex last = j.size() - 1; bool upto = r.lastTerm > mine || (r.lastTerm == mine && r.index >= last);
    if(r.index < j.commit || (r.index == j.commit && r.lastTerm != j.at(r.index).term)) upto = false;         // would overwrite what is committed
    if(r.term != s.term && s.role == 'S' && !r.pre) w.freeThrow = true;          // a node that shuts down no longer follows terms
    if(!upto || r.term < s.term) return w;
    if(r.pre) { w.granted = !(r.term == s.term && !s.vote.empty() && s.vote != r.who); return w; }
    if(s.apply({rm::GRANT, r.term, r.who})) { w.granted = 1; w.contact = true; sync(); } else { w.granted = s.vote == r.who && s.role == 'F' && s.leader.empty() ? 2 : 0; w.freeContact = true; }   // the vote came too late, or the node may not vote: the candidate is live all the same
    return w;
  }
  s.apply({rm::OBSERVE, r.term, r.who}); sync();
  if(s.role == 'S' || r.term < s.term) return w;
  if(s.leader != r.who) { w.throws = true; return w; }
  w.contact = true; if(r.kind == 1) { w.ok = true; return w; }
  if(r.index < j.start || r.index >= j.size() || j.at(r.index).term != r.lastTerm) return w;
  size_t k = 0; while(k < r.entries.size() && r.index + 1 + (LogIndex)k < j.size() && j.at(r.index + 1 + k) == r.entries[k]) k++;
  if(k < r.entries.size()) {
    LogIndex at = r.index + 1 + k; if(at <= j.commit) { w.throws = true; return w; }
    while(j.size() > at) j.log.pop_back(); while(j.members().epoch >= at) j.memb.pop_back();
    for(; k < r.entries.size(); k++) { auto &e = r.entries[k]; if(e.req[0] == "JOURNAL_UPDATE_MEMBERS") { jr::Memb m{{"a", "b", "c", "d"}, {}, 0}; j.member(j.size(), e, m); } else j.append(j.size(), e); }
  }
  j.commit = std::max(j.commit, std::min(r.commit, r.index + (LogIndex)r.entries.size())); w.ok = true; return w;
}
static string brief(const Node &n) { return n.s.show() + " | " + n.j.canon(); }
static std::vector<Req> requests(const Node &n, bool all) {
  std::vector<Req> v; const auto &j = n.j; RaftTerm T = n.s.term; std::vector<string> who = {"b", "c", "d"}; std::vector<RaftTerm> terms = {T - 1, T, T + 1};
  for(auto &w : who) for(RaftTerm t : terms) { if(t < 0) continue; for(LogIndex i = std::max<LogIndex>(0, j.start - 1); i <= j.size(); i++) for(RaftTerm lt = std::max<RaftTerm>(0, j.log.back().term - 1); lt <= std::min(t, j.log.back().term + 1); lt++) for(bool p : {true, false}) v.push_back({0, t, w, i, lt, 0, {}, p}); if(w != "d" || all) v.push_back({1, t, w}); }
  v.push_back({0, T + 1, "a", j.size(), T}); v.push_back({1, T + 1, "a"});
  for(auto &w : who) for(RaftTerm t : terms) { if(t < 0 || (w == "d" && !all)) continue;
    for(LogIndex p = std::max<LogIndex>(0, j.start - 1); p <= j.size(); p++) {
      bool in = p >= j.start && p < j.size(); RaftTerm pt = in ? j.at(p).term : j.log.back().term; std::vector<std::vector<jr::Entry>> es; es.push_back({}); jr::Entry fresh{t, {"SET", "n", w}}, fresh2{t, {"SET", "m", w}}; std::vector<jr::Entry> copy; if(in) for(LogIndex i = p + 1; i < j.size(); i++) copy.push_back(j.at(i)); if(!copy.empty()) es.push_back(copy); if(copy.size() > 1) es.push_back({copy[0]});
      auto e = copy; e.push_back(fresh); es.push_back(e); if(!copy.empty()) { es.push_back({fresh}); es.push_back({copy[0], fresh, fresh2}); } if(all) es.push_back({fresh2, fresh}); es.push_back({jr::Entry{t, {"JOURNAL_UPDATE_MEMBERS", "a:1,b:1,c:1,d:1|", jr::kCluster}}});
      for(auto &en : es) { bool sane = true; RaftTerm last = pt; for(auto &x : en) { sane &= x.term >= last && x.term <= t; last = x.term; } if(!sane) continue; for(LogIndex c : {(LogIndex)0, p, j.size() - 1, j.size() + 4}) { if(!all && c == j.size() - 1) continue; v.push_back({2, t, w, p, pt, c, en}); if(in && en.size() < 2) v.push_back({2, t, w, p, pt + 1, c, en}); } }
    } }
  return v;
}
// performs one request on the node and judges it; n is the model and moves along
static void run(mc::Ctx &x, rn::Group &g, Node &n, const Req &r) {
  string before = brief(n); Node old = n; Want w = expect(n, r); auto beat = g->heartbeatTracker()->getLastHeartbeat(); vsched::advance(1000000); bool threw = false; RaftVoteResponse v; RaftHeartbeatResponse h; RaftAppendEntriesResponse a;
  try {
    if(r.kind == 0) { RaftVoteRequest q; q.term = r.term; q.candidate = jr::srv(r.who); q.lastIndex = r.index; q.lastTerm = r.lastTerm; v = g->dispatcher()->requestVote(q, r.pre); }
    else if(r.kind == 1) h = g->dispatcher()->heartbeat({r.term, jr::srv(r.who)});
    else { RaftAppendEntriesRequest q; q.term = r.term; q.leader = jr::srv(r.who); q.prevIndex = r.index; q.prevTerm = r.lastTerm; q.commitIndex = r.commit; for(auto &e : r.entries) q.entries.push_back(jr::toEntry(e)); a = g->dispatcher()->appendEntries(std::move(q)); }
  } catch(FatalException &e) { threw = true; }
  string in = r.show() + "\nin " + before; x.check(threw == w.throws || w.freeThrow, threw ? "throws" : "accepts", in + (threw ? "\nis treated as a violation of raft" : "\nshould be treated as a violation of raft"));
  if(!threw) {
    RaftTerm term = r.kind == 0 ? v.term : r.kind == 1 ? h.term : a.term; x.check(term == n.s.term, "term", in + "\nanswers with term " + S(term) + ", should be " + S(n.s.term));
    if(r.kind == 0) { bool granted = v.vote == RaftVote::GRANTED; if(w.granted != 2) x.check(granted == (w.granted == 1), granted ? "granted" : "refused", in + (granted ? "\nis granted" : "\nis refused")); }
    if(r.kind == 1) x.check(h.nodeRecognizedAsLeader == w.ok, "heartbeat", in + (w.ok ? "\nis refused" : "\nis accepted"));
    if(r.kind == 2) { x.check(a.outcome == w.ok, a.outcome ? "accepted" : "append-refused", in + (w.ok ? "\nis refused: " + a.err : "\nis accepted")); x.check(a.logSize == n.j.size(), "size", in + "\nanswers with log size " + S(a.logSize) + ", should be " + S(n.j.size())); }
    bool touched = g->heartbeatTracker()->getLastHeartbeat() != beat; x.check(touched == w.contact || w.freeContact, "contact", in + (touched ? "\ncounts as contact with a leader" : "\ndoes not count as contact with a leader"));
  }
  auto snap = g->state()->getSnapshot(); string got = rm::show(*snap); x.check(got == n.s.show(), "state", in + "\nleads to " + got + "\nshould be  " + n.s.show());
  auto *j = g->journal(); RaftServer vf = j->getVotedFor(); x.check(j->getLogSize() == n.j.size() && j->getLogStart() == n.j.start, "log", in + "\nleaves " + S(j->getLogSize()) + " entries, should be " + S(n.j.size())); x.check(j->getCommitIndex() == n.j.commit, "commit", in + "\nmoves the commit index to " + S(j->getCommitIndex()) + ", should be " + S(n.j.commit)); x.check(j->getCurrentTerm() == n.s.term && (vf.empty() ? "" : vf.hostname) == n.j.vote, "vote", in + "\nthe journal records term " + S(j->getCurrentTerm()) + " and vote " + vf.hostname);
}
static void explore(mc::Ctx &x, int depth) {
  std::vector<RaftTerm> log = kLogs[x.choose(x.tier(3, (int)kLogs.size()), "log")]; int mb = x.choose(3, "membership"), role = x.choose(7, "role"); bool ahead = x.choose(2, "term ahead of the log"); if(mb == 1 && (role == 4 || role == 5)) return;
  Node n(mb == 1 ? jr::Names{"b", "c"} : jr::Names{"a", "b", "c"}); int cs = (int)log.size() + 1; LogIndex commit = x.choose(x.tier(std::min(cs, 2), cs), "commit index"); if(!x.thorough() && commit == 1) commit = cs - 1; if(mb == 2 && !log.empty() && commit == 0 && x.choose(2, "membership committed") == 1) commit = 1; bool trim = commit > 0 && x.choose(2, "trimmed");
  { vsched::Quiet q; fakedb::wipeAll(); std::vector<RaftServer> nodes; for(auto &s : n.j.members().nodes) nodes.push_back(jr::srv(s)); rn::format("n", nodes); RaftJournal j(rn::journalPath("n")); RaftTerm T = (log.empty() ? 0 : log.back()) + ahead; j.setCurrentTerm(T, RaftServer()); n.s.term = n.j.term = T; n.s.voter = mb != 1;
    for(size_t i = 0; i < log.size(); i++) { jr::Entry e{log[i], {"SET", "k" + S(i), "v"}}; if(mb == 2 && i == 0) { jr::Memb m{{"a", "b", "c"}, {"d"}, 1}; e.req = {"JOURNAL_UPDATE_MEMBERS", jr::encode(m), jr::kCluster}; n.j.member(1, e, m); } else n.j.append(i + 1, e); x.check(j.append(i + 1, jr::toEntry(e)), "setup", "append"); }
    j.setCommitIndex(commit); n.j.commit = commit; if(trim) { j.trimUntil(commit); while(n.j.start < commit) { n.j.log.pop_front(); n.j.start++; } } }
  rn::Group g("n", jr::srv("a")); if(trim) g->stateMachine()->forceResetLastApplied(commit); g->dispatcher(); g->writeTracker(); auto step = [&](const rm::Op &o) { rm::perform(*g->state(), o); n.s.apply(o); }; n.s.size = n.j.size(); RaftTerm T = n.s.term;
  switch(role) { case 1: step({rm::GRANT, T, "b"}); break; case 2: step({rm::OBSERVE, T, "b"}); break; case 3: step({rm::GRANT, T, "c"}); step({rm::OBSERVE, T, "b"}); break; case 4: step({rm::CANDIDATE, T, ""}); break; case 5: step({rm::CANDIDATE, T, ""}); step({rm::ASCEND, T, ""}); n.j.log.push_back({T, {"JOURNAL_LEADERSHIP_MARKER", S(T), "a:1"}}); break; case 6: step({rm::SHUTDOWN, 0, ""}); break; }
  n.j.vote = n.s.vote == "!" ? RaftState::BLOCKED_VOTE.hostname : n.s.vote; vsched::settle(); x.check(rm::show(*g->state()->getSnapshot()) == n.s.show(), "setup", "setup " + string(kRoles[role]) + ": " + rm::show(*g->state()->getSnapshot()) + " instead of " + n.s.show());
  for(int d = 0;; d++) {
    string canon; { vsched::Quiet q; string got = jr::observe(*g->journal()); x.check(got == n.j.canon(), "journal", "the journal holds:\n" + got + "\nexpected:\n" + n.j.canon()); canon = brief(n); x.nontrivial(); x.outcome(canon); } if(x.visited(canon, depth - d)) return;
    // first branch: everything that must leave the node as it is, in one go; the others: one request that moves it
    struct Lists { std::vector<Req> moving, still; }; static std::map<string, Lists> known; static Lists none; Lists *l = &none;
    { vsched::Quiet q; string cb = brief(n); auto it = known.find(cb); if(it == known.end()) { if(known.size() > 300) known.clear(); it = known.emplace(cb, Lists()).first; for(auto &r : requests(n, x.thorough())) { Node t = n; expect(t, r); (brief(t) != cb ? it->second.moving : it->second.still).push_back(r); } } l = &it->second; }
    auto &moving = l->moving; auto still = std::vector<Req>();
    int k = d == depth ? 0 : x.choose((int)moving.size() + 1, "request");
    if(k == 0) { { vsched::Quiet q; still = l->still; } for(auto &r : still) run(x, g, n, r); x.transition(still.size()); vsched::Quiet q; string got = jr::observe(*g->journal()); x.check(got == n.j.canon(), "journal", "after requests without effect the journal holds:\n" + got + "\nexpected:\n" + n.j.canon()); return; }
    const Req r = moving[k - 1]; x.log("  ", r.show()); run(x, g, n, r); x.transition(); vsched::settle(); x.check(g->stateMachine()->getLastApplied() == n.j.commit, "applied", "applied up to " + S(g->stateMachine()->getLastApplied()) + ", committed up to " + S(n.j.commit));
  }
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C17";
  c.rule = "From every combination of 6 logs, 3 memberships, 7 roles, term equal to or ahead of the log, every commit index, trimmed or not: every vote, pre-vote, heartbeat and append request (candidates and leaders inside and outside the membership, terms around the current one, every previous/last index and term around the log, copies, extensions and conflicts of the log incl. membership entries, 4 commit indexes) sent to the real RaftDispatcher over real journal, state and state machine; all requests that must change nothing are sent in every state, and the others are followed up to depth 1 (thorough 2). Reply, term, role, leader, vote, log, membership and commit index are compared with the rules of raft.";
  c.assumptions = {"entries in an append request have terms that never decrease and do not exceed the term of the request", "a second vote for the same candidate in the same term may be granted or refused"};
  c.spaces.push_back({"requests", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { explore(x, x.tier(1, 2)); }); }});
  return mc::main(argc, argv, c);
}
