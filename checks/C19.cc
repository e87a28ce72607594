//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "vsched.hh"
#include "reply.hh"
#include "raft/RaftContactDetails.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftVoteRegistry.hh"
#include <thread>
using namespace quarkdb; using rn::S; using std::string; using resp::Value;
using Clock = std::chrono::steady_clock; using ms = std::chrono::milliseconds;
static vsched::Options opts(int pre, bool orders, bool races) { vsched::Options o; o.preemptions = pre; o.orders = orders; o.races = races; o.spin = 1000000; o.maxSteps = 100000; return o; }
static Value str(const string &s) { Value v; v.type = '$'; v.str = s; return v; }
static Value arr(std::vector<Value> a) { Value v; v.type = '*'; v.arr = std::move(a); return v; }
static Value raw(char t, const string &s = "") { Value v; v.type = t; v.str = s; return v; }
static Value vote(const string &term, const string &what) { return arr({str(term), str(what)}); }
// what may become of a request for a vote
enum Kind { GRANTED, REFUSED, VETO, NEVER, LOST, NEWER, MALFORMED, JUST_IN_TIME, LATE, NKINDS };
static const char *kindName[] = {"granted", "refused", "veto", "never", "lost", "refused-newer-term", "malformed", "granted-just-in-time", "granted-late"};
static const char *outcomeName(ElectionOutcome o) { return o == ElectionOutcome::kElected ? "elected" : o == ElectionOutcome::kVetoed ? "vetoed" : "not elected"; }
// The rule: a veto decides; otherwise a majority of all voting members, the candidate included.
static ElectionOutcome oracle(const std::vector<int> &kinds, bool pre) {
  size_t yes = 1; for(int k : kinds) if(k == VETO) return ElectionOutcome::kVetoed;
  for(int k : kinds) yes += k == GRANTED || k == JUST_IN_TIME || (pre && k == MALFORMED);
  return 2 * yes > kinds.size() + 1 ? ElectionOutcome::kElected : ElectionOutcome::kNotElected;
}
static Value content(int k, RaftTerm term) {
  switch(k) { case GRANTED: case JUST_IN_TIME: case LATE: return vote(S(term), "granted"); case REFUSED: return vote(S(term), "refused"); case VETO: return vote(S(term), "veto"); case NEWER: return vote(S(term + 2), "refused"); default: return raw('-', "ERR unknown command"); }
}
// ---- the counting alone
static void registry(mc::Ctx &x, int others, bool pre) {
  RaftVoteRegistry reg(5, pre); std::vector<int> kinds(others); int order = x.choose(2, "order"); auto deadline = Clock::now() + ms(1); int granted = 0, refused = 0, vetoes = 0, errors = 0, parse = 0;
  for(int i = 0; i < others; i++) { static const int use[] = {GRANTED, REFUSED, VETO, NEVER, LOST, MALFORMED}; kinds[i] = use[x.choose(6, "reply")]; }
  std::vector<std::promise<qclient::redisReplyPtr>> promises(others); bool direct = x.choose(2, "through futures") == 0;
  for(int n = 0; n < others; n++) {
    int i = order ? others - 1 - n : n, k = kinds[i]; RaftServer s = jr::srv(string(1, (char)('b' + i)));
    granted += k == GRANTED; refused += k == REFUSED; vetoes += k == VETO; errors += k == NEVER || k == LOST; parse += k == MALFORMED;
    if(direct) { if(k == NEVER || k == LOST) reg.registerNetworkError(s); else if(k == MALFORMED) reg.registerParseError(s); else reg.registerVote(s, RaftVoteResponse{5, k == GRANTED ? RaftVote::GRANTED : k == VETO ? RaftVote::VETO : RaftVote::REFUSED}); }
    else { if(k == LOST) promises[i].set_value(nullptr); else if(k != NEVER) promises[i].set_value(reply::make(content(k, 5))); auto f = promises[i].get_future(); reg.registerVote(s, f, deadline); }
  }
  ElectionOutcome got = reg.determineOutcome(), want = oracle(kinds, pre); string l; for(int k : kinds) l += string(" ") + kindName[k];
  x.check(got == want, "count", string(pre ? "pre-vote" : "vote") + " replies" + l + ": " + outcomeName(got) + ", should be " + outcomeName(want));
  x.check((int)reg.count(RaftVote::GRANTED) == granted && (int)reg.count(RaftVote::REFUSED) == refused && (int)reg.count(RaftVote::VETO) == vetoes && (int)reg.countNetworkError() == errors && (int)reg.countParseError() == parse, "tally", "the tallies are wrong for" + l);
  x.nontrivial(); x.transition(others); x.outcome(outcomeName(got) + S(others));
}
// ---- replies of any shape: only the exact words count
static void shapes(mc::Ctx &x) {
  static const std::vector<string> terms = {"5", "", "05", "+5", " 5", "5 ", "x", "5.0", "99999999999999999999", string("5\0", 2), "-"}, words = {"granted", "GRANTED", "granted ", " granted", "grante", "grantedx", string("granted\0", 8), "", "1", "+", "yes", "ok"};
  Value v; int shape = x.choose(14, "shape"); int t = 0, w = 0;
  switch(shape) {
    case 0: t = x.choose(terms.size(), "term"); w = x.choose(words.size(), "word"); v = vote(terms[t], words[w]); break;
    case 1: v = raw('_'); break; case 2: v = str("granted"); break; case 3: v = raw('+', "granted"); break; case 4: v = raw(':', "1"); break; case 5: v = raw('-', "granted"); break;
    case 6: v = arr({}); break; case 7: v = arr({str("granted")}); break; case 8: v = arr({str("5"), str("granted"), str("granted")}); break; case 9: v = arr({str("granted"), str("5")}); break;
    case 10: v = arr({raw(':', "5"), str("granted")}); break; case 11: { char t2 = "+-:_"[x.choose(4, "type")]; v = arr({str("5"), raw(t2, "granted")}); break; } case 12: v = arr({vote("5", "granted"), vote("5", "granted")}); break; case 13: v = arr({str("5"), vote("5", "granted")}); break;
  }
  bool valid = shape == 0 && words[w] == "granted" && (terms[t] == "5" || terms[t] == "05" || terms[t] == "+5");      // how leniently a number is read is not judged
  bool known = shape != 0 || !(words[w] == "granted" && (terms[t] == "05" || terms[t] == "+5"));
  RaftVoteRegistry reg(5, false); std::promise<qclient::redisReplyPtr> p; p.set_value(reply::make(v)); auto f = p.get_future(); reg.registerVote(jr::srv("b"), f, Clock::now() + ms(1)); reg.registerNetworkError(jr::srv("c"));
  if(known) x.check((reg.determineOutcome() == ElectionOutcome::kElected) == valid, "shape", "the reply " + v.show() + " counted as " + (valid ? "no " : "") + "support"); x.nontrivial(); x.transition(); x.outcome(S(shape));
}
// ---- one whole round over the network
struct Net {
  mc::Ctx &x; RaftTerm term = 0; LogIndex lastIndex = 0; RaftTerm lastTerm = 0; std::map<string, int> kinds; std::map<string, int> asked; string cmd; std::vector<std::promise<qclient::redisReplyPtr>> open; std::vector<std::thread> couriers;
  Net(mc::Ctx &c) : x(c) {
    qclient::transport() = [this](const string &host, int port, const std::vector<string> &req) {
      std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); int k; qclient::redisReplyPtr r;
      { vsched::Quiet q; x.check(port == 1 && kinds.count(host), "asked", "a vote request went to " + host); asked[host]++; x.check(req == std::vector<string>{cmd, S(term), "a:1", S(lastIndex), S(lastTerm)}, "request", "the request for a vote says otherwise"); k = kinds[host]; r = reply::make(content(k, term)); }
      if(k == LOST) p.set_value(nullptr); else if(k == NEVER) { vsched::Quiet q; open.push_back(std::move(p)); } else if(k == JUST_IN_TIME || k == LATE) couriers.emplace_back([this, k, r, p = std::move(p)]() mutable { std::this_thread::sleep_for(ms(k == LATE ? 501 : 499)); p.set_value(r); }); else p.set_value(r);
      return f; };
  }
  ~Net() { for(auto &c : couriers) c.join(); qclient::transport() = nullptr; }
};
static void prepare(int others) { fakedb::wipeAll(); std::vector<RaftServer> m; for(int i = 0; i <= others; i++) m.push_back(jr::srv(string(1, (char)('a' + i)))); rn::format("n", m); RaftJournal j(rn::journalPath("n")); j.setCurrentTerm(3, RaftServer()); j.append(1, RaftEntry(2, "SET", "k", "v")); j.append(2, RaftEntry(3, "SET", "k", "v")); string e; j.setCommitIndex(2); j.addObserver(3, jr::srv("z"), e); j.setCommitIndex(3); }
static void election(mc::Ctx &x, int others, int round) {       // round 0: vote, 1: pre-vote
  { vsched::Quiet q; prepare(others); } RaftJournal j(rn::journalPath("n")); RaftState state(j, jr::srv("a")); std::vector<RaftServer> peers; for(int i = 1; i <= others; i++) peers.push_back(jr::srv(string(1, (char)('a' + i)))); RaftLease lease(peers, ms(1000)); RaftContactDetails cd("cluster", rn::timeouts(), "");
  Net net(x); std::vector<int> kinds; { vsched::Quiet q; for(auto &p : peers) { int k = x.choose(NKINDS, "reply"); kinds.push_back(k); net.kinds[p.hostname] = k; } }
  bool pre = round == 1; if(!pre) { state.observed(4, RaftServer()); x.check(state.becomeCandidate(4), "setup", "setup"); } RaftVoteRequest req; req.term = 4; req.lastIndex = net.lastIndex = 3; req.lastTerm = net.lastTerm = 3; net.term = 4; net.cmd = pre ? "RAFT_REQUEST_PRE_VOTE" : "RAFT_REQUEST_VOTE";
  string before; { vsched::Quiet q; before = jr::observe(j) + S(state.getSnapshot()->term) + statusToString(state.getSnapshot()->status); }
  auto t0 = Clock::now(); ElectionOutcome got = pre ? RaftElection::performPreVote(req, state, cd) : RaftElection::perform(req, state, lease, cd);
  vsched::Quiet q; ElectionOutcome want = oracle(kinds, pre); bool newer = false; int granted = 0; for(int k : kinds) { newer |= !pre && k == NEWER; granted += k == GRANTED || k == JUST_IN_TIME; } if(newer && want == ElectionOutcome::kElected) want = ElectionOutcome::kNotElected;
  string l; for(int k : kinds) l += string(" ") + kindName[k]; x.check(got == want, "outcome", string(pre ? "pre-vote" : "election") + " with replies" + l + ": " + outcomeName(got) + ", should be " + outcomeName(want));
  for(auto &p : peers) x.check(net.asked[p.hostname] == 1, "asked", p.hostname + " was asked " + S(net.asked[p.hostname]) + " times"); x.check(Clock::now() - t0 <= ms(501), "slow", "the round took too long");
  auto s = state.getSnapshot(); if(pre) x.check(before == jr::observe(j) + S(s->term) + statusToString(s->status), "prevote-changes", "a pre-vote round changed the node"); else { x.check((s->status == RaftStatus::LEADER) == (got == ElectionOutcome::kElected), "leader", string("the node is ") + statusToString(s->status) + " after being " + outcomeName(got)); x.check(s->term == (newer ? 6 : 4), "term", "term " + S(s->term)); if(got == ElectionOutcome::kElected) { x.check(s->leader == jr::srv("a") && s->leadershipMarker == 4, "leader", "marker"); if(others) x.check(lease.getDeadline() == t0 + ms(1000), "lease", "the lease does not count from the sending of the requests"); } }
  x.nontrivial(); x.transition(); x.outcome(string(outcomeName(got)) + S(others));
}
// ---- rounds that must not even start
static void refused(mc::Ctx &x) {
  int why = x.choose(5, "why"); { vsched::Quiet q; prepare(2); } RaftJournal j(rn::journalPath("n")); RaftState state(j, jr::srv("a")); RaftLease lease({jr::srv("b"), jr::srv("c")}, ms(1000)); RaftContactDetails cd("cluster", rn::timeouts(), ""); Net net(x);
  RaftVoteRequest req; req.term = 4; req.lastIndex = 3; req.lastTerm = 3; if(why == 0) { state.observed(4, RaftServer()); } else { state.observed(4, RaftServer()); state.becomeCandidate(4); if(why == 1) req.term = 3; else if(why == 2) req.term = 5; else if(why == 3) state.observed(5, jr::srv("b")); else if(why == 4) state.dropOut(4); }
  string before; { vsched::Quiet q; before = jr::observe(j); } ElectionOutcome got = RaftElection::perform(req, state, lease, cd); vsched::Quiet q; x.check(got == ElectionOutcome::kNotElected && net.asked.empty(), "started", "a round was started though it could not count"); x.check(state.getSnapshot()->status == (why == 1 || why == 2 ? RaftStatus::CANDIDATE : RaftStatus::FOLLOWER) && before == jr::observe(j), "changed", "the node changed"); x.nontrivial(); x.transition(); x.outcome(S(why));
}
// ---- the state moves on while the votes come in
static void moving(mc::Ctx &x, int move, int second) {
  { vsched::Quiet q; prepare(2); } RaftJournal j(rn::journalPath("n")); RaftState state(j, jr::srv("a")); RaftLease lease({jr::srv("b"), jr::srv("c")}, ms(1000)); RaftContactDetails cd("cluster", rn::timeouts(), ""); Net net(x); net.kinds = {{"b", GRANTED}, {"c", second}}; net.term = 4; net.lastIndex = 3; net.lastTerm = 3; net.cmd = "RAFT_REQUEST_VOTE"; state.observed(4, RaftServer()); state.becomeCandidate(4);
  RaftVoteRequest req; req.term = 4; req.lastIndex = 3; req.lastTerm = 3; bool moved = false; std::thread t([&]() { moved = move == 0 ? state.observed(5, RaftServer()) : move == 1 ? state.observed(5, jr::srv("b")) : move == 2 ? state.observed(4, jr::srv("b")) : state.dropOut(4); });
  ElectionOutcome got = RaftElection::perform(req, state, lease, cd); t.join(); vsched::Quiet q; RaftEntry e; bool marker = j.fetch(4, e).ok(); auto s = state.getSnapshot();
  x.check(marker == (got == ElectionOutcome::kElected), "marker", string("the node says it is ") + outcomeName(got) + (marker ? " but took the leadership" : " but never took the leadership")); x.check(marker ? e.request[0] == "JOURNAL_LEADERSHIP_MARKER" && e.term == 4 : true, "marker", "entry");
  if(move < 2) x.check(moved && s->term == 5 && s->status == RaftStatus::FOLLOWER, "term", "the newer term was lost"); else x.check(s->term == 4 && (s->status == RaftStatus::LEADER) == (got == ElectionOutcome::kElected) && !(moved && s->status == RaftStatus::LEADER), "term", "state"); x.nontrivial(); x.transition(); x.outcome(string(outcomeName(got)) + S(move));
}
// ---- the director: when rounds are held, and what follows from them
static void director(mc::Ctx &x) {
  fakedb::wipeAll(); { vsched::Quiet q; prepare(2); } std::vector<string> log; std::vector<std::promise<qclient::redisReplyPtr>> open; int rounds = 0; std::map<string, int> cur; bool leading = false; std::vector<int> pre[3], real[3]; RaftTerm last = 0; string err; std::map<string, int> preSeen, realSeen;
  std::function<int(const string&, bool, RaftTerm)> decide = [&](const string &host, bool isPre, RaftTerm) { static const int use[] = {GRANTED, VETO, NEVER, REFUSED, LOST}; int k = rounds < 2 ? use[x.choose(x.thorough() ? 5 : rounds ? 3 : 4, "reply")] : (int)LOST; (void)host; (void)isPre; return k; };
  struct Round { bool pre; RaftTerm term; uint64_t at; std::vector<int> kinds; }; std::vector<Round> held;
  qclient::transport() = [&](const string &host, int, const std::vector<string> &req) {
    vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); bool isPre = req[0] == "RAFT_REQUEST_PRE_VOTE";
    if(isPre || req[0] == "RAFT_REQUEST_VOTE") { if(host == "z") err = "an observer was asked for its vote"; RaftTerm t = atoll(req[1].c_str()); if(held.empty() || held.back().pre != isPre || held.back().term != t || held.back().kinds.size() >= 2) { held.push_back({isPre, t, vsched::now(), {}}); if(held.size() > 1 && isPre) rounds++; } int k = decide(host, isPre, t); held.back().kinds.push_back(k); if(k == LOST) p.set_value(nullptr); else if(k == NEVER) open.push_back(std::move(p)); else p.set_value(reply::make(content(k, isPre ? t : t))); }
    else p.set_value(nullptr);
    return f; };
  bool hb = x.choose(2, "heartbeat"); std::vector<std::pair<uint64_t, RaftStatus>> hist; uint64_t beat = 0;
  { rn::Group g("n", jr::srv("a")); g->spinup(); for(int i = 0; i < 33; i++) { std::this_thread::sleep_for(ms(200)); vsched::Quiet q; if(i == 12 && hb) { RaftHeartbeatRequest r; r.term = g->state()->getSnapshot()->term; r.leader = jr::srv("b"); if(g->state()->getSnapshot()->leader.empty()) { beat = vsched::now(); g->dispatcher()->heartbeat(r); } } hist.push_back({vsched::now(), g->state()->getSnapshot()->status}); x.log("  ", vsched::now() / 1000000, " ms ", statusToString(hist.back().second)); if(hist.back().second == RaftStatus::LEADER) leading = true; } g->spindown(); }
  qclient::transport() = nullptr; vsched::Quiet q; string l; bool vetoed = false; uint64_t vetoAt = 0; bool elected = false, maybe = false; for(size_t i = 0; i < held.size(); i++) { auto &h = held[i]; l += string("\n    ") + S(h.at / 1000000) + " ms: " + (h.pre ? "pre-vote" : "vote") + " for term " + S(h.term); for(int k : h.kinds) l += string(" ") + kindName[k];
    if(vetoed) x.check(beat > vetoAt && h.at > beat, "vetoed", "after a veto the node held another round without having heard from a leader:" + l);
    x.check(h.kinds.size() == 2, "asked", "a round asked " + S(h.kinds.size()) + " servers:" + l); if(!h.pre) x.check(i > 0 && held[i - 1].pre && held[i - 1].term == h.term && oracle(held[i - 1].kinds, true) == ElectionOutcome::kElected, "unsupported", "an election was held without a successful pre-vote:" + l);
    auto o = oracle(h.kinds, h.pre); bool beaten = beat >= h.at && beat <= h.at + 500000000ull; if(h.pre && o == ElectionOutcome::kElected) x.check(i + 1 < held.size() || beaten || (vsched::now() - h.at) / 1000000 < 600, "skipped", "a successful pre-vote was not followed by an election:" + l); vetoed = o == ElectionOutcome::kVetoed; vetoAt = h.at; elected |= !h.pre && o == ElectionOutcome::kElected && !beaten; maybe |= beaten; if(!h.pre && i) x.check(h.term >= last, "terms", "the term went back"); last = h.term; if(i) x.check(h.at - held[0].at < 1000000000ull * 60, "x", "x"); x.check(h.at > 1000000000ull, "early", "a round before the first timeout"); }
  x.check(leading == elected || maybe, "leader", string("the node ") + (leading ? "leads" : "does not lead") + " after" + l); x.check(err.empty(), "observer", err); x.check(!held.empty(), "idle", "the node never tried although it heard nothing"); x.nontrivial(); x.transition(held.size()); x.outcome(l);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C19";
  c.rule = "Every vector of replies (granted, refused, veto, never, lost, newer term, malformed, just in time, late) from up to 4 (thorough 5) other members to the real RaftVoteRegistry, to RaftElection's vote and pre-vote rounds over real state and journal in virtual time, and (5 kinds, two rounds) to a whole node with its director; every malformed shape of reply; rounds that may not start; and every schedule (2, thorough 3 preemptions) of an election against the state moving on. Compared with counting by hand: veto, majority of all voting members including the candidate; leadership is taken exactly when elected, once per round every member but no observer is asked, pre-votes change nothing, votes follow only successful pre-votes, and after a veto no round is held before the next heartbeat.";
  c.assumptions = {"a malformed pre-vote reply counts as support, as the code says (old servers do not know pre-votes)"};
  c.spaces.push_back({"registry", [](mc::Ctx &x) { bool pre = x.choose(2, "pre-vote"); int n = x.choose(x.tier(6, 7), "others"); vsched::run(x, opts(0, false, false), [&]() { registry(x, n, pre); }); }});
  c.spaces.push_back({"shapes", [](mc::Ctx &x) { vsched::run(x, opts(0, false, false), [&]() { shapes(x); }); }});
  c.spaces.push_back({"election", [](mc::Ctx &x) { rn::dir("n"); int r = x.choose(2, "round"); int n = x.choose(x.tier(5, 6), "others"); vsched::run(x, opts(0, false, false), [&]() { election(x, n, r); }); }});
  c.spaces.push_back({"refused", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(0, false, false), [&]() { refused(x); }); }});
  c.spaces.push_back({"moving", [](mc::Ctx &x) { rn::dir("n"); int m = x.choose(4, "move"), s = x.choose(2, "second") ? NEVER : GRANTED; auto o = opts(x.tier(2, 3), true, true); o.spin = 60; vsched::run(x, o, [&]() { moving(x, m, s); }); }});
  c.spaces.push_back({"director", [](mc::Ctx &x) { rn::dir("n"); auto o = opts(0, false, false); o.spin = 3000; vsched::run(x, o, [&]() { director(x); }); }});
  return mc::main(argc, argv, c);
}
