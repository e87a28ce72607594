// A real node as leader - director, replicator, lease, commit tracker, all its threads - among followers made of a log and a way to
// answer.  Whatever they hold and however late or never they answer, what the leader commits and how long it trusts its lease is checked.
#ifndef LEADER_HH
#define LEADER_HH
#include "raftnode.hh"
#include "vsched.hh"
#include "reply.hh"
#include <algorithm>
#include <list>
#include <map>
#include <vector>
namespace leader {
using namespace quarkdb; using rn::S; using std::string; using Strs = std::vector<string>;
enum Mode { ANSWER, REFUSE, SILENT, SLOW, LATE, LOST, NEWER, MODES };     // SLOW: the answer takes 400 ms; LATE: it comes when the mode changes; LOST: handled, but the answer is lost; NEWER: a higher term is announced
inline const char *kMode[] = {"answers", "refuses connections", "is silent", "is slow", "answers late", "loses its answers", "announces a newer term"};
struct Pend { std::promise<qclient::redisReplyPtr> p; qclient::redisReplyPtr r; string host; uint64_t sent, due; };
struct Fol { std::vector<RaftTerm> log; RaftTerm term = 2; int mode = ANSWER; long contact = -1; };
// backlog: that many more entries of the former term, so that streaming starts long before any entry of the leader's own term is sent; b stops answering at any one message
inline void explore(mc::Ctx &x, int depth, bool commits, bool leases, int backlog = 0) {
  const int n = 1 + (!backlog && x.thorough() && x.choose(2, "four followers") ? 4 : 2); bool observer = !x.thorough() || x.choose(2, "observer"); Strs voters; for(int i = 1; i < n; i++) voters.push_back(string(1, (char)('a' + i))); std::map<string, Fol> fol; static const std::vector<std::vector<RaftTerm>> logs = {{0, 1, 2}, {0}, {0, 1, 1, 1}};
  { vsched::Quiet q; fakedb::wipeAll(); std::vector<RaftServer> m{jr::srv("a")}; for(auto &v : voters) m.push_back(jr::srv(v)); rn::format("n", m); RaftJournal j(rn::journalPath("n")); LogIndex at = 1; string e; if(observer) { j.addObserver(0, jr::srv("z"), e); at++; fol["z"].log.push_back(0); } j.setCurrentTerm(1, RaftServer()); j.append(at, RaftEntry(1, "SET", "k", "1")); j.setCurrentTerm(2, RaftServer()); j.append(at + 1, RaftEntry(2, "SET", "k", "2")); for(int i = 0; i < backlog; i++) j.append(at + 2 + i, RaftEntry(2, "SET", "k", "2")); }
  int stopAt = backlog ? x.choose(10, "b stops answering at message") : -1, appends = 0, stopMode = backlog ? x.choose(2, "how") ? LATE : SILENT : 0; std::vector<RaftTerm> known;
  for(int i = 0; i < (int)voters.size(); i++) { auto &f = fol[voters[i]]; f.log = logs[backlog ? 1 : i == 0 ? x.choose(3, "log of b") : i == 1 && x.thorough() ? 1 + x.choose(2, "log of c") : 1]; if(observer) f.log.insert(f.log.begin(), 0); if(backlog) f.mode = i == 0 ? ANSWER : SILENT; else if(i < 2) f.mode = x.choose(2, "mode") ? SILENT : ANSWER; } if(observer) fol["z"].mode = ANSWER;
  std::list<Pend> pend; RaftJournal *jp = nullptr; RaftState *sp = nullptr; RaftLease *lp = nullptr; /* the group's own accessors are locked while it goes down */ long allowed = 0; long lead = 0; const auto zero = std::chrono::steady_clock::now() - std::chrono::nanoseconds(vsched::now());
  auto inspect = [&]() {
    vsched::Quiet q; if(!jp) return; auto *j = jp; auto s = sp->getSnapshot(); long size = j->getLogSize(); std::vector<RaftTerm> mine; if(backlog) mine.swap(known); for(long i = mine.size(); i < size; i++) { RaftTerm t; if(!j->fetch(i, t).ok()) x.check(false, "setup", "entry missing"); mine.push_back(t); }
    if(s->status == RaftStatus::LEADER) { lead++; for(long i = size - 1; i > allowed; i--) { if(mine[i] != s->term) break; int have = 1; for(auto &v : voters) { auto &f = fol[v]; have += (long)f.log.size() > i && std::equal(f.log.begin(), f.log.begin() + i + 1, mine.begin()); } if(have > n / 2) allowed = i; } }
    long c = j->getCommitIndex(); if(commits) x.check(c <= allowed, "commit", "entry " + S(c) + " of term " + S(mine[c]) + " is committed in term " + S(s->term) + ", no entry beyond " + S(allowed) + " may be" );
    if(backlog) known.swap(mine);
    if(leases && s->status == RaftStatus::LEADER) { std::vector<long> v; for(auto &o : voters) v.push_back(fol[o].contact); std::sort(v.rbegin(), v.rend()); long by = v[n / 2 - 1]; long until = std::chrono::duration_cast<std::chrono::nanoseconds>(lp->getDeadline() - zero).count(); x.check(by >= 0 ? until <= by + 1000000000 : until <= (long)vsched::now(), "lease", "a quorum answered only requests sent until " + S(by / 1000000) + " ms, and the lease of 1000 ms is trusted until " + S(until / 1000000) + " ms"); }
  };
  auto deliver = [&](const string &host, uint64_t sent) { fol[host].contact = std::max(fol[host].contact, (long)sent); };
  auto release = [&](const string &host, bool all) { std::list<Pend> go; { vsched::Quiet q; for(auto i = pend.begin(); i != pend.end();) { auto k = i++; if((all || k->due <= vsched::now()) && (host.empty() || k->host == host)) go.splice(go.end(), pend, k); } for(auto &g : go) if(g.r) deliver(g.host, g.sent); } for(auto &g : go) g.p.set_value(g.r); };
  qclient::transport() = [&](const string &host, int, const Strs &req) {
    vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); resp::Value v; v.type = '*'; auto add = [&](const string &s) { resp::Value e; e.type = '$'; e.str = s; v.arr.push_back(e); }; auto &o = fol[host]; inspect();
    if(o.mode == REFUSE) { p.set_value(nullptr); return f; } bool vote = req[0] == "RAFT_REQUEST_VOTE" || req[0] == "RAFT_REQUEST_PRE_VOTE"; if(o.mode == SILENT && !vote) { pend.push_back({std::move(p), nullptr, host, vsched::now(), ~0ull}); return f; }
    if(vote) { if(req[0] == "RAFT_REQUEST_VOTE") o.term = std::max<RaftTerm>(o.term, atoll(req[1].c_str())); add(S(o.term)); add("granted"); }
    else if(o.mode == NEWER) { o.term = std::max<RaftTerm>(o.term, 9); add(S(o.term)); if(req[0] == "RAFT_APPEND_ENTRIES") add(S(o.log.size())); add("0"); add("My raft term is newer"); if(req[0] != "RAFT_APPEND_ENTRIES" && req[0] != "RAFT_HEARTBEAT") { p.set_value(nullptr); return f; } }
    else if(req[0] == "RAFT_HEARTBEAT") { RaftTerm t = atoll(req[1].c_str()); o.term = std::max(o.term, t); add(S(o.term)); add(o.term == t ? "1" : "0"); add(""); }
    else if(req[0] == "RAFT_APPEND_ENTRIES") {
      RedisRequest r; for(auto &e : req) r.emplace_back(e.data(), e.size()); RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(r), a)) x.check(false, "parse", "append entries"); if(backlog && host == "b" && a.entries.size() && appends++ == stopAt) { o.mode = stopMode; if(stopMode == SILENT) { pend.push_back({std::move(p), nullptr, host, vsched::now(), ~0ull}); return f; } } o.term = std::max(o.term, a.term); bool ok = o.term == a.term && a.prevIndex >= 0 && a.prevIndex < (long)o.log.size() && o.log[a.prevIndex] == a.prevTerm; RaftTerm t; auto *j = jp;
      if(commits) { x.check(a.commitIndex <= j->getCommitIndex(), "request", "the request announces more commits than there are"); if(j->fetch(a.prevIndex, t).ok()) x.check(t == a.prevTerm, "request", "the request says entry " + S(a.prevIndex) + " is of term " + S(a.prevTerm)); for(size_t i = 0; i < a.entries.size(); i++) { RaftEntry e; if(j->fetch(a.prevIndex + 1 + i, e).ok()) x.check(e == a.entries[i], "request", "entry " + S(a.prevIndex + 1 + i) + " is sent with other contents"); } }
      if(ok) for(size_t i = 0; i < a.entries.size(); i++) { size_t at = a.prevIndex + 1 + i; if(at < o.log.size() && o.log[at] != a.entries[i].term) o.log.resize(at); if(at == o.log.size()) o.log.push_back(a.entries[i].term); } add(S(o.term)); add(S(o.log.size())); add(ok ? "1" : "0"); add(ok ? "" : "Log entry mismatch");
    } else { p.set_value(nullptr); return f; }
    inspect(); auto r = reply::make(v); if(!vote && o.mode == LOST) { pend.push_back({std::move(p), nullptr, host, vsched::now(), vsched::now() + 100000000}); return f; } if(!vote && (o.mode == SLOW || o.mode == LATE)) { pend.push_back({std::move(p), r, host, vsched::now(), o.mode == SLOW ? vsched::now() + 400000000 : ~0ull}); return f; } deliver(host, vsched::now()); p.set_value(r); return f; };
  auto wait = [&](int ms) { for(int t = 0; t < ms; t += 50) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); release("", false); inspect(); } };
  auto leading = [&]() { vsched::Quiet q; return sp->getSnapshot()->status == RaftStatus::LEADER; }; bool newer = false, stop = false;
  { rn::Group g("n", jr::srv("a")); sp = g->state(); lp = g->lease(); jp = g->journal(); g->commitTracker(); g->spinup(); while(!leading() && vsched::now() < 10000000000ull) wait(50); x.check(leading(), "setup", "the node is not elected");
    for(int d = 0;; d++) {
      { vsched::Quiet q; string c = S(n) + S(observer) + S(leading()) + S(vsched::now() / 50000000 % 5) + S(sp->getSnapshot()->term) + "c" + S(jp->getCommitIndex()) + "s" + S(jp->getLogSize()); for(auto &f : fol) { c += f.first + S(f.second.mode) + S(f.second.contact < 0 ? -1 : std::min<long>(30, (vsched::now() - f.second.contact) / 50000000)); if(backlog) c += "#" + S(f.second.log.size()) + "." + S(f.second.log.back()); else for(auto t : f.second.log) c += "." + S(t); } c += "@" + S(stopAt < 0 ? -1 : std::min(appends, stopAt + 1)); for(auto &p : pend) c += p.host + S((vsched::now() - p.sent) / 50000000) + (p.r ? "r" : "n"); x.outcome(c); if(x.visited(c, depth - d)) { stop = true; break; } if(d == depth) { stop = !!getenv("STOP"); break; } }
      std::vector<int> ms = {ANSWER, SILENT, SLOW, LATE}, waits = {100, 1300}; if(x.thorough()) { ms.push_back(REFUSE); ms.push_back(LOST); waits.push_back(600); } if(!newer) ms.push_back(NEWER); int wr = leading(), modes = (int)ms.size(), W = (int)waits.size(); int k = x.choose((2 * modes + wr) * W, "operation"), w = waits[k % W]; k /= W; x.transition(); x.nontrivial();
      if(k == 2 * modes) { vsched::Quiet q; x.log("  write, then ", S(w), " ms"); auto *j = jp; j->append(j->getLogSize(), RaftEntry(sp->getSnapshot()->term, "SET", "k", "w")); }
      else { string h = voters[k / modes]; int m = ms[k % modes]; x.log("  ", h, " ", kMode[m], ", then ", S(w), " ms"); int was; { vsched::Quiet q; was = fol[h].mode; fol[h].mode = m; newer |= m == NEWER; } if(was != m) release(h, true); }
      wait(w);
    }
    { vsched::Quiet q; stopAt = -1; for(auto &f : fol) f.second.mode = ANSWER; } release("", true); if(stop) { g->spindown(); jp = nullptr; release("", true); qclient::transport() = nullptr; return; } wait(5000); for(int t = 0; t < 100 && !leading(); t++) wait(50); x.check(leading(), "leader", "five seconds after everybody answers the node does not lead");
    if(commits) { wait(2000); vsched::Quiet q; auto *j = jp; std::vector<RaftTerm> mine; for(long i = 0; i < j->getLogSize(); i++) { RaftTerm t; j->fetch(i, t); mine.push_back(t); } for(auto &f : fol) x.check(f.second.log == mine, "behind", "seconds after everybody answers " + f.first + " does not have the leader's log"); x.check(j->getCommitIndex() == j->getLogSize() - 1, "uncommitted", "seconds after everybody answers entry " + S(j->getLogSize() - 1) + " is not committed"); }
    g->spindown(); jp = nullptr; }
  release("", true); qclient::transport() = nullptr;
}
inline void space(mc::Ctx &x, int depth, bool commits, bool leases, int backlog = 0) { rn::dir("n"); vsched::Options o; o.preemptions = 0; o.orders = false; o.races = false; o.spin = 3000; o.maxSteps = 5000000; vsched::run(x, o, [&]() { explore(x, depth, commits, leases, backlog); }); }
}
#endif
