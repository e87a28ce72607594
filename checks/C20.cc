//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "vsched.hh"
#include "leader.hh"
#include <algorithm>
#include <set>
#include <thread>
using namespace quarkdb; using rn::S; using std::string;
static vsched::Options opts(int pre, bool orders, bool races) { vsched::Options o; o.preemptions = pre; o.orders = orders; o.races = races; if(!orders) o.spin = 1000000; return o; }
static const int kLast = 4;          // the log holds entries 0..4
static void build(int extra = kLast) { fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); RaftJournal j(rn::journalPath("n")); j.setCurrentTerm(1, RaftServer()); for(int i = 1; i <= extra; i++) j.append(i, RaftEntry(1, "SET", "k" + S(i), "v")); }
static std::vector<RaftServer> mk(const std::vector<string> &v) { std::vector<RaftServer> r; for(auto &s : v) r.push_back(jr::srv(s)); return r; }
static const std::vector<std::vector<string>> kTargets = {{"b", "c"}, {"b"}, {}, {"c", "d"}, {"b", "c", "d"}, {"b", "c", "d", "e"}, {"c"}};
// highest index on a majority, the leader holding everything
static LogIndex majority(const std::map<string, LogIndex> &match, const std::vector<string> &targets, LogIndex own) {
  std::vector<LogIndex> v = {own}; for(auto &t : targets) { auto it = match.find(t); v.push_back(it == match.end() ? 0 : it->second); } std::sort(v.rbegin(), v.rend()); return v[v.size() / 2];
}
static void sequences(mc::Ctx &x, int depth) {
  { vsched::Quiet q; build(); } RaftJournal j(rn::journalPath("n")); RaftCommitTracker tr(j); std::map<string, LogIndex> match; std::vector<string> targets = kTargets[x.choose(kTargets.size(), "targets")]; tr.updateTargets(mk(targets)); LogIndex commit = 0, bound = 0, own = kLast; bool moved = false; int appended = 0;
  if(targets.empty()) { vsched::settle(); commit = bound = own; x.check(j.getCommitIndex() == own, "alone", "a lone node has committed " + S(j.getCommitIndex()) + " of " + S(own)); moved = true; }
  for(int d = 0; d < depth; d++) {
    int nt = (int)kTargets.size() + 2, op = x.thorough() ? x.choose(20 + nt, "operation") : x.choose(12 + nt, "operation"); if(!x.thorough()) { static const int idx[] = {1, 3, 4}; op = op < 12 ? op / 3 * 5 + idx[op % 3] : op + 8; } x.transition();
    if(op < 4 * (kLast + 1)) {
      string s(1, (char)('b' + op / (kLast + 1))); LogIndex i = op % (kLast + 1); x.log("  ", s, " has ", i); tr.getHandler(jr::srv(s)).update(i); match[s] = i; LogIndex m = majority(match, targets, own); if(!targets.empty()) bound = std::max(bound, m);
      bool counts = std::find(targets.begin(), targets.end(), s) != targets.end(); LogIndex now = j.getCommitIndex();
      if(counts && m > commit && i >= m) x.check(now >= m, "behind", "index " + S(m) + " is on a majority and just acknowledged, the commit index is " + S(now)); if(!counts) x.check(now == commit || (now > commit && now <= m), "stranger", "an acknowledgement of " + s + ", which is not a voting member, moved the commit index from " + S(commit) + " to " + S(now));
    }
    else if(op < 4 * (kLast + 1) + (int)kTargets.size()) { targets = kTargets[op - 4 * (kLast + 1)]; string n; for(auto &t : targets) n += t; x.log("  targets ", n); tr.updateTargets(mk(targets)); if(targets.empty()) { vsched::settle(); bound = own; x.check(j.getCommitIndex() == own, "alone", "a lone node has committed " + S(j.getCommitIndex()) + " of " + S(own)); } else bound = std::max(bound, majority(match, targets, own)); }
    else if(op == 4 * (kLast + 1) + (int)kTargets.size()) { x.log("  new leadership"); tr.reset(); match.clear(); tr.updateTargets(mk(targets)); moved = false; if(targets.empty()) { vsched::settle(); bound = own; } }
    else { if(appended >= 2) return; appended++; own++; x.log("  append ", own); j.append(own, RaftEntry(1, "SET", "x", "y")); if(targets.empty()) { vsched::settle(); bound = own; x.check(j.getCommitIndex() == own, "alone", "a lone node has not committed its new entry"); } }
    LogIndex now = j.getCommitIndex(); x.check(now >= commit, "back", "the commit index went back from " + S(commit) + " to " + S(now)); x.check(now <= bound, "unsafe", "commit index " + S(now) + ", but no majority holds more than " + S(bound)); if(now > commit) moved = true; commit = now;
    vsched::Quiet q; string c; for(auto &m : match) c += m.first + S(m.second); c += "|"; for(auto &t : targets) c += t; c += "|" + S(commit) + S(bound) + S(own) + S(moved); x.nontrivial(); x.outcome(c); if(x.visited(c, depth - d)) return;
  }
}
// acknowledgements, appends and membership changes on several threads; every commit index ever stored is judged when it is stored
static void concurrent(mc::Ctx &x, int kind) {
  { vsched::Quiet q; build(); } std::unique_ptr<RaftJournal> jp(new RaftJournal(rn::journalPath("n"))); RaftJournal &j = *jp; RaftCommitTracker tr(j); std::vector<string> t1 = {"b", "c"}, t2 = kind == 1 ? std::vector<string>{"b", "c", "d"} : kind == 2 ? std::vector<string>{"b"} : kind == 5 ? std::vector<string>{} : t1, start = kind == 3 ? std::vector<string>{"b", "c", "d", "e"} : t1; if(kind == 3) t2 = start; tr.updateTargets(mk(start));
  std::map<string, LogIndex> match; auto ack = [&](const string &s, LogIndex i) { { vsched::Quiet q; match[s] = std::max(match[s], i); } tr.getHandler(jr::srv(s)).update(i); }; LogIndex own = kLast, prev = 0;
  auto judge = [&](const char *when) { LogIndex c = j.getCommitIndex(); own = j.getLogSize() - 1; vsched::Quiet q; LogIndex b = std::max(majority(match, start, own), majority(match, t2, own)); x.check(c <= b, "unsafe", string(when) + ": commit index " + S(c) + ", a majority holds " + S(b)); x.check(c >= prev, "back", "the commit index went back"); prev = c; };
  std::vector<std::thread> t;
  if(kind == 0) { t.emplace_back([&]() { ack("b", 2); ack("b", 3); }); t.emplace_back([&]() { ack("c", 1); ack("c", 4); }); }
  else if(kind == 1) { t.emplace_back([&]() { ack("b", 2); ack("b", 4); }); t.emplace_back([&]() { ack("d", 3); }); t.emplace_back([&]() { tr.updateTargets(mk(t2)); }); }
  else if(kind == 2) { t.emplace_back([&]() { ack("b", 2); ack("b", 3); }); t.emplace_back([&]() { ack("c", 4); }); t.emplace_back([&]() { tr.updateTargets(mk(t2)); }); }
  else if(kind == 3) { t.emplace_back([&]() { ack("b", 4); }); t.emplace_back([&]() { ack("c", 3); }); t.emplace_back([&]() { ack("d", 2); ack("z", 4); }); }
  else if(kind == 4) { t.emplace_back([&]() { j.append(5, RaftEntry(1, "SET", "x", "y")); }); t.emplace_back([&]() { ack("b", 4); while(j.getLogSize() < 6) j.waitForUpdates(5, std::chrono::milliseconds(10)); ack("b", 5); }); t.emplace_back([&]() { ack("c", 3); }); }
  else { t.emplace_back([&]() { ack("b", 2); ack("b", 4); }); t.emplace_back([&]() { tr.updateTargets({}); tr.updateTargets(mk({"b"})); }); }
  judge("meanwhile"); judge("meanwhile"); for(auto &e : t) e.join(); judge("finally"); for(auto &e : match) tr.getHandler(jr::srv(e.first)).update(e.second); judge("after repeating the acknowledgements"); LogIndex c = j.getCommitIndex(), m = majority(match, kind == 5 ? std::vector<string>{"b"} : t2, own);
  x.check(c >= m, "final", "the commit index ends at " + S(c) + ", a majority holds " + S(m)); x.nontrivial(); x.transition(); x.outcome(S(kind) + S(c));
}
// a lone node commits by itself; entries are appended at any time, the tracker goes away at any time
static void alone(mc::Ctx &x, int appends, bool leave) {
  { vsched::Quiet q; build(1); } RaftJournal j(rn::journalPath("n")); LogIndex size = 2; { RaftCommitTracker tr(j); tr.updateTargets({}); std::thread a([&]() { for(int i = 0; i < appends; i++) j.append(2 + i, RaftEntry(1, "SET", "x", "y")); }); if(leave) { tr.updateTargets(mk({"b", "c"})); } LogIndex prev = 0; for(int i = 0; i < 2; i++) { LogIndex c = j.getCommitIndex(); x.check(c >= prev && c < j.getLogSize(), "range", "commit index " + S(c)); prev = c; } a.join(); size = 2 + appends; if(!leave) { vsched::settle(); x.check(j.getCommitIndex() == size - 1, "alone", "a lone node has committed " + S(j.getCommitIndex()) + " of " + S(size - 1)); } else { LogIndex c = j.getCommitIndex(); tr.getHandler(jr::srv("b")).update(size - 1); x.check(j.getCommitIndex() == size - 1 && c <= size - 1, "final", "final"); } }
  x.nontrivial(); x.transition(); x.outcome(S(j.getCommitIndex()));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C20";
  c.rule = "Every sequence of acknowledgements (4 servers, 5 indexes, going back as well), target changes (7 sets, none included), new leaderships and appends up to depth 4 (thorough 5) on the real RaftCommitTracker and RaftJournal; every schedule up to 2 (thorough 3) preemptions of 6 scripts of concurrent acknowledgements, appends and target changes, and of a lone node committing by itself, with data-race detection. Judged against the highest index held by a majority (counting the leader), recomputed by hand after each step: never beyond it, never back, reached as soon as the acknowledgement completing the majority is in. A complete leader (director, replicator and all its threads in virtual time) among 2 (thorough also 4) followers with logs that lag or conflict, and an observer or none: every sequence up to depth 2 (thorough 3) of followers answering, refusing connections, falling silent, answering slowly, late or not at all after handling the request, announcing a newer term, of writes and pauses: at every message the commit index covers only entries up to one of the current term stored on a majority, requests carry the leader's own log; in the end all have it. The same with a backlog of 1100 entries of a former term, so that streaming begins long before an entry of the leader's own term is sent, one follower silent and the other ceasing to answer at any of the first 10 messages: no entry of the former term is committed by counting (Figure 8).";
  c.assumptions = {"after a change of targets alone the commit index is advanced by the next acknowledgement", "acknowledgements are for entries the leader has"};
  c.spaces.push_back({"sequences", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(0, false, false), [&]() { sequences(x, x.tier(4, 5)); }); }});
  c.spaces.push_back({"concurrent", [](mc::Ctx &x) { rn::dir("n"); int k = x.choose(6, "script"); vsched::run(x, opts(x.tier(k == 0 ? 2 : 1, k == 0 ? 3 : 2), true, true), [&]() { concurrent(x, k); }); }});
  c.spaces.push_back({"alone", [](mc::Ctx &x) { rn::dir("n"); int a = 1 + x.choose(2, "appends"), l = x.choose(2, "leave"); auto o = opts(x.tier(a == 1 ? 2 : 1, 2 + (a == 1)), true, true); vsched::run(x, o, [&]() { alone(x, a, l); }); }});
  c.spaces.push_back({"replicator", [](mc::Ctx &x) { leader::space(x, x.tier(2, 3), true, false); }});
  c.spaces.push_back({"backlog", [](mc::Ctx &x) { leader::space(x, x.tier(1, 2), true, false, 1100); }});
  return mc::main(argc, argv, c);
}
