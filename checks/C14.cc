//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "vsched.hh"
#include <set>
#include <thread>
using namespace quarkdb; using rn::S; using std::string;
static vsched::Options opts(int pre) { vsched::Options o; o.preemptions = pre; return o; }
static jr::Entry entry(RaftTerm t, const string &k) { return jr::Entry{t, {"SET", k, string("XX\0|\n", 5)}}; }
static void build(int extra) {       // #0 the members, then `extra` entries of term 1
  fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); RaftJournal j(rn::journalPath("n")); j.setCurrentTerm(1, RaftServer()); for(int i = 1; i <= extra; i++) j.append(i, jr::toEntry(entry(1, "k" + S(i))));
}
static void waitUpdates(mc::Ctx &x, int waiters, int how) {
  { vsched::Quiet q; build(2); } RaftJournal j(rn::journalPath("n")); int done = 0; std::vector<std::thread> t;
  for(int w = 0; w < waiters; w++) t.emplace_back([&]() { LogIndex size = 3, goal = how == 2 ? 5 : 4; while(size < goal) { j.waitForUpdates(size, std::chrono::milliseconds(10000)); LogIndex s = j.getLogSize(); size = std::max(s, size); } RaftEntry e; x.check(j.fetch(goal - 1, e).ok(), "fetch", "a reported entry is not there"); vsched::Quiet q; done++; });
  if(how == 0) j.append(3, jr::toEntry(entry(1, "x"))); else if(how == 1) { string err; x.check(j.setCommitIndex(2) && j.addObserver(1, jr::srv("d"), err), "refused", err); } else { j.append(3, jr::toEntry(entry(1, "x"))); j.append(4, jr::toEntry(entry(1, "y"))); }
  for(auto &e : t) e.join(); x.check(done == waiters, "waiters", "waiters"); x.nontrivial(); x.transition(); x.outcome(S(how));
}
static void waitCommits(mc::Ctx &x, int waiters, bool twice, bool stop) {
  { vsched::Quiet q; build(3); } RaftJournal j(rn::journalPath("n")); std::vector<std::thread> t; int active = waiters; bool stopping = false; std::mutex m; LogIndex goal = stop ? 99 : twice ? 2 : 1;
  auto stopped = [&]() { std::scoped_lock l(m); return stopping; };
  for(int w = 0; w < waiters; w++) t.emplace_back([&]() { LogIndex seen = 0; while(seen < goal && !stopped()) { j.waitForCommits(seen); LogIndex c = j.getCommitIndex(); x.check(c >= seen, "back", "the commit index went back"); seen = c; } { std::scoped_lock l(m); active--; } });
  j.setCommitIndex(1); if(twice) j.setCommitIndex(2); if(stop) { { std::scoped_lock l(m); stopping = true; } for(;;) { { std::scoped_lock l(m); if(active == 0) break; } j.notifyWaitingThreads(); } }
  for(auto &e : t) e.join(); x.check(j.getCommitIndex() == (twice ? 2 : 1), "commit", "commit index"); x.nontrivial(); x.transition(); x.outcome(S(j.getCommitIndex()));
}
// writer scripts: contents of the log
enum { APPEND2, REPLACE, MEMBER, MEMBER_BACK, TRIM, NWRITERS };
// and everything else that is stored
enum { NOTHING, COMMIT, TERM, POLICY, TRIM2, NOTHERS };
enum { FETCH, ITERATE, SCAN, GETTERS, MEMBERS, MATCH, NREADERS };
static void readers(mc::Ctx &x, int writer, int other, int reader) {
  { vsched::Quiet q; build(4); } std::unique_ptr<RaftJournal> jp; jp.reset(new RaftJournal(rn::journalPath("n"))); RaftJournal &j = *jp; { vsched::Quiet q; j.setCommitIndex(2); if(writer == MEMBER_BACK) { string e; j.addObserver(1, jr::srv("d"), e); } }
  std::map<LogIndex, std::set<string>> versions; LogIndex stable = writer == REPLACE ? 3 : writer == MEMBER_BACK ? 5 : 100, trimmed = writer == TRIM || other == TRIM2 ? 2 : 0;
  auto add = [&](LogIndex i, const jr::Entry &e) { vsched::Quiet q; versions[i].insert(jr::show(e)); }; { vsched::Quiet q; for(LogIndex i = 0; i < j.getLogSize(); i++) { RaftEntry e; j.fetch(i, e); versions[i].insert(jr::show(jr::fromEntry(e))); } }
  std::set<string> membs; auto memb = [&]() { RaftMembership m = j.getMembership(); vsched::Quiet q; string s; for(auto &n : m.nodes) s += n.hostname + ","; s += "|"; for(auto &n : m.observers) s += n.hostname + ","; return s + "@" + S(m.epoch); };
  membs = writer == MEMBER || writer == MEMBER_BACK ? std::set<string>{"a,b,c,|@0", "a,b,c,|d,@5"} : std::set<string>{"a,b,c,|@0"};
  std::thread a([&]() { bool ok = true; string err; auto put = [&](LogIndex i, RaftTerm t, const char *k) { auto e = entry(t, k); add(i, e); ok &= j.append(i, jr::toEntry(e)); };
    if(writer == APPEND2) { put(5, 1, "p"); put(6, 1, "q"); } else if(writer == REPLACE) { ok &= j.removeEntries(3); put(3, 1, "r3"); } else if(writer == MEMBER) { add(5, jr::Entry{1, {"JOURNAL_UPDATE_MEMBERS", "a:1,b:1,c:1|d:1", jr::kCluster}}); ok &= j.addObserver(1, jr::srv("d"), err); put(6, 1, "p"); } else if(writer == MEMBER_BACK) { ok &= j.removeEntries(5); put(5, 1, "p"); } else { j.trimUntil(1); put(5, 1, "p"); j.trimUntil(2); }
    x.check(ok, "refused", "a write was refused " + err); });
  std::thread b; if(other != NOTHING) b = std::thread([&]() { if(other == COMMIT) x.check(j.setCommitIndex(writer == REPLACE ? 2 : 4), "refused", "commit was refused"); else if(other == TERM) { x.check(j.setCurrentTerm(2, jr::srv("b")), "refused", "term was refused"); x.check(!j.setCurrentTerm(2, jr::srv("c")), "vote", "the vote was changed"); } else if(other == POLICY) { j.setFsyncPolicy(FsyncPolicy::kAlways); x.check(j.getFsyncPolicy() == FsyncPolicy::kAlways, "policy", "policy"); } else if(other == TRIM2) j.trimUntil(2); });
  auto check = [&](LogIndex i, const RaftEntry &e) { vsched::Quiet q; string s = jr::show(jr::fromEntry(e)); x.check(versions[i].count(s), "phantom", "entry " + S(i) + " read as " + s + ", which was never appended there"); };
  if(reader == FETCH) { LogIndex size = j.getLogSize(); for(LogIndex i = size - 1; i >= size - 2; i--) { RaftEntry e; bool ok = j.fetch(i, e).ok(); if(ok) check(i, e); else x.check(i >= stable, "hole", "entry " + S(i) + " below the reported size " + S(size) + " is not there"); } std::vector<RaftEntry> v; j.fetch_last(1, v); x.check(v.size() == 1, "last", "fetch_last"); if(stable == 100) check(versions.rbegin()->first >= 5 && v[0].request[1] == "q" ? 6 : v[0].request[0] == "JOURNAL_UPDATE_MEMBERS" ? 5 : v[0].request[1] == "p" ? (writer == MEMBER ? 6 : 5) : 4, v[0]); }
  else if(reader == ITERATE) { LogIndex size = j.getLogSize(), start = std::max<LogIndex>(trimmed, j.getLogStart()); auto it = j.getIterator(start, true); LogIndex i = start; for(; it.valid(); i++) { x.check(it.getCurrentIndex() == i, "iterator", "the iterator jumps"); RaftSerializedEntry s; it.current(s); RaftEntry e; x.check(RaftEntry::deserialize(e, s), "iterator", "garbage"); check(i, e); it.next(); } x.check(i >= std::min(size, stable), "iterator", "the iterator ended at " + S(i) + " of " + S(size)); }
  else if(reader == SCAN) { std::vector<RaftEntryWithIndex> out; LogIndex next = 2, last = 1; int rounds = 0; do { j.scanContents(next, 2, "", out, next); for(auto &o : out) { x.check(o.index == last + 1, "scan", "the scan jumps from " + S(last) + " to " + S(o.index)); last = o.index; check(o.index, o.entry); } } while(next != 0 && ++rounds < 10); x.check(last >= std::min<LogIndex>(4, stable - 1), "scan", "the scan ended at " + S(last)); }
  else if(reader == GETTERS) { LogIndex c = j.getCommitIndex(), s = j.getLogSize(), st = j.getLogStart(); x.check(c < s, "bounds", "commit index " + S(c) + " beyond the log size " + S(s)); x.check(st <= j.getCommitIndex(), "bounds", "log start beyond the commit index"); RaftTerm t = j.getCurrentTerm(); RaftServer v = j.getVotedFor(); x.check(t == 1 || t == 2, "term", "term"); x.check(v.empty() || v == jr::srv("b"), "vote", "vote for " + v.toString()); x.check(t <= j.getCurrentTerm() && c <= j.getCommitIndex() && st <= j.getLogStart(), "back", "a value went back"); FsyncPolicy p = j.getFsyncPolicy(); x.check(p == FsyncPolicy::kAlways || p == FsyncPolicy::kSyncImportantUpdates, "policy", "policy"); }
  else if(reader == MEMBERS) { for(int k = 0; k < 2; k++) { string m = memb(); x.check(membs.count(m), "membership", "membership " + m + " never existed"); LogIndex e = j.getEpoch(); x.check(e == 0 || e == 5, "epoch", "epoch " + S(e)); auto n = j.getNodes(); x.check(n.size() == 3, "nodes", S(n.size()) + " nodes"); } }
  else { x.check(j.matchEntries(2, 1), "match", "an entry does not match"); x.check(!j.matchEntries(2, 2), "match", "an entry matches another term"); std::vector<RaftEntry> v = {jr::toEntry(entry(1, "k2")), jr::toEntry(entry(1, "other"))}; LogIndex d = j.compareEntries(2, v); x.check(d == 3, "compare", "first difference at " + S(d)); }
  a.join(); if(b.joinable()) b.join(); vsched::Quiet q; string got = jr::observe(j); jp.reset(); { RaftJournal k(rn::journalPath("n")); string again = jr::observe(k); x.check(got == again, "reopen", "in memory:\n" + got + "\nafter reopening:\n" + again); } x.check(got.find("hole") == string::npos && got.find("mismatch") == string::npos, "holes", got); x.nontrivial(); x.transition(); x.outcome(got);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C14";
  c.rule = "Every schedule with up to 2 (thorough 3) preemptions of: 1-2 threads in waitForUpdates / waitForCommits against appends, membership changes, commits and stopping (timed waits never time out, so a missed wake-up is a deadlock); and of 5 scripts changing the log (appends, truncation and replacement, membership and its rollback, trimming) x 5 others (commit, term and vote, policy, trimming) x 6 kinds of readers on the real RaftJournal: readers see only entries appended at that index, none missing within the reported bounds, memberships that existed, bounds in order; afterwards no holes and the same state after reopening; data races reported.";
  c.assumptions = {"entries being trimmed are not being read (stated in the code)"};
  c.spaces.push_back({"wait-updates", [](mc::Ctx &x) { rn::dir("n"); int w = x.choose(2, "waiters") + 1, h = x.choose(3, "how"); auto o = opts(x.tier(2, 3)); o.timers = false; vsched::run(x, o, [&]() { waitUpdates(x, w, h); }); }});
  c.spaces.push_back({"wait-commits", [](mc::Ctx &x) { rn::dir("n"); int w = x.choose(2, "waiters") + 1, t = x.choose(2, "twice"), s = x.choose(2, "stop"); if(s && t) x.abandon(); auto o = opts(x.tier(2, 3)); o.timers = false; vsched::run(x, o, [&]() { waitCommits(x, w, t, s); }); }});
  c.spaces.push_back({"readers", [](mc::Ctx &x) { rn::dir("n"); int w = x.choose(NWRITERS, "writer"), b = x.choose(NOTHERS, "other"), r = x.choose(NREADERS, "reader"); if((w == TRIM && b == TRIM2) || (w == REPLACE && r == MATCH)) x.abandon(); int pre = b == NOTHING ? x.tier(2, 3) : x.tier(1, 2); vsched::run(x, opts(pre), [&]() { readers(x, w, b, r); }); }});
  return mc::main(argc, argv, c);
}
