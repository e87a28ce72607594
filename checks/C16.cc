//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "raftmodel.hh"
#include "vsched.hh"
#include <thread>
using rm::Op; using namespace quarkdb; using rn::S;
struct Done { Op op; int result = -1; long begin = 0, end = 0; };
struct Seen { std::string snap; RaftTerm term; long begin = 0, end = 0; };
// Is there an order of all operations, respecting those that finished before others began, that explains every result, every snapshot and the outcome?
struct Search {
  std::vector<std::vector<Done>> ops; std::vector<std::vector<Seen>> seen; std::string last; LogIndex size;
  bool go(rm::Model m, std::vector<size_t> at, std::vector<size_t> rd) {
    // snapshots which this state explains; taking one as early as possible is never worse
    long now = 0; for(size_t i = 0; i < ops.size(); i++) if(at[i]) now = std::max(now, ops[i][at[i] - 1].begin);
    bool more = true; while(more) { more = false; for(size_t r = 0; r < seen.size(); r++) if(rd[r] < seen[r].size() && seen[r][rd[r]].snap == m.show() && seen[r][rd[r]].end > now) { // it was taken after everything applied so far had begun
        rd[r]++; more = true; } }
    bool all = true; for(size_t i = 0; i < ops.size(); i++) if(at[i] < ops[i].size()) all = false;
    if(all) { for(size_t r = 0; r < seen.size(); r++) if(rd[r] < seen[r].size()) return false; return m.show() == last && m.size == size; }
    for(size_t i = 0; i < ops.size(); i++) { if(at[i] >= ops[i].size()) continue; const Done &d = ops[i][at[i]]; bool ok = true; for(size_t k = 0; k < ops.size(); k++) if(k != i) for(size_t z = at[k]; z < ops[k].size(); z++) if(ops[k][z].end < d.begin) ok = false; for(size_t r = 0; r < seen.size(); r++) for(size_t z = rd[r]; z < seen[r].size(); z++) if(seen[r][z].end < d.begin) ok = false; if(!ok) continue;
      rm::Model c = m; int want = c.apply(d.op); if(want >= 0 && want != d.result) continue; auto a = at; a[i]++; if(go(c, a, rd)) return true; }
    return false;
  }
};
static const std::vector<Op> &script(int i) {
  static const std::vector<std::vector<Op>> v = {
    {{rm::OBSERVE, 2, ""}, {rm::GRANT, 2, "b"}}, {{rm::OBSERVE, 2, ""}, {rm::GRANT, 2, "c"}}, {{rm::GRANT, 1, "b"}}, {{rm::GRANT, 1, "c"}}, {{rm::OBSERVE, 1, "b"}}, {{rm::OBSERVE, 1, "c"}}, {{rm::OBSERVE, 2, "b"}}, {{rm::OBSERVE, 2, "c"}, {rm::GRANT, 2, "b"}},
    {{rm::CANDIDATE, 1, ""}, {rm::ASCEND, 1, ""}}, {{rm::OBSERVE, 2, ""}, {rm::CANDIDATE, 2, ""}, {rm::ASCEND, 2, ""}}, {{rm::CANDIDATE, 1, ""}, {rm::DROPOUT, 1, ""}}, {{rm::SHUTDOWN, 0, ""}}, {{rm::OBSERVE, 3, ""}, {rm::OBSERVE, 2, "c"}}};
  return v[i];
}
static const int kScripts = 13;
static vsched::Options opts(int pre) { vsched::Options o; o.preemptions = pre; return o; }
static void concurrent(mc::Ctx &x, const std::vector<int> &which, bool reader, bool lead) {
  fakedb::wipeAll(); { vsched::Quiet q; RaftJournal j(rn::journalPath("n"), jr::kCluster, {jr::srv("a"), jr::srv("b"), jr::srv("c")}, 0, FsyncPolicy::kSyncImportantUpdates); }
  RaftJournal j(rn::journalPath("n")); RaftState s(j, jr::srv("a")); rm::Model m; long clock = 0; auto tick = [&]() { vsched::Quiet q; return ++clock; };
  { vsched::Quiet q; std::vector<Op> pre = {{rm::OBSERVE, 1, ""}}; if(lead) { pre.push_back({rm::CANDIDATE, 1, ""}); pre.push_back({rm::ASCEND, 1, ""}); } for(auto &o : pre) { m.apply(o); rm::perform(s, o); } }
  Search sr; sr.ops.resize(which.size()); sr.seen.resize(reader); std::vector<std::thread> t;
  for(size_t i = 0; i < which.size(); i++) { for(auto &o : script(which[i])) sr.ops[i].push_back(Done{o}); t.emplace_back([&, i]() { for(auto &d : sr.ops[i]) { d.begin = tick(); d.result = rm::perform(s, d.op); d.end = tick(); } }); }
  if(reader) { for(int k = 0; k < 2; k++) { Seen e; e.begin = tick(); auto sn = s.getSnapshot(); e.end = tick(); bool cur = s.isSnapshotCurrent(sn.get()); vsched::Quiet q; e.snap = rm::show(*sn); e.term = sn->term; (void)cur; if(k) x.check(e.term >= sr.seen[0].back().term, "term-back", "a reader saw the term go back"); sr.seen[0].push_back(e); } }
  for(auto &e : t) e.join(); auto fin = s.getSnapshot(); x.check(s.isSnapshotCurrent(fin.get()), "current", "the latest snapshot is not current"); vsched::Quiet q; sr.last = rm::show(*fin); sr.size = j.getLogSize(); x.transition(); std::string res, votes;
  for(auto &o : sr.ops) for(auto &d : o) { res += d.op.show() + "=" + S(d.result) + " "; if(d.result == 1) x.nontrivial(); }
  std::map<RaftTerm, std::string> given; for(auto &o : sr.ops) for(auto &d : o) if(d.result == 1 && (d.op.kind == rm::GRANT || d.op.kind == rm::CANDIDATE)) { std::string w = d.op.kind == rm::CANDIDATE ? "a" : d.op.who; auto &g = given[d.op.term]; x.check(g.empty() || g == w, "two-votes", "votes for " + g + " and " + w + " in one term"); g = w; }
  x.check(j.getCurrentTerm() == fin->term && rm::nameOf(j.getVotedFor()) == rm::nameOf(fin->votedFor), "journal", "journal and state differ in the end");
  std::string seen; for(auto &r : sr.seen) for(auto &e : r) seen += "; seen " + e.snap; x.check(sr.go(m, std::vector<size_t>(which.size()), std::vector<size_t>(reader)), "not-atomic", "no order of the operations explains: " + res + seen + "; in the end " + sr.last); x.outcome(res + sr.last);
}
static void shutdownWait(mc::Ctx &x, int kind) {
  fakedb::wipeAll(); { vsched::Quiet q; RaftJournal j(rn::journalPath("n"), jr::kCluster, {jr::srv("a"), jr::srv("b"), jr::srv("c")}, 0, FsyncPolicy::kSyncImportantUpdates); }
  RaftJournal j(rn::journalPath("n")); RaftState s(j, jr::srv("a")); int woken = 0; auto body = [&]() { if(kind % 2) s.wait(std::chrono::milliseconds(10000)); else s.wait_until(std::chrono::steady_clock::now() + std::chrono::seconds(10)); vsched::Quiet q; woken++; };
  std::thread a(body), b(body); if(kind / 2 == 0) s.shutdown(); else { vsched::settle(); s.observed(1, kind / 2 == 1 ? RaftServer() : jr::srv("b")); } a.join(); b.join(); x.check(woken == 2, "woken", "waiters"); x.nontrivial(); x.transition(); x.outcome(S(kind));
}
// a waiter sleeps at most as long as it asked for
static void timedWait(mc::Ctx &x) {
  fakedb::wipeAll(); { vsched::Quiet q; RaftJournal j(rn::journalPath("n"), jr::kCluster, {jr::srv("a")}, 0, FsyncPolicy::kSyncImportantUpdates); } RaftJournal j(rn::journalPath("n")); RaftState s(j, jr::srv("a")); int ms = x.choose(3, "timeout") * 70; bool until = x.choose(2, "until"); uint64_t t0 = vsched::now(); std::thread t([&]() { if(until) s.wait_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(ms)); else s.wait(std::chrono::milliseconds(ms)); }); t.join(); uint64_t d = vsched::now() - t0; x.check(d >= (uint64_t)ms * 1000000 && d <= (uint64_t)ms * 1000000 + 1000000, "timeout", "waited " + S(d / 1000) + " us instead of " + S(ms) + " ms"); x.nontrivial(); x.transition(); x.outcome(S(ms));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C16";
  c.rule = "Every pair out of 13 scripts of up to 3 role changes (observations, grants, candidacy and election, drop-out, shutdown; from follower and from leader) run by two threads on the real RaftState and RaftJournal with a third one reading snapshots, and triples without reader, every schedule with up to 1 preemption (2 for pairs out of 6 of them; thorough 2, and 3 without reader): some order of the operations has to explain all results, snapshots and the end (linearizability); one vote per term; data races and deadlocks reported; waiters of wait/wait_until wake on shutdown and on a new term without their timeout. Non-trivial: some operation was accepted.";
  auto pairs = [](mc::Ctx &x, int pre, bool deep) { rn::dir("n"); int a = x.choose(kScripts, "first"), b = a + x.choose(kScripts - a, "second"), lead = x.choose(2, "leading"); vsched::run(x, opts(pre), [&]() { concurrent(x, {a, b}, !deep, lead); }); };
  c.spaces.push_back({"pairs", [pairs](mc::Ctx &x) { pairs(x, x.tier(1, 2), false); }});
  c.spaces.push_back({"pairs-2", [](mc::Ctx &x) { rn::dir("n"); static const int sel[] = {2, 4, 6, 7, 8, 11}; int a = x.choose(6, "first"), b = a + x.choose(6 - a, "second"); vsched::run(x, opts(2), [&]() { concurrent(x, {sel[a], sel[b]}, false, false); }); }});
  c.spaces.push_back({"pairs-deep", [pairs](mc::Ctx &x) { pairs(x, 3, true); }, true});
  c.spaces.push_back({"triples", [](mc::Ctx &x) { rn::dir("n"); static const int sel[] = {0, 2, 4, 7, 8, 11}; int n = x.tier(4, 6); int a = x.choose(n, "first"), b = x.choose(n - 1, "second") + 1, d = x.choose(n, "third"); if(b < a || d < b) x.abandon(); vsched::run(x, opts(x.tier(1, 2)), [&]() { concurrent(x, {sel[a], sel[b], sel[d]}, false, false); }); }});
  c.spaces.push_back({"wake", [](mc::Ctx &x) { rn::dir("n"); int k = x.choose(6, "kind"); auto o = opts(x.tier(2, 3)); o.timers = false; vsched::run(x, o, [&]() { shutdownWait(x, k); }); }});
  c.spaces.push_back({"timeout", [](mc::Ctx &x) { rn::dir("n"); auto o = opts(0); vsched::run(x, o, [&]() { timedWait(x); }); }});
  return mc::main(argc, argv, c);
}
