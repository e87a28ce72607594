//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "fakedb.hh"
#include "raftnode.hh"
#include "raft/RaftDirector.hh"
#include "pubsub/Publisher.hh"
#include "utils/AssistedThread.hh"
#include "utils/RequestCounter.hh"
#include <qclient/QClient.hh>
#include <rocksdb/db.h>
#include <thread>
using namespace quarkdb;
using rn::S;
static vsched::Options opts(int pre, bool timers) { vsched::Options o; o.preemptions = pre; o.timers = timers; return o; }
static const uint64_t kMs = 1000000;
// a thread that loops and waits, somebody who registers callbacks, somebody else who stops it as well
static void basic(mc::Ctx &x, int cbs, int stops, bool early) {
  int calls[3] = {0, 0, 0}, laps = 0; bool ended = false, endedEarly = false, asked = false;
  {
    AssistedThread t; int how = x.choose(3, "way to end"); int wait = x.choose(2, "kind of wait");
    auto loop = [&](ThreadAssistant &a) { while(!a.terminationRequested()) { { vsched::Quiet q; laps++; } if(wait) a.wait_for(std::chrono::seconds(1)); else a.wait_until(std::chrono::steady_clock::now() + std::chrono::seconds(1)); if(laps > 4 && !asked) { vsched::Quiet q; } } vsched::Quiet q; ended = true; if(!asked) endedEarly = true; };
    if(early) t.registerCallback([&]() { vsched::Quiet q; calls[2]++; });
    t.reset(loop);
    std::vector<std::thread> th;
    for(int i = 0; i < cbs; i++) th.emplace_back([&, i]() { t.registerCallback([&, i]() { vsched::Quiet q; calls[i]++; }); });
    for(int i = 0; i < stops; i++) th.emplace_back([&]() { { vsched::Quiet q; asked = true; } t.stop(); });
    { vsched::Quiet q; asked = true; }
    if(how == 0) t.stop(); else if(how == 1) { t.stop(); t.stop(); }
    for(auto &e : th) e.join();
    uint64_t before = vsched::now();
    if(how < 2) t.blockUntilThreadJoins(); else t.join();
    { vsched::Quiet q; x.check(ended, "not-joined", "joining returned although the thread had not finished"); (void)before; }
    t.join(); t.stop();
  }
  for(int i = 0; i < cbs; i++) x.check(calls[i] == 1, "callback", "a termination callback ran " + S(calls[i]) + " times"); x.check(!endedEarly, "ended-by-itself", "the thread ended although nobody had asked");
  x.nontrivial(); x.outcome(S(laps)); x.transition();
}
// started again after being joined, any number of times; callbacks of one life do not leak into the next
static void restart(mc::Ctx &x, int lives) {
  AssistedThread t; int total = 0, calls = 0, want = 0;
  for(int i = 0; i < lives; i++) {
    bool ended = false, early = false, asked = false; bool cb = x.choose(2, "callback"), lateCb = x.choose(2, "late callback"); int how = x.choose(3, "way to end");
    t.reset([&](ThreadAssistant &a) { while(!a.terminationRequested()) a.wait_for(std::chrono::hours(1)); vsched::Quiet q; ended = true; if(!asked) early = true; });
    if(cb) t.registerCallback([&]() { vsched::Quiet q; calls++; });
    vsched::point(); { vsched::Quiet q; x.check(!early, "ended-by-itself", "the thread of life " + S(i) + " ended at once"); asked = true; }
    if(how == 0) t.join(); else if(how == 1) { t.stop(); t.join(); } else { t.stop(); if(lateCb) { t.registerCallback([&]() { vsched::Quiet q; calls++; }); want++; } t.blockUntilThreadJoins(); }
    if(cb) want++;
    { vsched::Quiet q; total += ended; x.check(total == i + 1, "not-joined", "joining life " + S(i) + " returned too early"); x.check(calls == want, "callback", S(calls) + " callbacks ran, registered " + S(want)); }
  }
  x.nontrivial(); x.outcome(S(calls)); x.transition();
}
// a coordinator passing its termination on to workers it waits for
static void coordinator(mc::Ctx &x, int workers) {
  int done = 0;
  {
    AssistedThread c([&](ThreadAssistant &a) {
      std::vector<std::unique_ptr<AssistedThread>> w; for(int i = 0; i < workers; i++) { w.emplace_back(new AssistedThread([&](ThreadAssistant &b) { while(!b.terminationRequested()) b.wait_for(std::chrono::hours(1)); vsched::Quiet q; done++; })); a.propagateTerminationSignal(*w.back()); }
      for(auto &e : w) e->blockUntilThreadJoins(); a.dropCallbacks();
    });
    if(x.choose(2, "explicit stop")) c.stop();
  }
  { vsched::Quiet q; x.check(done == workers, "propagation", S(done) + " of " + S(workers) + " workers ended"); } x.nontrivial(); x.transition(); x.outcome(S(done));
}
// moved while running
static void moved(mc::Ctx &x) {
  bool ended = false; { AssistedThread a([&](ThreadAssistant &t) { while(!t.terminationRequested()) t.wait_for(std::chrono::hours(1)); vsched::Quiet q; ended = true; }); AssistedThread b(std::move(a)); a.join(); { vsched::Quiet q; x.check(!ended, "moved", "joining the emptied object stopped the thread"); } if(x.choose(2, "join")) b.join(); }
  vsched::Quiet q; x.check(ended, "not-joined", "the moved thread was not joined"); x.nontrivial(); x.transition(); x.outcome(S(x.tracing()));
}
// the background threads of the server: destroying each ends, without any timeout having to fire
static void components(mc::Ctx &x, int kind) {
  fakedb::wipeAll();
  if(kind == 0) { rocksdb::Options o; o.create_if_missing = true; rocksdb::DB *db = nullptr; { vsched::Quiet q; rocksdb::DB::Open(o, mc::scratch() + "/db", &db); } { FsyncThread f(db, std::chrono::milliseconds(1000)); vsched::point(); } delete db; }
  else if(kind == 1) { RequestCounter r(std::chrono::seconds(10)); vsched::point(); x.check(r.getOverallStats().reads == 0, "stats", "reads"); }
  else if(kind == 2) { Publisher p; vsched::point(); if(x.choose(2, "publication")) p.publish("a", "b"); if(x.choose(2, "revision")) { VersionedHashRevisionTracker t; t.forKey("k").addUpdate("f", "v"); p.schedulePublishing(std::move(t)); } }
  else if(kind == 3) { StateMachine sm(mc::scratch() + "/sm"); vsched::point(); }
  else {
    { vsched::Quiet q; rn::format("n", {jr::srv("a")}); }
    RaftJournal j(rn::journalPath("n")); StateMachine sm(mc::scratch() + "/sm"); Publisher pub;
    if(kind == 4) { RaftConfig cfg(sm); RaftTrimmer t(j, cfg, sm); RaftTrimmingBlock b(t, x.choose(2, "block")); vsched::point(); }
    if(kind == 5) { RaftWriteTracker w(j, sm, pub); vsched::point(); }
  }
  x.nontrivial(); x.transition(); x.outcome(S(kind));
}
// timeouts do fire here: the auto-commit thread and the fsync thread go round several times
static void rounds(mc::Ctx &x, int kind) {
  fakedb::wipeAll();
  if(kind == 0) { rocksdb::Options o; o.create_if_missing = true; rocksdb::DB *db = nullptr; { vsched::Quiet q; rocksdb::DB::Open(o, mc::scratch() + "/db", &db); db->Put({}, "a", "b"); } { FsyncThread f(db, std::chrono::milliseconds(100)); std::this_thread::sleep_for(std::chrono::milliseconds(350)); } delete db; }
  else {
    { vsched::Quiet q; rn::format("n", {jr::srv("a")}); } RaftJournal j(rn::journalPath("n")); j.setCurrentTerm(1, jr::srv("a")); uint64_t end = 0;
    { RaftCommitTracker ct(j); ct.updateTargets({}); for(int i = 0; i < 2; i++) { RaftEntry e; e.term = 1; for(auto s : {"set", "k", "v"}) e.request.push_back(s); x.check(j.append(j.getLogSize(), e), "append", "append refused"); if(x.choose(2, "pause")) std::this_thread::sleep_for(std::chrono::milliseconds(700)); } std::this_thread::sleep_for(std::chrono::milliseconds(1600)); x.check(j.getCommitIndex() == j.getLogSize() - 1, "autocommit", "a lone node has not committed its entries: " + S(j.getCommitIndex()) + " of " + S(j.getLogSize())); if(x.choose(2, "targets")) { ct.updateTargets({jr::srv("b"), jr::srv("c")}); j.append(j.getLogSize(), [] { RaftEntry e; e.term = 1; for(auto s : {"set", "k", "v"}) e.request.push_back(s); return e; }()); auto c = j.getCommitIndex(); std::this_thread::sleep_for(std::chrono::milliseconds(1600)); x.check(j.getCommitIndex() == c, "autocommit", "entries are committed automatically although there are other members"); } end = vsched::now(); }
    x.check(vsched::now() - end <= 500 * kMs, "slow-stop", "stopping took " + S((vsched::now() - end) / kMs) + " ms");
  }
  x.nontrivial(); x.transition(); x.outcome(S(kind));
}
// a whole raft group: director, replicator, heartbeats, trimmer, write tracker, publisher
static void group(mc::Ctx &x, bool timed) {
  fakedb::wipeAll(); int nodes = 1 + 2 * x.choose(2, "nodes"); int net = nodes == 1 ? 0 : x.choose(3, "network"); static const long waits[] = {0, 10, 1200, 5000}; long wait = waits[x.choose(4, "uptime")]; std::vector<RaftServer> m; for(int i = 0; i < nodes; i++) m.push_back(jr::srv(std::string(1, (char)('a' + i)))); { vsched::Quiet q; rn::format("n", m); }
  std::vector<std::promise<qclient::redisReplyPtr>> open;
  qclient::transport() = [&](const std::string &, int, const std::vector<std::string> &) { vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); if(net == 0) p.set_value(nullptr); else if(net == 1) open.push_back(std::move(p)); else { redisReply *r = new redisReply(); static char err[] = "ERR no"; r->type = REDIS_REPLY_ERROR; r->str = err; r->len = 6; r->elements = 0; r->element = nullptr; p.set_value(qclient::redisReplyPtr(r)); } return f; };
  uint64_t asked;
  { rn::Group g("n", jr::srv("a")); g->spinup(); if(wait) std::this_thread::sleep_for(std::chrono::milliseconds(wait)); else vsched::point(); if(timed && nodes == 1 && wait >= 5000) x.check(g->state()->getSnapshot()->status == RaftStatus::LEADER, "director", "a lone node has not become leader"); asked = vsched::now(); g->spindown(); if(x.choose(2, "again")) { x.log("  spun down after ", (vsched::now() - asked) / kMs, " ms"); g->spinup(); vsched::point(); asked = vsched::now(); g->spindown(); } }
  x.log("  spun down after ", (vsched::now() - asked) / kMs, " ms"); if(timed) x.check(vsched::now() - asked <= 2500 * kMs, "slow-stop", "stopping took " + S((vsched::now() - asked) / kMs) + " ms"); qclient::transport() = nullptr; x.nontrivial(); x.transition(); x.outcome(S((vsched::now() - asked) / kMs / 100));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C36";
  c.rule = "Every schedule up to a bound on preemptions of the real AssistedThread: a waiting thread being stopped, stopped twice, joined or destroyed while others register callbacks and stop it too; restarted lives; coordinator and workers; moving; and the server's own background threads (fsync, request counter, publisher, state machine scanners, trimmer, write tracker), each destroyed at any point. In these spaces timeouts never fire, so that a missed wake-up is a deadlock. With timeouts firing: periodic threads over several periods and a whole raft group spun up and down in 3 network conditions. Data races reported. Non-trivial: every execution.";
  for(bool timers : {false, true}) c.spaces.push_back({timers ? "basic-timeouts" : "basic", [timers](mc::Ctx &x) { vsched::run(x, opts(x.tier(4, 6), timers), [&]() { basic(x, 1, 0, false); }); }});
  c.spaces.push_back({"two-stops", [](mc::Ctx &x) { int early = x.choose(2, "early"); vsched::run(x, opts(x.tier(2, 3), false), [&]() { basic(x, 1, 1, early); }); }});
  c.spaces.push_back({"two-callbacks", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(2, 3), false), [&]() { basic(x, 2, 0, false); }); }});
  c.spaces.push_back({"restart", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(3, 4), false), [&]() { restart(x, x.tier(2, 3)); }); }});
  c.spaces.push_back({"coordinator", [](mc::Ctx &x) { int w = 1 + x.choose(2, "workers"); vsched::run(x, opts(x.tier(3, 4), false), [&]() { coordinator(x, w); }); }});
  c.spaces.push_back({"moved", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(4, 6), false), [&]() { moved(x); }); }});
  c.spaces.push_back({"components", [](mc::Ctx &x) { int k = x.choose(6, "component"); auto o = opts(x.tier(k < 3 ? 3 : 1, k < 3 ? 5 : 2), false); o.orders = k < 3; rn::dir("n"); vsched::run(x, o, [&]() { components(x, k); }); }});
  c.spaces.push_back({"rounds", [](mc::Ctx &x) { int k = x.choose(2, "component"); auto o = opts(0, true); rn::dir("n"); vsched::run(x, o, [&]() { rounds(x, k); }); }});
  c.spaces.push_back({"group", [](mc::Ctx &x) { auto o = opts(0, true); o.orders = false; rn::dir("n"); vsched::run(x, o, [&]() { group(x, true); }); }});
  c.spaces.push_back({"group-schedules", [](mc::Ctx &x) { auto o = opts(x.tier(1, 2), true); o.orders = false; o.maxSteps = 40000; rn::dir("n"); vsched::run(x, o, [&]() { group(x, false); }); }});
  return mc::main(argc, argv, c);
}
