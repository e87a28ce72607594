//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -ftrivial-auto-var-init=zero
#include "raftnode.hh"
#include "vsched.hh"
#include "reply.hh"
#include "raft/RaftUtils.hh"
#include <optional>
#include <thread>
using namespace quarkdb; using rn::S; using std::string; using ms = std::chrono::milliseconds;
static vsched::Options opts(int pre, bool orders, bool races) { vsched::Options o; o.preemptions = pre; o.orders = orders; o.races = races; o.spin = 3000; o.early = false; o.maxSteps = 1000000; return o; }
constexpr LogIndex kLifted = std::numeric_limits<LogIndex>::max();
struct Rig {
  std::unique_ptr<RaftJournal> j; std::unique_ptr<StateMachine> sm; std::unique_ptr<RaftConfig> cfg; std::unique_ptr<RaftTrimmer> t;
  Rig() { j.reset(new RaftJournal(rn::journalPath("n"))); sm.reset(new StateMachine(rn::dir("n") + "/current/state-machine")); cfg.reset(new RaftConfig(*sm)); }
  ~Rig() { t.reset(); cfg.reset(); sm.reset(); j.reset(); }
  LogIndex start() { return j->getLogStart(); }
  void append(int n) { for(int i = 0; i < n; i++) j->append(j->getLogSize(), RaftEntry(0, "SET", "k", "v"), false); }
  void commit(LogIndex i) { j->setCommitIndex(i); }
  void apply(LogIndex i) { while(sm->getLastApplied() < i) sm->noop(sm->getLastApplied() + 1); }
  void config(const string &v) { append(1); commit(j->getLogSize() - 1); apply(j->getLogSize() - 2); sm->configSet("raft.trimming", v, sm->getLastApplied() + 1); }
};
static void fresh() { vsched::Quiet q; fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); }
struct Cfg { const char *text; LogIndex keep, step; };
static const Cfg kCfg[] = {{"2:1", 2, 1}, {"5:3", 5, 3}, {"0:4", 0, 4}, {"3:100", 3, 100}, {"x", 50000000, 200000}, {"1:2:3", 50000000, 200000}, {"5:0", 50000000, 200000}, {"-3:1", 50000000, 200000}};
static void intact(mc::Ctx &x, Rig &r) {
  LogIndex s = r.start(), n = r.j->getLogSize(); for(LogIndex i = 0; i < n + 2; i++) { RaftTerm t; bool ok = r.j->fetch(i, t).ok(); x.check(ok == (i >= s && i < n), "entries", "entry " + S(i) + (ok ? " is there" : " is missing") + ", the log is " + S(s) + ".." + S(n)); }
}
// every sequence: appends, commits, applications, blocks, configurations; time passes in between
static void sequences(mc::Ctx &x, int depth) {
  fresh(); Rig r; int ci = x.choose(8, "configuration"); Cfg cf = kCfg[ci]; r.config(cf.text); r.append(8); LogIndex commit = 5, applied = 3; r.commit(commit); r.apply(applied);
  LogIndex start = r.start(), last = start; r.t.reset(new RaftTrimmer(*r.j, *r.cfg, *r.sm)); std::unique_ptr<RaftTrimmingBlock> b[2]; LogIndex prot[2] = {kLifted, kLifted}; vsched::settle();
  auto judge = [&](LogIndex keep) {
    LogIndex s = r.start(), n = r.j->getLogSize(); x.check(s >= last, "back", "the log start went back"); if(s == last) return;
    x.check(s <= r.j->getCommitIndex(), "uncommitted", "trimmed to " + S(s) + ", commit index " + S(r.j->getCommitIndex())); x.check(s <= r.sm->getLastApplied() + 1, "unapplied", "trimmed to " + S(s) + ", applied " + S(r.sm->getLastApplied())); x.check(n - s >= keep, "keep", S(n - s) + " entries remain, should be at least " + S(keep));
    for(LogIndex p : prot) x.check(p == kLifted || s <= std::max(p, last), "block", "trimmed to " + S(s) + " though entries from " + S(p) + " on are protected");
  };
  auto live = [&]() { LogIndex s = r.start(), n = r.j->getLogSize(), th = s + cf.step + 1; bool can = n - s > cf.keep + cf.step + 1 && r.j->getCommitIndex() > th && r.sm->getLastApplied() > th; for(LogIndex p : prot) can &= p > th; x.check(!can, "idle", "nothing is trimmed: log " + S(s) + ".." + S(n) + ", keeping " + S(cf.keep) + ", step " + S(cf.step)); };
  judge(cf.keep); live(); last = r.start();
  for(int d = 0; d < depth; d++) {
    int op = x.choose(16, "operation"); x.transition(); LogIndex n = r.j->getLogSize(), keep = cf.keep;
    switch(op) {
      case 0: x.log("  4 more entries"); if(n > 24) return; r.append(4); break;
      case 1: x.log("  commit"); if(commit == n - 1) return; commit = n - 1; r.commit(commit); break;
      case 2: x.log("  apply"); if(r.sm->getLastApplied() >= commit) return; r.apply(commit); break;
      case 3: x.log("  apply one"); if(r.sm->getLastApplied() >= commit) return; r.apply(r.sm->getLastApplied() + 1); break;
      case 4: case 5: case 6: case 7: case 8: case 9: { int w = op >= 8; LogIndex p = op == 4 ? 0 : op == 5 ? r.start() : op == 6 ? r.start() + 2 : op == 7 ? r.start() + 5 : op == 8 ? r.start() + 1 : r.start() + 3; x.log("  block ", w, " at ", p); if(!b[w]) b[w].reset(new RaftTrimmingBlock(*r.t, p)); else b[w]->enforce(p); prot[w] = p; x.check(b[w]->getPreservationIndex() == p, "getter", "getter"); break; }
      case 10: x.log("  lift 0"); if(!b[0]) return; b[0]->lift(); prot[0] = kLifted; break;
      case 11: x.log("  block 0 goes away"); if(!b[0]) return; b[0].reset(); prot[0] = kLifted; break;
      case 12: x.log("  block 1 goes away"); if(!b[1]) return; b[1].reset(); prot[1] = kLifted; break;
      case 13: x.log("  reopen"); b[0].reset(); b[1].reset(); prot[0] = prot[1] = kLifted; r.t.reset(); r.j.reset(); r.j.reset(new RaftJournal(rn::journalPath("n"))); x.check(r.start() == last, "reopen", "the log start changed by reopening"); r.t.reset(new RaftTrimmer(*r.j, *r.cfg, *r.sm)); break;
      case 14: case 15: { int k = (ci + 1 + 2 * (op - 14)) % 8; x.log("  configure ", kCfg[k].text); if(n > 24) return; keep = std::min(keep, kCfg[k].keep); ci = k; cf = kCfg[k]; r.config(cf.text); commit = r.j->getCommitIndex(); break; }
    }
    vsched::settle(); judge(keep); last = r.start(); for(LogIndex p : prot) for(LogIndex i = 0; i < 24; i++) x.check(p == kLifted || p > i || !r.t->canTrimUntil(i), "can", "trimming until " + S(i) + " is allowed though " + S(p) + " is protected");
    std::this_thread::sleep_for(ms(1100)); vsched::settle(); judge(cf.keep); live(); intact(x, r); last = r.start();
    vsched::Quiet q; string c = S(r.start()) + " " + S(r.j->getLogSize()) + " " + S(commit) + " " + S(r.sm->getLastApplied()) + " " + S(prot[0]) + " " + S(prot[1]) + " " + S(!!b[0]) + S(!!b[1]) + S(ci); x.nontrivial(); x.outcome(c); if(x.visited(c, depth - d)) break;
  }
  b[0].reset(); b[1].reset();
}
// blocks moved and lifted while the trimmer is at work
static void concurrent(mc::Ctx &x, int kind) {
  std::unique_ptr<vsched::Calm> calm(new vsched::Calm()); fresh(); Rig r; r.append(8); r.commit(8); r.apply(8); r.t.reset(new RaftTrimmer(*r.j, *r.cfg, *r.sm)); vsched::settle(); r.config("2:1"); LogIndex n = r.j->getLogSize();
  std::optional<RaftTrimmingBlock> bl[2]; auto &b = bl[0], &b2 = bl[1]; b.emplace(*r.t); b2.emplace(*r.t); if(kind == 1) b->enforce(5); if(kind == 2) b->enforce(2); if(kind == 3) b2->enforce(4);
  LogIndex floor = kLifted, prev = 0; auto look = [&]() { LogIndex s = r.start(); x.check(s >= prev, "back", "the log start went back"); prev = s; x.check(s <= floor, "block", "trimmed to " + S(s) + ", should stop at " + S(floor)); };
  auto held = [&](LogIndex p) { floor = std::max(p, r.start()); look(); };       // from now on nothing at or above floor may go
  bool stop = false; std::thread other; if(kind == 5) other = std::thread([&]() { std::this_thread::sleep_for(ms(1000)); r.append(2); r.commit(n + 1); r.apply(n + 1); }); if(kind == 6) other = std::thread([&]() { std::this_thread::sleep_for(ms(1000)); b2->enforce(2); b2->lift(); });
  std::thread mover([&]() {
    std::this_thread::sleep_for(ms(1000)); calm.reset();
    switch(kind) {
      case 0: b->enforce(3); held(3); break; case 1: b->enforce(3); held(3); break; case 2: held(2); b->enforce(2); look(); floor = kLifted; b->enforce(4); held(4); break; case 3: b->enforce(2); held(2); floor = kLifted; b->lift(); floor = std::max<LogIndex>(4, prev); look(); break;
      case 4: b.emplace(*r.t, 0); held(0); floor = kLifted; b->enforce(5); held(5); b->enforce(5); look(); break; case 5: b->enforce(2); held(2); break; case 6: b->enforce(3); held(3); break;
    }
    look();
  });
  mover.join(); if(other.joinable()) other.join(); calm.reset(new vsched::Calm()); (void)stop; std::this_thread::sleep_for(ms(5000)); vsched::settle(); look(); n = r.j->getLogSize(); LogIndex s = r.start(); x.check(n - s >= 2, "keep", S(n - s) + " entries remain"); x.check(s <= r.j->getCommitIndex() && s <= r.sm->getLastApplied(), "unapplied", "trimmed to " + S(s)); intact(x, r); b.reset(); b2.reset(); x.check(s >= std::min<LogIndex>(floor == kLifted ? n - 4 : floor - 2, n - 4), "idle", "trimmed only to " + S(s) + " of " + S(n) + " though only " + S(floor) + " on is protected"); x.nontrivial(); x.transition(); x.outcome(S(kind) + " " + S(s));
}
// a leader keeps what its followers still need, unless they have been away for more than a minute
static void leader(mc::Ctx &x) {
  fresh(); std::map<string, LogIndex> has{{"b", 1}, {"c", 1}}; uint64_t stall = x.choose(4, "c stops at") * 500 + 3500, back = x.choose(2, "c returns") ? stall + 20000 : ~0ull; int mode = x.choose(2, "how"); LogIndex asked = 0; LogIndex worst = 0;
  rn::Group *gp = nullptr;
  qclient::transport() = [&](const string &host, int, const std::vector<string> &req) {
    vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); resp::Value v; v.type = '*'; auto add = [&](const string &s) { resp::Value e; e.type = '$'; e.str = s; v.arr.push_back(e); }; uint64_t t = vsched::now() / 1000000; bool slow = host == "c" && t >= stall && t < back, ok = true;
    if(req[0] == "RAFT_REQUEST_VOTE" || req[0] == "RAFT_REQUEST_PRE_VOTE") { add(req[1]); add("granted"); }
    else if(req[0] == "RAFT_HEARTBEAT") { add(req[1]); add("1"); add(""); }
    else if(req[0] == "RAFT_APPEND_ENTRIES") { RedisRequest r; for(auto &e : req) r.emplace_back(e.data(), e.size()); RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(r), a)) x.check(false, "parse", "append entries"); LogIndex &h = has[host]; add(S(a.term));
      if(host == "c") asked = a.prevIndex; if(slow && mode == 0) ok = false; else { bool fits = a.prevIndex < h; if(fits && !slow) h = a.prevIndex + 1 + a.entries.size(); add(S(h)); add(fits ? "1" : "0"); add(fits ? "" : "Log entry mismatch"); } }
    else ok = false;
    if(ok) p.set_value(reply::make(v)); else p.set_value(nullptr); return f; };
  { rn::Group g("n", jr::srv("a")); gp = &g; g->spinup(); LogIndex size = 0; int added = 0; bool configured = false; uint64_t until = mode == 0 ? 90000 : 30000;
    while(vsched::now() / 1000000 < until) {
      std::this_thread::sleep_for(ms(250)); auto snap = g->state()->getSnapshot(); if(snap->status != RaftStatus::LEADER) continue;
      if(!configured) { configured = true; std::vector<string> c{"CONFIG_SET", "raft.trimming", "2:1"}; RedisRequest r; for(auto &s : c) r.emplace_back(s.data(), s.size()); g->journal()->append(g->journal()->getLogSize(), RaftEntry(snap->term, std::move(r)), false); }
      else if(added < 40) { added++; g->journal()->append(g->journal()->getLogSize(), RaftEntry(snap->term, "SET", "k", "v"), false); }
      LogIndex s = g->journal()->getLogStart(); x.log("  ", vsched::now() / 1000000, " start ", s, " size ", g->journal()->getLogSize(), " c has ", has["c"], " asked after ", asked); size = g->journal()->getLogSize(); vsched::Quiet q; uint64_t t = vsched::now() / 1000000; bool away = mode == 0 && t > stall + 60000;
      // what c needs next is entry has[c], preceded by the one before it
      if(!away && t > stall && t < 60000) { x.check(s <= has["c"] - 1, "needed", "trimmed to " + S(s) + " at " + S(t) + " ms though c still needs entries from " + S(has["c"] - 1) + " on"); worst = std::max(worst, size - s); }
      if(mode == 0 && back == ~0ull && t > stall + 70000) x.check(size - s <= 5, "hoard", "c has been away for " + S((long)(t - stall)) + " ms and still " + S(size - s) + " entries are kept");
    }
    x.check(configured && size > 30, "setup", "the node does not lead"); x.outcome(S(worst)); g->spindown(); }
  qclient::transport() = nullptr; x.nontrivial(); x.transition();
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C24";
  c.rule = "Real RaftTrimmer, RaftTrimmingBlock, RaftConfig, journal and state machine. (a) Every sequence of 16 operations (appends, commits, applications, two blocks placed, moved, lifted and destroyed, reconfiguration with 8 settings, four of them invalid, reopening) up to depth 4 (thorough 5), judged right after each and after more than a period: the start never passes a protected, uncommitted or unapplied entry or leaves fewer than configured, never goes back, entries outside the start..size range are gone and inside are there, and trimming happens when everything allows it with one entry to spare. (b) 7 scripts in which blocks are moved, lifted and destroyed while the trimmer runs, every schedule up to 1 (thorough 2) preemptions and every order of threads due at the same time with data-race detection: once enforce returned, the start never passes max(limit, start at that time). (c) A leading node with a follower that stalls or goes away at 4 moments, in virtual time.";
  c.assumptions = {"blocks are each moved by one thread at a time, as documented"};
  c.spaces.push_back({"sequences", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(0, false, false), [&]() { sequences(x, x.tier(4, 5)); }); }});
  c.spaces.push_back({"concurrent", [](mc::Ctx &x) { rn::dir("n"); int k = x.choose(7, "script"); vsched::run(x, opts(x.tier(1, 2), true, true), [&]() { concurrent(x, k); }); }});
  c.spaces.push_back({"leader", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(0, false, false), [&]() { leader(x); }); }});
  return mc::main(argc, argv, c);
}
