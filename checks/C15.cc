//@ sources: *
//@ lib: fakedb nothreads
#include "journal.hh"
#include "raftmodel.hh"
#include <set>
using rm::Op; using namespace quarkdb;
static std::string where() { return mc::scratch() + "/journal"; }
static std::string S(long n) { return std::to_string(n); }
static FsyncPolicy pols[] = {FsyncPolicy::kSyncImportantUpdates, FsyncPolicy::kAlways};
struct Node { std::unique_ptr<RaftJournal> j; std::unique_ptr<RaftState> s; void open() { j.reset(new RaftJournal(where())); s.reset(new RaftState(*j, jr::srv("a"))); } void close() { s.reset(); j.reset(); } };
static fakedb::Map keep(size_t n) { return fakedb::at(where(), n); }
static void histories(mc::Ctx &x, int depth, bool wide) {
  fakedb::wipeAll(); fakedb::gKeepLog = true; int member = x.choose(3, "member"); FsyncPolicy pol = pols[x.choose(2, "policy")]; std::vector<RaftServer> nodes = {jr::srv("b"), jr::srv("c")}; if(member == 0) nodes.insert(nodes.begin(), jr::srv("a"));
  Node n; n.j.reset(new RaftJournal(where(), jr::kCluster, nodes, 0, pol)); if(member == 1) { std::string e; n.j->addObserver(0, jr::srv("a"), e); n.j->setCommitIndex(1); } rm::Model m; m.voter = member == 0; m.size = n.j->getLogSize(); n.close(); { fakedb::Map c = fakedb::contents(where()); fakedb::wipeAll(); fakedb::put(where(), c); } n.open();
  std::map<RaftTerm, std::string> votes, leaders; bool restarted = false;
  auto observe = [&]() { auto sn = n.s->getSnapshot(); std::string v = rm::nameOf(sn->votedFor), l = rm::nameOf(sn->leader); if(!v.empty() && v != "!") { auto &w = votes[sn->term]; x.check(w.empty() || w == v, "two-votes", "voted for both " + w + " and " + v + " in term " + S(sn->term)); w = v; } if(!l.empty()) { auto &w = leaders[sn->term]; x.check(w.empty() || w == l, "two-leaders", "recognised both " + w + " and " + l + " in term " + S(sn->term)); w = l; } return sn; };
  auto stored = [&](const fakedb::Map &c) { fakedb::put(where() + "2", c); std::string r; { RaftJournal k(where() + "2"); r = S(k.getCurrentTerm()) + "/" + rm::nameOf(k.getVotedFor()); } return r; };
  for(int d = 0; d < depth; d++) {
    if(x.visited(m.show() + S(m.size) + S(member) + S((int)pol) + S(restarted) + (leaders.count(m.term) ? leaders[m.term] : "") + fakedb::canon(fakedb::contents(where())), depth - d)) x.abandon();
    std::vector<Op> ops; RaftTerm t = m.term; std::string known = leaders.count(t) ? leaders[t] : "";
    for(RaftTerm u = t - 1; u <= t + (wide ? 2 : 1); u++) for(const char *w : {"", "b", "c"}) { if(u < 0 || (u == t + 2 && *w == 'c')) continue; if(u == t && m.leader.empty() && *w && !known.empty() && known != w) continue; /* nobody else can have been elected in a term which had a leader before the restart */ ops.push_back({rm::OBSERVE, u, w}); }
    for(RaftTerm u = t - 1; u <= t + 1; u++) for(const char *w : {"b", "c"}) if(u >= 0) ops.push_back({rm::GRANT, u, w});
    for(int k : {rm::CANDIDATE, rm::ASCEND, rm::DROPOUT}) for(RaftTerm u = std::max<RaftTerm>(0, t - 1); u <= t + 1; u++) ops.push_back({k, u, ""}); ops.push_back({rm::SHUTDOWN, 0, ""});
    int i = x.choose((int)ops.size() + 2, "operation"); if(i == (int)ops.size() + 1) return; x.transition();
    auto &st = fakedb::store(where());
    if(i == (int)ops.size()) { // crash: anything not yet synced may be lost
      size_t lo = st.synced, hi = st.log.size(); size_t k = hi - x.choose((int)(hi - lo) + 1, "lost writes"); fakedb::Map c = keep(k); n.close(); fakedb::put(where(), c); n.open(); m.restart(); restarted = true; x.log("  restart"); auto sn = observe(); m.size = n.j->getLogSize(); x.check(rm::show(*sn) == m.show(), "restart", "after a restart the state is " + rm::show(*sn) + ", should be " + m.show()); continue; }
    const Op &o = ops[i]; std::string before = rm::show(*n.s->getSnapshot()); std::vector<std::pair<size_t, std::string>> seen; fakedb::Map prior = fakedb::contents(where());
    fakedb::gOnWrite = [&](const std::string &p, const fakedb::Record&) { if(p != where()) return; auto sn = n.s->getSnapshot(); seen.push_back({fakedb::store(where()).log.size(), S(sn->term) + "/" + rm::nameOf(sn->votedFor) + "/" + (sn->status == RaftStatus::CANDIDATE || sn->status == RaftStatus::LEADER ? "x" : "")}); };
    rm::Model old = m; std::string oldTV = S(m.term) + "/" + m.vote; bool campaigning = m.role == 'C' || m.role == 'L'; int want = m.apply(o), got = rm::perform(*n.s, o); fakedb::gOnWrite = nullptr; x.log("  ", o.show(), got == 1 ? " accepted" : got == 0 ? " refused" : "");
    auto sn = observe(); std::string now = rm::show(*sn); if(want >= 0) x.check(got == want, want ? "refused" : "accepted", o.show() + (want ? " was refused in " : " was accepted in ") + old.show()); if(want == 0) { x.check(now == before, "refused-changed", o.show() + " was refused and changed the state to " + now); x.check(fakedb::contents(where()) == prior, "refused-wrote", o.show() + " was refused and wrote to the journal"); }
    x.check(now == m.show(), "state", "after " + o.show() + " in " + old.show() + " the state is " + now + ", should be " + m.show()); x.check(sn->term >= old.term, "term-back", "the term went back"); if(now != before) x.nontrivial();
    // stored before visible, and durable
    for(auto &[k, tv] : seen) { std::string a = tv.substr(0, tv.rfind('/')); if(a != oldTV) x.check(stored(keep(k)) == a, "visible-early", "term/vote " + a + " was visible before it was stored"); if(tv.back() == 'x' && !campaigning) x.check(stored(keep(k)) == S(m.term) + "/a", "visible-early", "candidacy was visible before the vote for itself was stored"); }
    x.check(n.j->getCurrentTerm() == m.term && rm::nameOf(n.j->getVotedFor()) == m.vote, "journal", "the journal has term " + S(n.j->getCurrentTerm()) + " vote " + rm::nameOf(n.j->getVotedFor()) + " after " + o.show()); x.check(n.j->getLogSize() == m.size, "log", "log size is " + S(n.j->getLogSize()) + ", should be " + S(m.size));
    std::string disk = stored(keep(fakedb::store(where()).synced)); x.check(disk == S(m.term) + "/" + m.vote, "not-durable", "after " + o.show() + " a crash leaves term/vote " + disk + ", the state is " + m.show());
    if(o.kind == rm::ASCEND && got == 1) { RaftEntry e; x.check(n.j->fetch(m.marker, e).ok() && e.term == m.term && e.request[0] == "JOURNAL_LEADERSHIP_MARKER", "marker", "no leadership marker at " + S(m.marker)); }
    x.outcome(now);
  }
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C15";
  c.rule = "Every sequence, up to depth 8 (thorough 11; states visited once) of observations of terms (older, same, next, thorough also the one after) with or without a leader, vote grants, candidacies, elections, drop-outs, shutdown (each with current and neighbouring terms) and crashes with any unsynced suffix lost, on the real RaftState and RaftJournal, for a voter, an observer and a stranger, under both syncing policies: results, state snapshots, journal, contents after a crash at once, and what was visible while each write was on its way are compared with the rules. Non-trivial: the state changed.";
  c.assumptions = {"after a restart the same term is not announced with a leader different from the one before (guaranteed by C18)", "under the async policy durability is not promised"};
  c.spaces.push_back({"histories", [](mc::Ctx &x) { histories(x, x.tier(8, 11), false); }});
  c.spaces.push_back({"histories-wide", [](mc::Ctx &x) { histories(x, x.tier(6, 8), true); }});
  return mc::main(argc, argv, c);
}
