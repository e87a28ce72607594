//@ sources: *
//@ lib: fakedb nothreads
#include "raftnode.hh"
#include "reply.hh"
#include "nothreads.hh"
#include "storage/KeyConstants.hh"
#include <dlfcn.h>
#include "raft/RaftUtils.hh"
#include "raft/RaftVoteRegistry.hh"
#include <unordered_map>
using namespace quarkdb; using rn::S; using std::string;
static const int N = 3; static const char *kName[] = {"a", "b", "c"}; static RaftServer srvOf(int i) { return jr::srv(kName[i]); } static int idx(const RaftServer &s) { if(s.empty()) return -1; if(s == RaftState::BLOCKED_VOTE) return 9; for(int i = 0; i < N; i++) if(s == srvOf(i)) return i; return 8; }
// ---- what a node is made of, and what can happen to it ----
struct Ent { int term, id; bool operator==(const Ent &o) const { return term == o.term && id == o.id; } };     // id: 0 initial membership, 1.. writes, 100+i marker of node i
struct NS { std::vector<Ent> log; int commit = 0, term = 0, vote = -1, role = 0, leader = -1, gen = -1, match[N] = {0, 0, 0}; bool electing = false; int etype = 0; };   // role 0 follower 1 candidate 2 leader; gen: term of the last leadership since the start
enum Kind { BEGIN, FINISH, VOTE, APPEND, ACK, WRITE, RESTART };
struct Msg { int kind = VOTE, from = 0, to = 0, term = 0, prev = 0, prevTerm = 0, commit = 0, size = 0; bool ok = false; int lastTerm = -1, rterm = 0; std::vector<Ent> ents; };
struct In { int kind; Msg m; int w = 0; int cut = -1; int rterm[N] = {0, 0, 0}, rvote[N] = {-1, -1, -1}; };        // cut: the process dies after so many writes to the journal; rvote -1: no reply, 0 refused, 1 granted, 2 veto
struct Out { string threw; int term = 0, vote = 0, size = 0; bool ok = false; };
static void put(string &s, int v) { s += (char)(v + 2); }
static int perm(const int *p, int i) { return i >= 0 && i < N ? p[i] : i; }
static void pack(string &s, const Ent &e, const int *p) { put(s, e.term); put(s, e.id >= 100 ? 100 + p[e.id - 100] : e.id); }
static void pack(string &s, const NS &n, const int *p) { put(s, n.log.size()); for(auto &e : n.log) pack(s, e, p); for(int v : {n.commit, n.term, perm(p, n.vote), n.role, perm(p, n.leader), n.gen, (int)n.electing, n.etype}) put(s, v); int m[N]; for(int i = 0; i < N; i++) m[p[i]] = n.match[i]; for(int v : m) put(s, v); }
static void pack(string &s, const Msg &m, const int *p) { for(int v : {m.kind, p[m.from], p[m.to], m.term, m.prev, m.prevTerm, m.commit, m.size, (int)m.ok, m.lastTerm, m.rterm, (int)m.ents.size()}) put(s, v); for(auto &e : m.ents) pack(s, e, p); }
static const int kId[N] = {0, 1, 2};
static string pack(const In &i) { string s; put(s, i.kind); pack(s, i.m, kId); put(s, i.w); put(s, i.cut); for(int k = 0; k < N; k++) { put(s, i.rterm[k]); put(s, i.rvote[k]); } return s; }
static string show(const Ent &e) { return S(e.term) + ":" + (e.id == 0 ? "init" : e.id >= 100 ? string("lead ") + kName[e.id - 100] : "w" + S(e.id)); }
static string nm(int i) { return i < 0 ? "-" : i == 9 ? "blocked" : i == 8 ? "?" : kName[i]; }
static string show(const NS &n) { string s = "term " + S(n.term) + " " + (n.role == 0 ? "follower" : n.role == 1 ? "candidate" : "leader") + " of=" + nm(n.leader) + " vote=" + nm(n.vote) + " commit=" + S(n.commit) + " ["; for(auto &e : n.log) s += show(e) + " "; return s + "]"; }
static string show(const Msg &m) { string s = m.kind == VOTE ? "vote request" : m.kind == APPEND ? "append" : "append reply"; s += string(" ") + kName[m.from] + "->" + kName[m.to] + " term " + S(m.term); if(m.kind == ACK) s += (m.ok ? " ok size " : " no, size ") + S(m.size) + " term " + S(m.rterm); else { s += " at " + S(m.prev) + " of term " + S(m.prevTerm); if(m.kind == APPEND) { s += " commit " + S(m.commit) + " ["; for(auto &e : m.ents) s += show(e) + " "; s += "]"; } } return s; }
// ---- the real node: any history of inputs can be run on it ----
static RaftEntry entryOf(const Ent &e) { if(e.id >= 100) return jr::toEntry({e.term, {"JOURNAL_LEADERSHIP_MARKER", S(e.term), srvOf(e.id - 100).toString()}}); return jr::toEntry({e.term, {"SET", "k", "w" + S(e.id)}}); }
static const std::vector<RaftServer> &members() { static std::vector<RaftServer> v = {srvOf(0), srvOf(1), srvOf(2)}; return v; }
// the thread that applies commits takes its turn when a node goes down and waits for it to end
static std::vector<size_t> gAppliers; static bool gClosing = false, gApplying = false; static int gCasts = 0;
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) { static auto f = (int(*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast"); if(gClosing && ++gCasts > 64) { gClosing = false; gApplying = true; for(size_t i : gAppliers) nothreads::run(i); gApplying = false; } return f(c); }
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { static auto f = (int(*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); return gApplying ? 0 : f(c, m); }
extern "C" void nothreads_clear();
struct Unwind {}; struct Crash {};
struct Node {
  int me; std::unique_ptr<rn::Group> g; std::vector<In> script; size_t pos = 0; int gen = -1, inElection = 0; NS result; Out out; bool have = false;
  explicit Node(int m) : me(m) {}
  std::map<int, fakedb::Map> &blanks() { static std::map<int, fakedb::Map> m; return m; }
  string sm() { return rn::dir(kName[me]) + "/current/state-machine"; }
  string path() { return rn::journalPath(kName[me]); }
  std::vector<size_t> appliers;
  ~Node() { close(); }
  void close() { if(!g) return; gAppliers = appliers; gClosing = true; gCasts = 0; g.reset(); gClosing = false; appliers.clear(); }
  void open() { close(); g.reset(new rn::Group(kName[me], srvOf(me))); gen = -1; (*g)->journal(); (*g)->stateMachine(); (*g)->publisher(); size_t at = nothreads::started(); (*g)->writeTracker(); appliers = {at}; (*g)->dispatcher(); (*g)->commitTracker(); (*g)->lease(); }
  void fresh() {
    static std::map<int, fakedb::Map> init; if(!init.count(me)) { rn::format(kName[me], members(), 0, FsyncPolicy::kAlways); init[me] = blanks()[10 + me] = fakedb::contents(path()); open(); close(); blanks()[me] = fakedb::contents(sm()); }
    close(); fakedb::put(path(), init[me]); fakedb::put(sm(), blanks()[me]); open();
  }
  NS read() {
    NS n; auto *j = (*g)->journal(); auto s = (*g)->state()->getSnapshot();
    for(LogIndex i = 0; i < j->getLogSize(); i++) { RaftEntry e; j->fetch_or_die(i, e); Ent x; x.term = e.term; string c(e.request[0]); if(c == "JOURNAL_UPDATE_MEMBERS") x.id = 0; else if(c == "SET") x.id = atoi(string(e.request[2]).c_str() + 1); else { RaftServer w; if(!parseServer(e.request[2], w)) throw FatalException("marker"); x.id = 100 + idx(w); } n.log.push_back(x); }
    n.commit = j->getCommitIndex(); n.term = s->term; n.vote = idx(s->votedFor); n.role = s->status == RaftStatus::FOLLOWER ? 0 : s->status == RaftStatus::CANDIDATE ? 1 : s->status == RaftStatus::LEADER ? 2 : 3; n.leader = idx(s->leader); n.gen = gen; n.electing = inElection > 0; n.etype = inElection;
    if(j->getCurrentTerm() != s->term || j->getVotedFor() != s->votedFor) throw FatalException("the journal disagrees with the state about term or vote");
    if(gen >= 0) for(int i = 0; i < N; i++) if(i != me) n.match[i] = (*g)->commitTracker()->getHandler(srvOf(i)).get(); return n;
  }
  void election() {     // as RaftDirector::runForLeader, without the optional pre-vote
    auto *state = (*g)->state(); auto *j = (*g)->journal(); auto snap = state->getSnapshot(); RaftVoteRequest q; q.term = snap->term + 1; q.lastIndex = j->getLogSize() - 1; if(!j->fetch(q.lastIndex, q.lastTerm).ok()) throw FatalException("cannot fetch the last entry");
    if(!state->observed(q.term, {}) || !state->becomeCandidate(q.term)) return;
    std::map<int, std::promise<qclient::redisReplyPtr>> waiting; inElection = q.term;
    qclient::transport() = [&](const string &host, int, const std::vector<string> &) {
      int p = idx(jr::srv(host)); auto f = waiting[p].get_future(); if((int)waiting.size() < N - 1) return f;
      while(pos < script.size() && script[pos].kind != FINISH) step(); if(pos == script.size()) { done(); throw Unwind(); }
      In in = script[pos++]; out = Out(); for(auto &w : waiting) { if(in.rvote[w.first] < 0) { w.second.set_value(nullptr); continue; } resp::Value v; v.type = '*'; for(const string &t : {S(in.rterm[w.first]), string(in.rvote[w.first] == 0 ? "refused" : in.rvote[w.first] == 1 ? "granted" : "veto")}) { resp::Value e; e.type = '$'; e.str = t; v.arr.push_back(e); } w.second.set_value(reply::make(v)); }
      return f; };
    out = Out(); auto outcome = RaftElection::perform(q, *state, *(*g)->lease(), *(*g)->contactDetails()); qclient::transport() = nullptr; inElection = 0;
    if(outcome != ElectionOutcome::kElected) state->dropOut(q.term); else { gen = q.term; (*g)->commitTracker()->reset(); auto others = state->getNodes(); others.erase(std::remove(others.begin(), others.end(), srvOf(me)), others.end()); (*g)->commitTracker()->updateTargets(others); }
  }
  void step() {
    In in = script[pos++]; out = Out(); auto *d = (*g)->dispatcher(); size_t writes = fakedb::store(path()).log.size(); fakedb::Map applied; if(in.cut >= 0) applied = fakedb::contents(sm());
    switch(in.kind) {
      case BEGIN: election(); break;
      case VOTE: { RaftVoteRequest q; q.term = in.m.term; q.candidate = srvOf(in.m.from); q.lastIndex = in.m.prev; q.lastTerm = in.m.prevTerm; auto r = d->requestVote(q, false); out.term = r.term; out.vote = r.vote == RaftVote::GRANTED ? 1 : r.vote == RaftVote::VETO ? 2 : 0; break; }
      case APPEND: { RaftAppendEntriesRequest q; q.term = in.m.term; q.leader = srvOf(in.m.from); q.prevIndex = in.m.prev; q.prevTerm = in.m.prevTerm; q.commitIndex = in.m.commit; for(auto &e : in.m.ents) q.entries.push_back(entryOf(e)); auto r = d->appendEntries(std::move(q)); out.term = r.term; out.size = r.logSize; out.ok = r.outcome; break; }
      case ACK: { (*g)->state()->observed(in.m.rterm, {}); if(in.m.term < in.m.rterm || !in.m.ok) break; if(in.m.lastTerm == in.m.term) (*g)->commitTracker()->getHandler(srvOf(in.m.from)).update(in.m.size - 1); break; }     // as RaftReplicaTracker does with a reply
      case WRITE: { auto s = (*g)->state()->getSnapshot(); auto *j = (*g)->journal(); out.ok = j->append(j->getLogSize(), entryOf({(int)s->term, in.w})); break; }
      case RESTART: { auto m = fakedb::contents(path()); if(in.w) { auto low = fakedb::at(path(), fakedb::store(path()).synced); string key = KeyConstants::kJournal_CommitIndex; m[key] = low[key] = blanks()[10 + me][key]; if(m != low) throw FatalException("more than the commit index is lost in a crash"); } if(inElection) { crashed = m; lossy = in.w; throw Crash(); } close(); fakedb::put(path(), m); if(in.w) fakedb::put(sm(), blanks()[me]); open(); break; }
    }
    if(in.cut >= 0) { auto m = fakedb::at(path(), std::min(writes + in.cut, fakedb::store(path()).log.size())); if(inElection) { crashed = m; lossy = false; before = applied; cut = true; throw Crash(); } close(); fakedb::put(path(), m); fakedb::put(sm(), applied); open(); }
  }
  fakedb::Map crashed, before; bool lossy = false, cut = false;
  void done() { result = read(); have = true; }
  void run() {      // the whole script; leaves result and out
    have = false; for(;;) try { while(pos < script.size()) step(); done(); return; } catch(Unwind &) { qclient::transport() = nullptr; close(); inElection = 0; return; } catch(Crash &) { qclient::transport() = nullptr; inElection = 0; close(); fakedb::put(path(), crashed); if(lossy) fakedb::put(sm(), blanks()[me]); if(cut) fakedb::put(sm(), before); cut = false; open(); }
  }
};
struct Result { NS n; Out o; };
static std::unordered_map<string, Result> gMemo; static std::unordered_map<string, std::vector<std::vector<In>>> gHist; static uint64_t gReal = 0;
static string keyOf(int me, const NS &n) { string s; put(s, me); pack(s, n, kId); return s; }
static Result compute(int me, const string &key, const std::vector<In> &h, const In &in) {
  static std::unique_ptr<Node> live[N]; static string liveKey[N]; Result r; gReal++; { bool any = false; for(auto &l : live) any |= !!l; if(!any) nothreads_clear(); }
  try {
    bool reuse = live[me] && liveKey[me] == key && in.kind != BEGIN && in.kind != RESTART; liveKey[me] = "";
    if(reuse) { auto &n = *live[me]; n.script = {in}; n.pos = 0; n.run(); }
    else { live[me].reset(); live[me].reset(new Node(me)); auto &n = *live[me]; n.script = h; n.script.push_back(in); n.fresh(); n.run(); }
    r.n = live[me]->result; r.o = live[me]->out; if(live[me]->g && !r.n.electing) liveKey[me] = keyOf(me, r.n); else { live[me].reset(); }
  } catch(FatalException &e) { r.o.threw = e.what(); qclient::transport() = nullptr; live[me].reset(); }
  return r;
}
// what the real node in that state does with the input
static const Result &perform(mc::Ctx &x, int me, const NS &n, const In &in) {
  string k = keyOf(me, n), mk = k + pack(in); auto it = gMemo.find(mk); if(it != gMemo.end()) return it->second; auto &hs = gHist[k]; if(hs.empty()) x.fail("internal", "unknown state");
  Result r = compute(me, k, hs[0], in);
  if(r.o.threw.empty()) {
    if(hs.size() > 1) { Result r2 = compute(me, "-", hs[1], in); x.check(keyOf(me, r2.n) == keyOf(me, r.n) && r2.o.threw.empty() && r2.o.term == r.o.term && r2.o.vote == r.o.vote && r2.o.size == r.o.size && r2.o.ok == r.o.ok, "hidden", "two nodes in the same visible state behave differently: " + show(n) + " becomes " + show(r.n) + " or " + show(r2.n)); }
    auto &t = gHist[keyOf(me, r.n)]; if(t.size() < 2) { auto h = hs[0]; h.push_back(in); t.push_back(h); }
  }
  return gMemo.emplace(mk, r).first->second;
}
// ---- the cluster ----
struct Bounds { int terms, writes, restarts, delays, crossing; bool dup, loss; };
struct GS { NS n[N]; std::vector<Msg> net; std::vector<Ent> committed{{0, 0}}; std::vector<int> when{0}; int leaders[6] = {-1, -1, -1, -1, -1, -1}; int writes = 0, restarts = 0, delays = 0, splits = 0; int rt[N][N] = {}, rv[N][N]; GS() { for(auto &a : rv) for(int &v : a) v = -1; } };
static string canon(const GS &g) {
  static const int P[6][N] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; string best, s, t; uint64_t sig[N];      // nodes that differ in what does not depend on names need not be exchanged
  for(int i = 0; i < N; i++) { auto &n = g.n[i]; uint64_t h = n.term * 8 + n.role; h = h * 8 + n.commit; h = h * 3 + (n.leader < 0 ? 0 : n.leader == i ? 1 : 2); h = h * 4 + (n.vote < 0 ? 0 : n.vote == i ? 1 : n.vote == 9 ? 2 : 3); for(auto &e : n.log) h = h * 1000003 + e.term * 50 + (e.id < 100 ? e.id : e.id - 100 == i ? 48 : 49); sig[i] = h; }
  for(auto &p : P) {
    int inv[N]; for(int i = 0; i < N; i++) inv[p[i]] = i; if(sig[inv[0]] > sig[inv[1]] || sig[inv[1]] > sig[inv[2]]) continue; s.clear(); for(int i = 0; i < N; i++) { const NS &o = g.n[inv[i]]; bool acks = o.role == 2 || o.electing; for(auto &m : g.net) acks |= m.kind == ACK && m.to == inv[i] && m.term == o.gen; if(acks || o.gen < 0) pack(s, o, p); else { NS t = o; t.gen = -1; for(int &v : t.match) v = 0; pack(s, t, p); } for(int k = 0; k < N; k++) { put(s, g.rt[inv[i]][inv[k]]); put(s, g.rv[inv[i]][inv[k]]); } }
    std::vector<string> ms; for(auto &m : g.net) { t.clear(); pack(t, m, p); ms.push_back(t); } std::sort(ms.begin(), ms.end()); for(auto &t : ms) s += t; put(s, ms.size()); for(auto &e : g.committed) pack(s, e, p); for(int t : g.when) put(s, t); for(int l : g.leaders) put(s, perm(p, l)); put(s, g.writes); put(s, g.restarts); put(s, g.delays); put(s, g.splits); if(best.empty() || s < best) best = s;
  }
  return best;
}
struct Op { int kind; int a = 0, b = 0, c = 0, d = 0; };       // 0 begin(a, peers mask b) 1 deliver(message a, keep b, reply c) 2 finish(a, keep late requests b) 3 write(a) 4 send(a, b, next c, count d&15, mode d>>4) 5 restart(a, lose b)
static void judge(mc::Ctx &x, const GS &g, const string &what) {
  auto all = [&]() { string s = what; for(int i = 0; i < N; i++) s += string("\n  ") + kName[i] + ": " + show(g.n[i]); s += "\n  committed so far: "; for(auto &e : g.committed) s += show(e) + " "; return s; };
  for(int i = 0; i < N; i++) { auto &n = g.n[i]; for(int k = 0; k <= n.commit && k < (int)g.committed.size(); k++) x.check(k < (int)n.log.size() && n.log[k] == g.committed[k], "committed", string(kName[i]) + " holds another entry at committed index " + S(k) + "\n" + all());
    for(int k = 0; k < i; k++) { auto &m = g.n[k]; bool same = false; for(int q = std::min(n.log.size(), m.log.size()) - 1; q >= 0; q--) { if(n.log[q].term == m.log[q].term) { same = true; } if(same) x.check(n.log[q] == m.log[q], "matching", string(kName[i]) + " and " + kName[k] + " differ at index " + S(q) + " but agree on the term of it or of a later one\n" + all()); } } }
}
static void cluster(mc::Ctx &x, const Bounds &B) {
  static bool init = false; if(!init) { init = true; for(int i = 0; i < N; i++) { Node n(i); n.fresh(); n.done(); gHist[keyOf(i, n.result)].push_back({}); } }
  GS g; for(int i = 0; i < N; i++) { g.n[i].log = {{0, 0}}; }
  // the initial state as the real node shows it
  for(int i = 0; i < N; i++) x.check(gHist.count(keyOf(i, g.n[i])), "initial", "initial state");
  // the states along the last execution: the next one starts where it leaves it
  struct At { GS g; int n, took; bool lead; }; static std::vector<At> trail; static const void *trailOf = nullptr; if(trailOf != &B) { trailOf = &B; trail.clear(); }
  size_t depth = 0; if(!x.tracing()) { size_t used = 0; while(depth + 1 < trail.size()) { auto &t = trail[depth]; int want = t.n == 1 ? 0 : used < x.prefix_.size() ? x.prefix_[used] : -1; if(want != t.took) break; used += t.n > 1; depth++; } for(size_t i = 0; i < depth; i++) { x.choose(trail[i].n, "event"); if(trail[i].lead) x.nontrivial(); } if(depth < trail.size()) { g = trail[depth].g; trail.resize(depth); } }
  for(bool lead = false;; depth++) {
    bool again = x.taken_.size() < x.prefix_.size(); if(x.tracing() && !again) return; if(!again) { x.outcome(S(g.committed.size()) + S(g.writes)); if(x.visited(canon(g), 0)) { trail.push_back({g, 0, -1, false}); return; } }
    std::vector<Op> ops; int electing = 0; for(auto &n : g.n) electing += n.electing;
    for(int i = 0; i < N; i++) { auto &n = g.n[i];
      if(n.electing) ops.push_back({2, i, 0}); if(n.electing) { bool late = false; for(auto &m : g.net) late |= m.kind == VOTE && m.from == i && m.term == n.etype; if(late && g.delays < B.delays) ops.push_back({2, i, 1}); }
      if(!n.electing && n.role == 0 && n.term < B.terms) { if(g.splits < B.crossing) for(int m = 1; m < 4; m++) ops.push_back({0, i, m}); for(int m = 0; m < 9; m++) ops.push_back({6, i, m}); }
      if(n.role == 2 && !n.electing) { if(g.writes < B.writes) ops.push_back({3, i}); for(int f = 0; f < N; f++) if(f != i) for(int next = 1; next <= (int)n.log.size(); next++) { int left = (int)n.log.size() - next; for(int c : {0, 1, left}) { if((c == 0 && left > 0) || (c == 1 && left < 1) || (c == left && left == 1 && c != 1)) continue; for(int mode = 0; mode < (g.delays < B.delays ? 4 : 2); mode++) ops.push_back({4, i, f, next, c | mode << 4}); if(c == left) break; } } }
      if(g.restarts < B.restarts && n.role == 2 && !n.electing) for(int f = 0; f < N; f++) if(f != i) for(int next = 1; next <= (int)n.log.size(); next++) { int left = (int)n.log.size() - next; if(left == 0 && next != (int)g.n[f].log.size()) continue; for(int cut = 0; cut < 3 + left; cut++) ops.push_back({7, i, f, next, left | cut << 4}); }
      if(g.restarts < B.restarts && !n.electing && n.role == 0 && n.term < B.terms) for(int f = 0; f < N; f++) if(f != i) for(int cut = 0; cut < 2; cut++) ops.push_back({8, i, f, cut});
      if(g.restarts < B.restarts) for(int l = 0; l <= B.loss; l++) ops.push_back({5, i, l});
    }
    for(size_t m = 0; m < g.net.size(); m++) { auto &t = g.net[m]; bool room = g.delays < B.delays; for(int keep = 0; keep <= (B.dup && room); keep++) { if(t.kind == VOTE) { bool cares = g.n[t.from].electing && g.n[t.from].etype == t.term; for(int c = 0; c <= cares; c++) ops.push_back({1, (int)m, keep, c}); } else if(t.kind == APPEND) for(int c = 0; c < (room ? 3 : 2); c++) ops.push_back({1, (int)m, keep, c}); else ops.push_back({1, (int)m, keep, 1}); } }
    if(ops.empty()) { trail.push_back({g, 0, -1, false}); return; } bool known = x.taken_.size() + (ops.size() > 1) < x.prefix_.size(); int pick = x.choose((int)ops.size(), "event"); Op o = ops[pick]; trail.push_back({g, (int)ops.size(), pick, false}); if(!known) x.transition(); string what; lead = false;
    auto node = [&](int i, const In &in) -> Out { NS was = g.n[i]; const Result &r = perform(x, i, was, in); x.check(r.o.threw.empty(), "fatal", string(kName[i]) + " gives up: " + r.o.threw + "\n" + what + "\n  in " + show(was)); g.n[i] = r.n; if(x.tracing()) x.log("    ", kName[i], ": ", show(r.n));
      if(r.n.role == 2 && (was.role != 2 || was.term != r.n.term)) { int &l = g.leaders[r.n.term]; x.check(l < 0 || l == i, "leaders", string("two leaders in term ") + S(r.n.term) + ": " + kName[l < 0 ? 0 : l] + " and " + kName[i] + "\n" + what); l = i; x.nontrivial(); lead = true; for(size_t k = 0; k < g.committed.size(); k++) if(g.when[k] < r.n.term) x.check(k < r.n.log.size() && r.n.log[k] == g.committed[k], "completeness", string(kName[i]) + " leads term " + S(r.n.term) + " without the committed entry " + S(k) + " " + show(g.committed[k]) + "\n  " + show(r.n)); }
      if(in.kind != RESTART && in.cut < 0) { x.check(r.n.commit >= was.commit, "backwards", "the commit index of " + string(kName[i]) + " goes from " + S(was.commit) + " to " + S(r.n.commit)); x.check(r.n.term >= was.term, "backwards", "term goes back"); } else if(in.kind == RESTART) x.check(r.n.term == was.term && r.n.log == was.log && r.n.vote == was.vote, "durable", string("after a restart ") + kName[i] + " is " + show(r.n) + "\n  was " + show(was));
      for(int k = (int)g.committed.size(); k <= r.n.commit; k++) { x.check(k < (int)r.n.log.size(), "commit", "commit index beyond the log: " + show(r.n)); g.committed.push_back(r.n.log[k]); g.when.push_back(r.n.term); } return r.o; };
    auto append = [&](const Msg &m, int reply) { In in{APPEND}; in.m = m; Out r = node(m.to, in); if(reply == 0) return; Msg a; a.kind = ACK; a.from = m.to; a.to = m.from; a.term = m.term; a.rterm = r.term; a.size = r.size; a.ok = r.ok; a.lastTerm = m.ents.empty() ? -1 : m.ents.back().term; if(reply == 2) { g.net.push_back(a); g.delays++; return; } if(g.n[m.from].gen != a.term) return; In ack{ACK}; ack.m = a; node(m.from, ack); };
    switch(o.kind) {
      case 0: { NS &n = g.n[o.a]; what = string(kName[o.a]) + " runs for leader of term " + S(n.term + 1); x.log(what, " asking ", o.b); Msg q; q.kind = VOTE; q.from = o.a; q.term = n.term + 1; q.prev = (int)n.log.size() - 1; q.prevTerm = n.log.back().term; g.splits++; node(o.a, {BEGIN}); if(!g.n[o.a].electing) break; for(int k = 0, b = 1; k < N; k++) if(k != o.a) { if(o.b & b) { q.to = k; g.net.push_back(q); } b *= 2; } break; }
      case 1: { Msg m = g.net[o.a]; what = "delivery of " + show(m); x.log(what, o.b ? ", which comes again" : "", o.c == 0 ? ", reply lost" : o.c == 2 ? ", reply delayed" : ""); if(o.b) g.delays++; else g.net.erase(g.net.begin() + o.a); In in{m.kind}; in.m = m; if(m.kind == APPEND) append(m, o.c); else if(m.kind == ACK) { if(g.n[m.to].gen == m.term) node(m.to, in); } else { Out r = node(m.to, in); if(o.c && g.rv[m.from][m.to] < 0) { g.rt[m.from][m.to] = r.term; g.rv[m.from][m.to] = r.vote; } } break; }
      case 2: { what = string("the election of ") + kName[o.a] + " ends"; x.log(what); In in{FINISH}; for(int k = 0; k < N; k++) { in.rterm[k] = g.rt[o.a][k]; in.rvote[k] = g.rv[o.a][k]; g.rt[o.a][k] = 0; g.rv[o.a][k] = -1; } int t = g.n[o.a].etype; if(o.b) g.delays++; else for(size_t k = g.net.size(); k-- > 0;) if(g.net[k].kind == VOTE && g.net[k].from == o.a && g.net[k].term == t) g.net.erase(g.net.begin() + k); node(o.a, in); break; }
      case 3: { what = string(kName[o.a]) + " takes write " + S(g.writes + 1); x.log(what); In in{WRITE}; in.w = ++g.writes; Out r = node(o.a, in); x.check(r.ok, "append", what + " fails"); break; }
      case 4: { NS &n = g.n[o.a]; Msg m; m.kind = APPEND; m.from = o.a; m.to = o.b; m.term = n.term; m.prev = o.c - 1; m.prevTerm = n.log[m.prev].term; m.commit = n.commit; m.ents.assign(n.log.begin() + o.c, n.log.begin() + o.c + (o.d & 15)); int mode = o.d >> 4; what = show(m); x.log(what, mode == 0 ? "" : mode == 1 ? ", reply lost" : mode == 2 ? ", reply delayed" : ", delayed"); if(mode == 3) { g.net.push_back(m); g.delays++; } else append(m, mode == 0 ? 1 : mode == 1 ? 0 : 2); break; }
      case 6: { NS &n = g.n[o.a]; what = string(kName[o.a]) + " runs for leader of term " + S(n.term + 1); x.log(what, ", pattern ", o.b); Msg q; q.kind = VOTE; q.from = o.a; q.term = n.term + 1; q.prev = (int)n.log.size() - 1; q.prevTerm = n.log.back().term; node(o.a, {BEGIN}); if(!g.n[o.a].electing) break; In f{FINISH}; for(int k = 0, b = o.b; k < N; k++) if(k != o.a) { int mode = b % 3; b /= 3; if(mode == 0) continue; q.to = k; In v{VOTE}; v.m = q; Out r = node(k, v); if(mode == 1) { f.rterm[k] = r.term; f.rvote[k] = r.vote; } } node(o.a, f); break; }
      case 7: { NS &n = g.n[o.a]; Msg m; m.kind = APPEND; m.from = o.a; m.to = o.b; m.term = n.term; m.prev = o.c - 1; m.prevTerm = n.log[m.prev].term; m.commit = n.commit; m.ents.assign(n.log.begin() + o.c, n.log.end()); what = show(m) + ", dying after " + S(o.d >> 4) + " writes"; x.log(what); g.restarts++; for(int k = 0; k < N; k++) { g.rt[o.b][k] = 0; g.rv[o.b][k] = -1; } In in{APPEND}; in.m = m; in.cut = o.d >> 4; node(o.b, in); break; }
      case 8: { NS &n = g.n[o.a]; Msg q; q.kind = VOTE; q.from = o.a; q.to = o.b; q.term = n.term + 1; q.prev = (int)n.log.size() - 1; q.prevTerm = n.log.back().term; what = show(q) + ", dying after " + S(o.c) + " writes"; x.log(what); node(o.a, {BEGIN}); if(g.n[o.a].electing) node(o.a, {FINISH}); g.restarts++; for(int k = 0; k < N; k++) { g.rt[o.b][k] = 0; g.rv[o.b][k] = -1; } In in{VOTE}; in.m = q; in.cut = o.c; node(o.b, in); break; }
      case 5: { what = string(kName[o.a]) + (o.b ? " crashes, losing what was not synced" : " restarts"); x.log(what); g.restarts++; for(int k = 0; k < N; k++) { g.rt[o.a][k] = 0; g.rv[o.a][k] = -1; } In in{RESTART}; in.w = o.b; node(o.a, in); break; }
    }
    trail.back().lead = lead; if(!known) judge(x, g, what);
  }
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C18";
  c.rule = "Three nodes, each with real journal (policy always), state, dispatcher, election, lease and commit tracker. Global events: any node runs for leader (each peer not reached, reached, or reached with the reply lost; or request, replies and end of the election as separate events crossing with others), the leader takes a write, the leader sends any follower any part of its log (delivered, reply lost or delayed, request delayed or arriving twice), any node restarts, restarts without its unsynced commit index, or dies after any number of journal writes of a vote or an append. ALL reachable global states are enumerated for each set of bounds (terms, writes, restarts, delayed messages, split elections), up to renaming of nodes. Every step of a node is computed by the real components (replayed from a history of inputs that leads to the node's state; remembered per node state and input; where two histories lead to the same visible state both are run and compared). At each state: at most one leader per term, log matching, leader completeness, committed entries never differ or vanish, no step back of term, log or commit index, no node gives up.";
  c.assumptions = {"a reply to an append is handled as in RaftReplicaTracker (next index free, commit tracker told only about entries of the own term); the real replicator is checked in C23, C24 and C46", "elections without pre-vote, which only makes elections rarer", "membership does not change (C22, C46)"};
  auto add = [&](const char *name, Bounds b, bool thorough) { auto *p = new Bounds(b); c.spaces.push_back({name, [p](mc::Ctx &x) { cluster(x, *p); }, thorough}); };
  // terms, writes, restarts, delays, split elections, duplicates, loss
  add("two terms, two writes", {2, 2, 0, 0, 0, false, false}, false);
  add("three terms, one write", {3, 1, 0, 0, 0, false, false}, false);
  add("four terms", {4, 0, 0, 0, 0, false, false}, true);
  add("three terms, a restart", {3, 0, 1, 0, 0, false, true}, true);
  add("two terms, a restart, one write", {2, 1, 1, 0, 0, false, true}, false);
  add("elections in pieces", {2, 1, 0, 0, 1, false, false}, false);
  add("a delayed message", {2, 0, 0, 1, 0, true, false}, false);
  add("a delayed message, one write", {2, 1, 0, 1, 0, true, false}, true);
  add("a delayed message, an election in pieces", {2, 0, 0, 1, 1, true, false}, true);
  add("three terms, two writes", {3, 2, 0, 0, 0, false, false}, true);
  add("three terms, a restart, one write", {3, 1, 1, 0, 0, false, true}, true);
  add("two restarts", {2, 1, 2, 0, 0, false, true}, true);
  add("two elections in pieces", {2, 0, 0, 0, 2, false, false}, true);
  return mc::main(argc, argv, c);
}
