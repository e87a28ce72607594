//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "raftmodel.hh"
#include "vsched.hh"
#include "reply.hh"
#include "conn.hh"
#include "raft/RaftMembers.hh"
#include "raft/RaftUtils.hh"
#include <set>
using namespace quarkdb; using rn::S; using std::string; using Strs = std::vector<string>; using ms = std::chrono::milliseconds;
static vsched::Options opts() { vsched::Options o; o.preemptions = 0; o.orders = false; o.races = false; o.spin = 3000; o.maxSteps = 2000000; return o; }
static string text(const Strs &n, const Strs &o) { string s; for(size_t i = 0; i < n.size(); i++) s += (i ? "," : "") + n[i]; s += "|"; for(size_t i = 0; i < o.size(); i++) s += (i ? "," : "") + o[i]; return s; }
static Strs names(const std::vector<RaftServer> &v) { Strs r; for(auto &s : v) r.push_back(s.toString()); return r; }
// ---- the journal: what is in force after any history ----
static void oneStep(mc::Ctx &x, const jr::Memb &a, const jr::Memb &b) {     // from a to b at most one server changes its place
  std::set<string> all; for(auto *l : {&a.nodes, &a.obs, &b.nodes, &b.obs}) all.insert(l->begin(), l->end()); int moved = 0; auto in = [](const Strs &v, const string &s) { return (int)std::count(v.begin(), v.end(), s); };
  for(auto &s : all) { x.check(in(b.nodes, s) + in(b.obs, s) <= 1, "twice", s + " is listed more than once in " + jr::encode(b)); moved += in(a.nodes, s) != in(b.nodes, s) || in(a.obs, s) != in(b.obs, s); } x.check(moved <= 1, "several", "one change turns " + jr::encode(a) + " into " + jr::encode(b));
}
static void journal(mc::Ctx &x, int depth) {
  using namespace jr; std::vector<Op> ops = {{"append", APPEND}, {"term+1", TERM, 1, 1}, {"marker", MARKER}, {"addObserver(d)", ADDOBS, 'd'}, {"addObserver(e)", ADDOBS, 'e'}, {"addObserver(a)", ADDOBS, 'a'}, {"promote(d)", PROMOTE, 'd'}, {"promote(b)", PROMOTE, 'b'}, {"demote(b)", DEMOTE, 'b'}, {"demote(d)", DEMOTE, 'd'}, {"remove(b)", REMOVE, 'b'}, {"remove(d)", REMOVE, 'd'}, {"remove(z)", REMOVE, 'z'}, {"members of a leader", RAWMEMB, 0}, {"members of another cluster", RAWMEMB, 1}, {"commit(size-1)", COMMIT, 0}, {"commit(+1)", COMMIT, 1}, {"truncate(size-1)", TRUNC, 0}, {"truncate(commit+1)", TRUNC, 1}, {"trim(commit)", TRIM, 0}, {"reopen", REOPEN}};
  string path = rn::journalPath("n"); LogIndex start = x.choose(2, "start") * 5; { vsched::Quiet q; fakedb::wipeAll(); std::vector<RaftServer> v; for(auto n : {"a", "b", "c"}) v.push_back(srv(n)); rn::format("n", v, start); } std::unique_ptr<RaftJournal> j(new RaftJournal(path)); Model m({"a", "b", "c"}, start, FsyncPolicy::kSyncImportantUpdates); bool imp;
  for(int d = 0;; d++) {
    { vsched::Quiet q; auto mb = j->getMembership(); Memb got; for(auto &s : mb.nodes) got.nodes.push_back(s.hostname); for(auto &s : mb.observers) got.obs.push_back(s.hostname); got.epoch = mb.epoch; x.check(got == m.members(), "force", "in force is " + encode(got) + " of entry " + S(got.epoch) + ", should be " + encode(m.members()) + " of entry " + S(m.members().epoch)); x.check(j->getEpoch() == got.epoch, "epoch", "epoch");
      if(got.epoch >= m.start) { RaftEntry e; x.check(j->fetch(got.epoch, e).ok() && e.request.size() == 3 && RaftMembers(string(e.request[1])).toString() == encode(got), "entry", "the membership in force is not that of entry " + S(got.epoch)); } x.check(observe(*j) == m.canon(), "state", "journal holds:\n" + observe(*j) + "\nexpected:\n" + m.canon()); x.nontrivial(); x.outcome(encode(got) + S(got.epoch)); if(d == depth || x.visited(m.canon() + S(m.floor) + S(m.memb.size()), depth - d)) return; }
    Op o = ops[x.choose((int)ops.size(), "operation")]; Memb was = m.members(); auto r = perform(x, j, path, m, o, imp); if(r == SKIP) return; x.log("  ", o.name, r == DONE ? "" : " refused"); x.transition(); if(o.kind >= ADDOBS && o.kind <= REMOVE) oneStep(x, was, m.members());
  }
}
// ---- the text form ----
static std::optional<string> server(const string &s) { size_t c = s.find(':'); if(c == 0 || c == s.npos || c + 1 == s.size() || s.find_first_of(",|") != s.npos) return {}; string p = s.substr(c + 1); size_t i = p[0] == '-'; if(i == p.size() || p.size() > 11) return {}; for(; i < p.size(); i++) if(!isdigit((unsigned char)p[i])) return {}; long v = atol(p.c_str()); if(v > INT_MAX || v < INT_MIN) return {}; return s.substr(0, c) + ":" + S(v); }
static std::optional<Strs> list(const string &s) { Strs v; size_t p = 0; for(;;) { size_t e = s.find(',', p); auto one = server(s.substr(p, e == s.npos ? e : e - p)); if(!one || std::count(v.begin(), v.end(), *one)) return {}; v.push_back(*one); if(e == s.npos) return v; p = e + 1; } }
static std::optional<string> decode(const string &s) { size_t b = s.find('|'); if(b == s.npos || s.find('|', b + 1) != s.npos) return {}; auto n = list(s.substr(0, b)); if(!n) return {}; Strs o; if(b + 1 < s.size()) { auto l = list(s.substr(b + 1)); if(!l) return {}; o = *l; } return text(*n, o); }
static void encoding(mc::Ctx &x) {
  static const Strs pool = {"a:1", "a:2", "host-1.example.org:65535", "10.0.0.1:7777", "b:-1"}; std::vector<int> left = {0, 1, 2, 3, 4}; Strs n, o; std::vector<RaftServer> rn_, ro; int kn = 1 + x.choose(3, "members"), ko = x.choose(3, "observers"); for(int i = 0; i < kn + ko; i++) { int k = x.choose((int)left.size(), "server"); const string &s = pool[left[k]]; left.erase(left.begin() + k); size_t c = s.find(':'); RaftServer r{s.substr(0, c), atoi(s.c_str() + c + 1)}; (i < kn ? n : o).push_back(s); (i < kn ? rn_ : ro).push_back(r); }
  RaftMembers m(rn_, ro); string t = m.toString(); x.check(decode(t).value_or("") == text(n, o), "encode", text(n, o) + " is encoded as " + t); size_t k = 0;
  auto one = [&](const string &s) { auto want = decode(s); RaftMembers d; bool ok = d.parse(s); k++; x.check(ok == !!want, ok ? "accepted" : "refused", mc::quote(s) + (ok ? " is accepted" : " is refused")); if(ok) { x.check(text(names(d.nodes), names(d.observers)) == *want, "decode", mc::quote(s) + " is decoded as " + text(names(d.nodes), names(d.observers))); RaftMembers c{std::string_view(s)}; x.check(c == d, "constructor", "constructor"); } else { bool threw = false; try { RaftMembers c{std::string_view(s)}; } catch(FatalException &) { threw = true; } x.check(threw, "constructor", mc::quote(s) + " is accepted by the constructor"); } };
  one(t); for(size_t i = 0; i <= t.size(); i++) { one(t.substr(0, i)); for(char c : string("a0:,|- ")) { string u = t; u.insert(i, 1, c); one(u); if(i < t.size()) { u = t; u[i] = c; one(u); } } if(i < t.size()) { string u = t; u.erase(i, 1); one(u); } } one(t + "," + n[0]); one(n[0] + "," + t); one(t + t); x.transition(k); x.nontrivial(); x.outcome(t);
}
// ---- requests to a node ----
struct Cluster { jr::Memb m{{"a", "b", "c"}, {}, 0}; bool committed = true; std::map<string, bool> good; std::set<string> known; /* heard from for certain */ };
static void requests(mc::Ctx &x, int depth) {
  { vsched::Quiet q; fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); } Cluster c; for(auto s : {"b", "c", "d", "e"}) c.good[s] = true; std::map<string, LogIndex> has; std::set<string> heard;        // heard: an answer to its target was given
  qclient::transport() = [&](const string &host, int, const Strs &req) {
    vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); resp::Value v; v.type = '*'; auto add = [&](const string &s) { resp::Value e; e.type = '$'; e.str = s; v.arr.push_back(e); };
    if(req[0] == "RAFT_REQUEST_VOTE" || req[0] == "RAFT_REQUEST_PRE_VOTE") { add(req[1]); add("granted"); } else if(req[0] == "RAFT_HEARTBEAT") { add(req[1]); add("1"); add(""); }
    else if(req[0] == "RAFT_APPEND_ENTRIES") { if(!c.good[host]) { p.set_value(nullptr); return f; } RedisRequest r; for(auto &e : req) r.emplace_back(e.data(), e.size()); RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(r), a)) x.check(false, "parse", "append entries"); LogIndex &h = has[host]; if(h == 0) h = 1; add(S(a.term)); bool fits = a.prevIndex < h; if(fits) h = a.prevIndex + 1 + a.entries.size(); add(S(h)); add(fits ? "1" : "0"); add(fits ? "" : "Log entry mismatch"); heard.insert(host); }
    p.set_value(reply::make(v)); return f; };
  struct Cmd { string name, arg; bool bad = false; }; std::vector<Cmd> cmds; for(auto s : {"d", "e", "b"}) cmds.push_back({"RAFT_ADD_OBSERVER", s}); for(auto s : {"d", "b", "z"}) cmds.push_back({"RAFT_PROMOTE_OBSERVER", s}); for(auto s : {"b", "c", "d"}) cmds.push_back({"RAFT_DEMOTE_TO_OBSERVER", s}); for(auto s : {"b", "c", "d", "z"}) cmds.push_back({"RAFT_REMOVE_MEMBER", s});
  { rn::Group g("n", jr::srv("a")); bool lead = x.choose(2, "node") == 0; g->spinup(); if(lead) while(g->state()->getSnapshot()->status != RaftStatus::LEADER && vsched::now() < 10000000000ull) std::this_thread::sleep_for(ms(250)); else { g->state()->observed(5, jr::srv("b")); } std::this_thread::sleep_for(ms(300)); if(lead) std::this_thread::sleep_for(ms(3000)); x.check((g->state()->getSnapshot()->status == RaftStatus::LEADER) == lead, "setup", "the node does not lead"); conn::Client cl; RaftTerm term = g->state()->getSnapshot()->term; c.known = heard = {"b", "c"};
    auto ask = [&](const Strs &p) { string w = "*" + S(p.size()) + "\r\n"; for(auto &e : p) w += "$" + S(e.size()) + "\r\n" + e + "\r\n"; cl.feed(g->dispatcher(), w); auto v = cl.take(); x.check(v.size() == 1, "answers", p[0] + " is answered " + S(v.size()) + " times"); return v[0]; };
    auto look = [&]() { vsched::Quiet q; c.committed |= g->journal()->getCommitIndex() >= c.m.epoch; auto mb = g->journal()->getMembership(); jr::Memb got; for(auto &s : mb.nodes) got.nodes.push_back(s.hostname); for(auto &s : mb.observers) got.obs.push_back(s.hostname); got.epoch = mb.epoch; x.check(got == c.m, "force", "in force is " + jr::encode(got) + " of entry " + S(got.epoch) + ", should be " + jr::encode(c.m) + " of entry " + S(c.m.epoch)); RaftEntry e; x.check(g->journal()->fetch(got.epoch, e).ok() && e.request.size() == 3 && e.request[0] == "JOURNAL_UPDATE_MEMBERS" && string(e.request[1]) == jr::encode(got), "entry", "the membership in force is not that of entry " + S(got.epoch)); bool com = g->journal()->getCommitIndex() >= got.epoch; x.check(com == c.committed, "committed", string("the change is ") + (com ? "" : "not ") + "committed"); };
    auto targets = [&]() { auto st = g->replicator()->getStatus(); vsched::Quiet q; std::set<string> want(c.m.nodes.begin(), c.m.nodes.end()), got; want.insert(c.m.obs.begin(), c.m.obs.end()); want.erase("a"); for(auto &r : st.replicas) got.insert(r.target.hostname); x.check(got == want, "targets", "replicating to " + S(got.size()) + " servers, should be " + S(want.size())); for(auto &r : st.replicas) x.check(!c.known.count(r.target.hostname) || r.online == c.good[r.target.hostname], "setup", "status of " + r.target.hostname); };
    auto quorum = [&](const Strs &nodes, const std::set<string> &k) { size_t up = 0; for(auto &s : nodes) up += s == "a" || (k.count(s) && c.good[s]); return nodes.size() == 1 || up > nodes.size() / 2; };
    auto command = [&](const Strs &p, bool sane) {
      x.log("  ", p[0], p.size() > 1 ? " " + p[1] : ""); LogIndex size = g->journal()->getLogSize(); c.committed |= g->journal()->getCommitIndex() >= c.m.epoch; Cluster old = c; bool ok = lead && sane, may = false; if(p[0] == "RAFT_ADD_OBSERVER" && p.size() > 1 && sane) { string h = p[1].substr(0, p[1].find(':')); if(!std::count(c.m.nodes.begin(), c.m.nodes.end(), h) && !std::count(c.m.obs.begin(), c.m.obs.end(), h)) heard.erase(h); } string s = sane ? p[1].substr(0, p[1].find(':')) : ""; if(s == "a") ok = false; auto drop = [&](Strs &v) { auto it = std::find(v.begin(), v.end(), s); if(it == v.end()) return false; v.erase(it); return true; }; jr::Memb n = c.m;
      if(ok) { if(p[0] == "RAFT_ADD_OBSERVER") { ok = !drop(n.nodes) && !drop(n.obs); n.obs.push_back(s); } else if(p[0] == "RAFT_PROMOTE_OBSERVER") { ok = drop(n.obs) && heard.count(s) && c.good[s]; may = !c.known.count(s); n.nodes.push_back(s); } else { Strs rest = n.nodes; drop(rest); ok = quorum(rest, heard); may = !quorum(rest, c.known); if(p[0] == "RAFT_DEMOTE_TO_OBSERVER") { ok &= drop(n.nodes); n.obs.push_back(s); } else ok &= drop(n.obs) || drop(n.nodes); } }
      resp::Value v = ask(p); if(!old.committed && (v.type == '-' || g->journal()->getCommitIndex() < old.m.epoch)) ok = false; if(ok && may && v.type == '-') ok = false;      /* it may be committed just in time */ string what = p[0] + (p.size() > 1 ? " " + p[1] : "") + " with " + jr::encode(old.m) + (old.committed ? "" : " uncommitted") + " is answered " + v.show(); x.check((v.type == '+' && v.str == "OK") == ok && (ok || v.type == '-'), ok ? "refused" : "accepted", what); x.check(g->journal()->getLogSize() == size + ok, "log", what + "; log size " + S(size) + " becomes " + S(g->journal()->getLogSize()));
      if(ok) { n.epoch = size; c.m = n; oneStep(x, old.m, c.m); if(p[0] == "RAFT_ADD_OBSERVER") { c.known.erase(s); } if(p[0] == "RAFT_REMOVE_MEMBER") { c.known.erase(s); } bool com = g->journal()->getCommitIndex() >= size; c.committed = com; look(); } x.transition(); return ok; };
    auto settle = [&]() { if(!lead) return; std::this_thread::sleep_for(ms(2500)); for(auto &s : c.m.nodes) c.known.insert(s); for(auto &s : c.m.obs) c.known.insert(s); size_t up = 0; for(auto &s : c.m.nodes) up += s == "a" || c.good[s]; if(up > c.m.nodes.size() / 2) c.committed = true; x.check(g->state()->getSnapshot()->status == RaftStatus::LEADER && g->state()->getSnapshot()->term == term, "setup", "the node no longer leads"); look(); targets(); };
    auto nonsense = [&]() { for(auto n : {"RAFT_ADD_OBSERVER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER", "RAFT_REMOVE_MEMBER"}) { command({n}, false); command({n, "d:1", "e:1"}, false); for(auto a : {"d", "d:", ":1", "d:1:2", "d:x", "d,e:1", "d|e:1", "d:1|e:1", "d:1,e:1", "d: 1", "d:99999999999"}) command({n, a}, false); command({n, "a:1"}, true); } for(auto &k : cmds) { bool would = !lead || !c.committed; if(would) command({k.name, k.arg + ":1"}, true); } look(); };
    for(int d = 0;; d++) {
      string canon; { vsched::Quiet q; canon = jr::encode(c.m) + S(c.committed) + S(lead); for(auto &p : c.good) canon += S(p.second) + S(c.known.count(p.first)); for(auto s : {"b", "c", "d", "e"}) canon += S(g->journal()->getLogSize() - has[s] > 0); x.nontrivial(); x.outcome(canon); } if(x.visited(canon, depth - d)) break;
      int k = d == depth ? 0 : x.choose(1 + (lead ? (int)cmds.size() * 2 + 3 : 0), "operation"); if(k == 0) { nonsense(); break; } k--;
      if(k < (int)cmds.size() * 2) { Cmd q = cmds[k / 2]; bool wait = k % 2; if(!command({q.name, q.arg + ":1"}, true)) break; if(wait) settle(); else { for(auto &o : cmds) { c.committed |= g->journal()->getCommitIndex() >= c.m.epoch; if(!c.committed) command({o.name, o.arg + ":1"}, true); } } continue; }      // a refused one leads nowhere new
      string s = k == (int)cmds.size() * 2 ? "b" : k == (int)cmds.size() * 2 + 1 ? "c" : "d"; c.good[s] = !c.good[s]; x.log("  ", s, c.good[s] ? " recovers" : " stalls"); settle();
    }
    cl.drop(); g->spindown(); }
  qclient::transport() = nullptr;
}
int main(int argc, char **argv) {
  Link::setConnectionLogging(false);
  mc::Check c; c.id = "C22";
  c.rule = "(a) Every sequence of 21 operations (appends, membership changes valid and invalid, memberships received from a leader, commits, truncations, trimming, reopening) up to depth 5 (thorough 6) on the real journal next to a model: membership in force, epoch, entry. (b) All memberships of 1-3 members and 0-2 observers from 5 servers, encoded and decoded, and every single-character change, removal, insertion and truncation of the text, against an independent decoder. (c) A real leader (or follower) with its replicator and followers that replicate or stall: every sequence up to depth 3 (thorough 5) of 13 membership requests, each with or without waiting for replication, and of servers stalling and recovering; in each state also every malformed request: answers, membership, entry, replication targets as a model says.";
  c.assumptions = {"a server no replies came from yet counts as not up to date", "truncation never goes below a membership entry on which another one was built"};
  c.spaces.push_back({"journal", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { journal(x, x.tier(5, 6)); }); }});
  c.spaces.push_back({"encoding", encoding});
  c.spaces.push_back({"requests", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { requests(x, x.tier(3, 5)); }); }});
  return mc::main(argc, argv, c);
}
