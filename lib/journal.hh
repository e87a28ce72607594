// The raft journal next to a plain list: operations, reference model, observations.
#ifndef VJOURNAL_HH
#define VJOURNAL_HH
#include "mc.hh"
#include "fakedb.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftCommon.hh"
#include <deque>
#include <optional>
namespace jr {
using namespace quarkdb;
inline RaftServer srv(const std::string &n) { return RaftServer(n, 1); }
inline const std::string kCluster = "cl";
inline std::string pol(FsyncPolicy p) { return p == FsyncPolicy::kAlways ? "always" : p == FsyncPolicy::kAsync ? "async" : "important"; }
struct Entry { RaftTerm term; std::vector<std::string> req; bool operator==(const Entry &o) const { return term == o.term && req == o.req; } };
inline RedisRequest toReq(const std::vector<std::string> &r) { RedisRequest q; for(auto &s : r) q.emplace_back(s.data(), s.size()); return q; }
inline RaftEntry toEntry(const Entry &e) { return RaftEntry(e.term, toReq(e.req)); }
inline Entry fromEntry(const RaftEntry &e) { Entry r; r.term = e.term; for(size_t i = 0; i < e.request.size(); i++) r.req.emplace_back(e.request[i]); return r; }
inline std::string show(const Entry &e) { std::string s = std::to_string(e.term) + ":"; for(auto &p : e.req) s += " " + mc::quote(p); return s; }
typedef std::vector<std::string> Names;
struct Memb { Names nodes, obs; LogIndex epoch; bool operator==(const Memb &o) const { return nodes == o.nodes && obs == o.obs && epoch == o.epoch; } };
inline std::string encode(const Memb &m) { std::string s; for(size_t i = 0; i < m.nodes.size(); i++) s += (i ? "," : "") + m.nodes[i] + ":1"; s += "|"; for(size_t i = 0; i < m.obs.size(); i++) s += (i ? "," : "") + m.obs[i] + ":1"; return s; }
struct Model {
  LogIndex start = 0, commit = 0; std::deque<Entry> log; RaftTerm term = 0; std::string vote; FsyncPolicy policy; std::vector<Memb> memb; LogIndex floor = -1;
  LogIndex size() const { return start + (LogIndex)log.size(); }
  const Entry &at(LogIndex i) const { return log[i - start]; }
  const Memb &members() const { return memb.back(); }
  Model(const Names &nodes, LogIndex s, FsyncPolicy p) : start(s), commit(s), policy(p) { memb.push_back({nodes, {}, s}); log.push_back({0, {"JOURNAL_UPDATE_MEMBERS", encode(memb[0]), kCluster}}); }
  bool append(LogIndex i, const Entry &e) {
    if(i != size() || e.term > term || e.term < log.back().term) return false;
    log.push_back(e); return true;
  }
  bool member(LogIndex i, const Entry &e, const Memb &m) { if(!append(i, e)) return false; floor = members().epoch; memb.push_back(m); memb.back().epoch = i; return true; }
  std::string canon() const { std::string s = std::to_string(start) + "/" + std::to_string(commit) + "/" + std::to_string(term) + "/" + vote + "/" + pol(policy) + "/" + encode(members()) + "@" + std::to_string(members().epoch); for(auto &e : log) s += "\n" + show(e); return s; }
};
// what can be asked of a journal, as one comparable text
inline std::string observe(RaftJournal &j) {
  Model m({}, 0, FsyncPolicy::kAlways); m.log.clear(); m.start = j.getLogStart(); m.commit = j.getCommitIndex(); m.term = j.getCurrentTerm(); RaftServer v = j.getVotedFor(); m.vote = v.empty() ? "" : v.hostname; m.policy = j.getFsyncPolicy();
  RaftMembership mb = j.getMembership(); Memb w; for(auto &n : mb.nodes) w.nodes.push_back(n.hostname); for(auto &n : mb.observers) w.obs.push_back(n.hostname); w.epoch = mb.epoch; m.memb = {w};
  std::string bad; if(j.getEpoch() != mb.epoch) bad = "\nepoch mismatch"; if(j.getClusterID() != kCluster) bad += "\ncluster " + j.getClusterID();
  for(LogIndex i = m.start; i < j.getLogSize(); i++) { RaftEntry e; auto st = j.fetch(i, e); if(!st.ok()) { bad += "\nhole at " + std::to_string(i); continue; } m.log.push_back(fromEntry(e)); }
  return m.canon() + bad;
}
// All questions, each against the list.
inline void examine(mc::Ctx &x, RaftJournal &j, const Model &m) {
  std::string got = observe(j); x.check(got == m.canon(), "state", "journal holds:\n" + got + "\nexpected:\n" + m.canon());
  x.check(j.getLogSize() == m.size(), "size", "log size");
  for(LogIndex i = std::max<LogIndex>(-1, m.start - 3); i <= m.size() + 1; i++) {
    bool in = i >= m.start && i < m.size(); RaftEntry e; RaftTerm t = -7; RaftSerializedEntry s;
    bool a = j.fetch(i, e).ok(), b = j.fetch(i, t).ok(), c = j.fetch(i, s).ok(); x.check(a == in && b == in && c == in, "fetch", "fetch of entry " + std::to_string(i) + (in ? " failed" : " found something"));
    if(in) { x.check(fromEntry(e) == m.at(i), "fetch", "entry"); x.check(t == m.at(i).term, "fetch", "term"); x.check(s == toEntry(m.at(i)).serialize(), "fetch", "serialized form"); }
    bool died = false; try { RaftEntry d; j.fetch_or_die(i, d); } catch(std::exception &) { died = true; } x.check(died == !in, "fetch-or-die", "fetch_or_die of " + std::to_string(i));
    died = false; try { RaftTerm d; j.fetch_or_die(i, d); } catch(std::exception &) { died = true; } x.check(died == !in, "fetch-or-die", "fetch_or_die(term) of " + std::to_string(i));
    for(RaftTerm t = 0; t <= m.term + 1; t++) x.check(j.matchEntries(i, t) == (in && m.at(i).term == t), "match", "matchEntries(" + std::to_string(i) + "," + std::to_string(t) + ")");
    for(bool must : {false, true}) {
      auto it = j.getIterator(i, must); LogIndex k = in || must ? i : m.start; if(i < 0) { continue; }
      if((must && !in) || i >= m.size()) { x.check(!it.valid(), "iterator", "iterator from " + std::to_string(i) + " should be empty"); continue; }
      for(; k < m.size(); k++) { x.check(it.valid() && it.getCurrentIndex() == k, "iterator", "iterator from " + std::to_string(i) + " at " + std::to_string(k)); RaftSerializedEntry s; it.current(s); x.check(s == toEntry(m.at(k)).serialize(), "iterator", "iterated entry " + std::to_string(k)); it.next(); }
      x.check(!it.valid(), "iterator", "iterator runs past the end");
    }
  }
  for(int n : {0, 1, 2, 50}) {
    std::vector<RaftEntry> v; j.fetch_last(n, v); LogIndex from = std::max<LogIndex>(m.start, m.size() - n); x.check((LogIndex)v.size() == m.size() - from, "fetch-last", "fetch_last(" + std::to_string(n) + ") gave " + std::to_string(v.size()) + " entries");
    for(size_t i = 0; i < v.size(); i++) x.check(fromEntry(v[i]) == m.at(from + i), "fetch-last", "fetch_last entry");
  }
  for(size_t count : {1, 2, 50}) for(const char *match : {"", "*XX*", "*MEMBERS*"}) {
    std::vector<LogIndex> got, want; LogIndex cur = 0; int rounds = 0;
    do { std::vector<RaftEntryWithIndex> out; LogIndex next = -1; j.scanContents(cur, count, match, out, next); x.check(out.size() <= count, "scan", "scan page too long"); for(auto &o : out) { got.push_back(o.index); x.check(o.index >= m.start && o.index < m.size() && fromEntry(o.entry) == m.at(o.index), "scan", "scanned entry"); } x.check(next == 0 || next > cur, "scan", "scan does not advance"); cur = next; } while(cur != 0 && ++rounds < 100);
    for(LogIndex i = m.start; i < m.size(); i++) { std::string r; for(auto &p : m.at(i).req) r += p; std::string w(match); if(w.empty() || r.find(w.substr(1, w.size() - 2)) != std::string::npos) want.push_back(i); }
    x.check(got == want, "scan", std::string("scan with match ") + match + " misses or repeats entries");
  }
  // compareEntries: first index at which a proposal differs
  for(LogIndex from = m.start; from <= m.size(); from++) for(int n = 0; n <= 3; n++) for(int diff = -1; diff < n; diff++) {
    std::vector<RaftEntry> v; LogIndex want = std::min<LogIndex>(m.size(), from + n);
    for(int i = 0; i < n; i++) { Entry e = from + i < m.size() ? m.at(from + i) : Entry{m.term, {"new"}}; if(i == diff) { if(from % 2) e.term += 5; else e.req.push_back("x"); if(from + i < m.size()) want = std::min(want, from + i); } v.push_back(toEntry(e)); }
    x.check(j.compareEntries(from, v) == want, "compare", "compareEntries from " + std::to_string(from));
  }
}
// --- operations -----------------------------------------------------------------------------
struct Op { std::string name; int kind; int a = 0, b = 0; };
enum { TERM, APPEND, MARKER, RAWMEMB, ADDOBS, PROMOTE, DEMOTE, REMOVE, COMMIT, TRUNC, TRIM, POLICY, REOPEN };
inline std::vector<Op> alphabet() {
  std::vector<Op> v;
  for(int d = -1; d <= 1; d++) for(int w = 0; w <= 2; w++) { if(d == -1 && w != 1) continue; v.push_back({"setCurrentTerm(" + std::string(d < 0 ? "current-1" : d ? "current+1" : "current") + "," + (w == 0 ? "" : w == 1 ? "a" : "b") + ")", TERM, d, w}); }
  v.push_back({"append", APPEND, 0, 0}); v.push_back({"append(term of last)", APPEND, 0, 1}); v.push_back({"append(term+1)", APPEND, 0, 2}); v.push_back({"append(older term)", APPEND, 0, 3}); v.push_back({"append(size-1)", APPEND, -1, 0}); v.push_back({"append(size+1)", APPEND, 1, 0});
  v.push_back({"leadershipMarker", MARKER}); v.push_back({"append membership of this cluster", RAWMEMB, 0}); v.push_back({"append membership of another cluster", RAWMEMB, 1});
  v.push_back({"addObserver(d)", ADDOBS, 'd'}); v.push_back({"addObserver(a)", ADDOBS, 'a'}); v.push_back({"promote(d)", PROMOTE, 'd'}); v.push_back({"demote(b)", DEMOTE, 'b'}); v.push_back({"remove(b)", REMOVE, 'b'}); v.push_back({"remove(d)", REMOVE, 'd'});
  v.push_back({"commit(size-1)", COMMIT, 0}); v.push_back({"commit(+1)", COMMIT, 1}); v.push_back({"commit(-1)", COMMIT, 2}); v.push_back({"commit(size)", COMMIT, 3});
  v.push_back({"truncate(size-1)", TRUNC, 0}); v.push_back({"truncate(commit+1)", TRUNC, 1}); v.push_back({"truncate(commit)", TRUNC, 2}); v.push_back({"truncate(size)", TRUNC, 3});
  v.push_back({"trim(commit)", TRIM, 0}); v.push_back({"trim(start+1)", TRIM, 1}); v.push_back({"trim(commit+1)", TRIM, 2}); v.push_back({"trim(size)", TRIM, 3}); v.push_back({"trim(start-1)", TRIM, 4});
  v.push_back({"policy(always)", POLICY, 0}); v.push_back({"policy(async)", POLICY, 1}); v.push_back({"policy(important)", POLICY, 2});
  v.push_back({"reopen", REOPEN});
  return v;
}
inline FsyncPolicy policyOf(int a) { return a == 0 ? FsyncPolicy::kAlways : a == 1 ? FsyncPolicy::kAsync : FsyncPolicy::kSyncImportantUpdates; }
enum Outcome { DONE, REFUSED, SKIP };
// Runs one operation on both. SKIP: the operation cannot occur here. `important`: must be durable under sync-important-updates.
inline Outcome perform(mc::Ctx &x, std::unique_ptr<RaftJournal> &j, const std::string &path, Model &m, const Op &o, bool &important) {
  important = false; bool want = false, got = false, threw = false; Model before = m; LogIndex size = m.size();
  auto go = [&](auto f) { try { got = f(); } catch(std::exception &e) { threw = true; } };
  auto memberEntry = [&](Memb n) { return Entry{m.term, {"JOURNAL_UPDATE_MEMBERS", encode(n), kCluster}}; };
  auto change = [&](Memb n, bool valid) { important = true; want = valid && m.commit >= m.members().epoch && m.member(size, memberEntry(n), n); };
  auto drop = [](Names &v, const std::string &n) { for(size_t i = 0; i < v.size(); i++) if(v[i] == n) { v.erase(v.begin() + i); return true; } return false; };
  std::string err, who(1, (char)o.a); Memb n = m.members();
  switch(o.kind) {
    case TERM: { RaftTerm t = m.term + o.a; std::string v = o.b == 0 ? "" : o.b == 1 ? "a" : "b"; want = !(t < m.term || (t == m.term && !m.vote.empty())); if(want) { m.term = t; m.vote = v; } important = true;
      go([&] { return j->setCurrentTerm(t, v.empty() ? RaftServer() : srv(v.c_str())); }); break; }
    case APPEND: { RaftTerm t = o.b == 0 ? m.term : o.b == 1 ? m.log.back().term : o.b == 2 ? m.term + 1 : m.log.back().term - 1; if(t < 0 || (o.b == 1 && t == m.term)) return SKIP; Entry e{t, {"SET", "k" + std::to_string(size), std::string("XX\0|\n", 5)}}; want = m.append(size + o.a, e); go([&] { return j->append(size + o.a, toEntry(e)); }); break; }
    case MARKER: { Entry e{m.term, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(m.term), "a:1"}}; want = m.append(size, e); important = true; go([&] { return j->appendLeadershipMarker(size, m.term, srv("a")); }); break; }
    case RAWMEMB: { n.nodes = {"a", "b", "c", "e"}; n.obs = {"f"}; Entry e = memberEntry(n); if(o.a) { e.req[2] = "other"; want = m.append(size, e); } else want = m.member(size, e, n); important = true; go([&] { return j->append(size, toEntry(e)); }); break; }
    case ADDOBS: { bool ok = std::find(n.nodes.begin(), n.nodes.end(), who) == n.nodes.end() && std::find(n.obs.begin(), n.obs.end(), who) == n.obs.end(); n.obs.push_back(who); RaftTerm t = m.term; change(n, ok); go([&] { return j->addObserver(t, srv(who.c_str()), err); }); break; }
    case PROMOTE: { bool ok = drop(n.obs, who); n.nodes.push_back(who); change(n, ok); go([&] { return j->promoteObserver(m.term, srv(who.c_str()), err); }); break; }
    case DEMOTE: { bool ok = drop(n.nodes, who); n.obs.push_back(who); change(n, ok); go([&] { return j->demoteToObserver(m.term, srv(who.c_str()), err); }); break; }
    case REMOVE: { bool ok = drop(n.obs, who) || drop(n.nodes, who); change(n, ok); go([&] { return j->removeMember(m.term, srv(who.c_str()), err); }); break; }
    case COMMIT: { LogIndex i = o.a == 0 ? size - 1 : o.a == 1 ? m.commit + 1 : o.a == 2 ? m.commit - 1 : size; want = i >= m.commit && i < size; if(want) m.commit = i; go([&] { return j->setCommitIndex(i); }); break; }
    case TRUNC: { LogIndex i = o.a == 0 ? size - 1 : o.a == 1 ? m.commit + 1 : o.a == 2 ? m.commit : size;
      if(i <= m.floor) return SKIP;     // a membership another one was built upon is committed in the cluster
      want = i < size && i > m.commit; if(want) { while(m.size() > i) m.log.pop_back(); if(m.members().epoch >= i) { m.memb.pop_back(); m.floor = m.members().epoch; } } go([&] { return j->removeEntries(i); }); break; }
    case TRIM: { LogIndex i = o.a == 0 ? m.commit : o.a == 1 ? m.start + 1 : o.a == 2 ? m.commit + 1 : o.a == 3 ? size : m.start - 1; want = i <= m.commit; if(want) while(m.start < i) { m.log.pop_front(); m.start++; } go([&] { j->trimUntil(i); return true; }); break; }
    case POLICY: { m.policy = policyOf(o.a); want = true; go([&] { j->setFsyncPolicy(m.policy); return true; }); break; }
    case REOPEN: want = got = true; j.reset(); j.reset(new RaftJournal(path)); break;
  }
  if(want) x.check(got && !threw, "refused", o.name + " was refused: " + err); else x.check(!got || threw, "accepted", o.name + " was accepted");
  return want ? DONE : REFUSED;
}
}
#endif
