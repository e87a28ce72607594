// What a raft node's (term, role, leader, vote) must do, written from the rules of raft and the comments of RaftState.
#ifndef RAFTMODEL_HH
#define RAFTMODEL_HH
#include <string>
#include "raft/RaftState.hh"
namespace rm {
using namespace quarkdb;
enum Kind { OBSERVE, GRANT, CANDIDATE, ASCEND, DROPOUT, SHUTDOWN };
struct Op { int kind; RaftTerm term = 0; std::string who; std::string show() const { static const char *n[] = {"observed", "grantVote", "becomeCandidate", "ascend", "dropOut", "shutdown"}; return std::string(n[kind]) + "(" + (kind == SHUTDOWN ? "" : std::to_string(term)) + (who.empty() ? "" : "," + who) + ")"; } };
inline std::string nameOf(const RaftServer &s) { return s.empty() ? "" : s == RaftState::BLOCKED_VOTE ? "!" : s.hostname; }
inline RaftServer srv(const std::string &n) { return n.empty() ? RaftServer() : RaftServer(n, 1); }
struct Model {
  RaftTerm term = 0; char role = 'F'; std::string leader, vote; LogIndex marker = -1, size = 1; bool voter = true; std::string me = "a";
  // returns: 1 must be accepted, 0 must be refused, -1 nothing to do either way
  int apply(const Op &o) {
    switch(o.kind) {
      case OBSERVE:
        if(role == 'S' || o.term < term) return 0;
        if(o.term > term) { term = o.term; role = 'F'; leader = o.who; vote = leader.empty() ? "" : "!"; marker = -1; return 1; }
        if(!leader.empty() || o.who.empty()) return leader.empty() ? -1 : 0;
        leader = o.who; if(vote.empty()) vote = "!"; return 1;
      case GRANT: if(role != 'F' || o.term != term || !leader.empty() || !vote.empty()) return 0; vote = o.who; return 1;
      case CANDIDATE: if(role != 'F' || o.term != term || !leader.empty() || !vote.empty() || !voter) return 0; vote = me; role = 'C'; return 1;
      case ASCEND: if(role != 'C' || o.term != term || !leader.empty() || vote != me || !voter) return 0; leader = me; role = 'L'; marker = size++; return 1;
      case DROPOUT: if(role != 'C' || o.term != term) return 0; role = 'F'; return 1;
      case SHUTDOWN: role = 'S'; marker = -1; return -1;
    }
    return 0;
  }
  void restart() { role = 'F'; leader = ""; marker = -1; }
  std::string show() const { return std::to_string(term) + (role == 'F' ? " follower" : role == 'C' ? " candidate" : role == 'L' ? " leader" : " shutdown") + " leader=" + leader + " vote=" + vote + " marker=" + std::to_string(marker); }
};
inline std::string show(const RaftStateSnapshot &s) {
  Model m; m.term = s.term; m.role = s.status == RaftStatus::FOLLOWER ? 'F' : s.status == RaftStatus::CANDIDATE ? 'C' : s.status == RaftStatus::LEADER ? 'L' : 'S'; m.leader = nameOf(s.leader); m.vote = nameOf(s.votedFor); m.marker = s.leadershipMarker; return m.show();
}
inline int perform(RaftState &s, const Op &o) {
  switch(o.kind) { case OBSERVE: return s.observed(o.term, srv(o.who)); case GRANT: return s.grantVote(o.term, srv(o.who)); case CANDIDATE: return s.becomeCandidate(o.term); case ASCEND: return s.ascend(o.term); case DROPOUT: return s.dropOut(o.term); default: s.shutdown(); return -1; }
}
}
#endif
