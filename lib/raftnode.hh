// A node of a raft cluster over the in-memory storage engine, built from the real components.
#ifndef RAFTNODE_HH
#define RAFTNODE_HH
#include "mc.hh"
#include "fakedb.hh"
#include "journal.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftConfig.hh"
#include "raft/RaftDispatcher.hh"
#include "raft/RaftGroup.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftReplicator.hh"
#include "raft/RaftState.hh"
#include "raft/RaftTimeouts.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftWriteTracker.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include <sys/stat.h>
namespace rn {
using namespace quarkdb;
inline std::string S(long n) { return std::to_string(n); }
inline const std::string &dir(const std::string &name) {        // a shard directory without any contents, made once per process
  static std::map<std::string, std::string> m; std::string &d = m[name]; if(!d.empty()) return d; d = mc::scratch() + "/" + name;
  for(auto s : {"", "/current", "/current/raft-journal"}) mkdir((d + s).c_str(), 0755);
  FILE *f = fopen((d + "/SHARD-ID").c_str(), "w"); fputs("shard", f); fclose(f); f = fopen((d + "/RESILVERING-HISTORY").c_str(), "w"); fputs("GENESIS - 1\n", f); fclose(f); return d;
}
inline std::string journalPath(const std::string &name) { return dir(name) + "/current/raft-journal"; }
inline RaftTimeouts timeouts() { return RaftTimeouts(std::chrono::milliseconds(1000), std::chrono::milliseconds(1000), std::chrono::milliseconds(250)); }   // equal bounds: no randomness
inline void format(const std::string &name, const std::vector<RaftServer> &nodes, LogIndex start = 0, FsyncPolicy p = FsyncPolicy::kSyncImportantUpdates) { RaftJournal j(journalPath(name), jr::kCluster, nodes, start, p); }
// everything but the director, for driving by hand
struct Group {
  std::unique_ptr<ShardDirectory> sd; std::unique_ptr<RaftGroup> g;
  Group(const std::string &name, const RaftServer &me, const RaftTimeouts &t = timeouts()) { sd.reset(new ShardDirectory(dir(name))); g.reset(new RaftGroup(*sd, me, t, "")); }
  ~Group() { g.reset(); sd.reset(); }
  RaftGroup *operator->() { return g.get(); }
};
}
#endif
