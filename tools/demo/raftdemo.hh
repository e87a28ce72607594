#include <map>
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftConfig.hh"
#include "raft/RaftDispatcher.hh"
#include "raft/RaftGroup.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftReplicator.hh"
#include "raft/RaftState.hh"
#include "raft/RaftTimeouts.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftVoteRegistry.hh"
#include "raft/RaftWriteTracker.hh"
#include "Connection.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include <qclient/QClient.hh>
#include <iostream>
#include <cstdio>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>
using namespace quarkdb; using ms = std::chrono::milliseconds; using Strs = std::vector<std::string>;
static RaftServer srv(const char *h) { return RaftServer(h, 1); }
static std::string nodeDir(const std::string &base, const std::string &name) {
  std::string d = base + "/" + name; for(auto s : {"", "/current", "/current/raft-journal"}) mkdir((d + s).c_str(), 0755);
  FILE *f = fopen((d + "/SHARD-ID").c_str(), "w"); fputs("shard", f); fclose(f); f = fopen((d + "/RESILVERING-HISTORY").c_str(), "w"); fputs("GENESIS - 1\n", f); fclose(f); return d;
}
static std::string journalOf(const std::string &dir) { return dir + "/current/raft-journal"; }
static RaftEntry entry(RaftTerm t, const char *v) { RaftEntry x; x.term = t; x.request = {"SET", "k", v}; return x; }
static qclient::redisReplyPtr str(const std::string &s) { auto *r = (redisReply*) calloc(1, sizeof(redisReply)); r->type = REDIS_REPLY_STRING; r->str = strdup(s.c_str()); r->len = s.size(); return qclient::redisReplyPtr(r, [](redisReply *p) { free(p->str); free(p); }); }
static qclient::redisReplyPtr arr(const Strs &v) {
  auto *r = (redisReply*) calloc(1, sizeof(redisReply)); r->type = REDIS_REPLY_ARRAY; r->elements = v.size(); r->element = (redisReply**) calloc(v.size(), sizeof(redisReply*));
  for(size_t i = 0; i < v.size(); i++) { auto *e = (redisReply*) calloc(1, sizeof(redisReply)); e->type = REDIS_REPLY_STRING; e->str = strdup(v[i].c_str()); e->len = v[i].size(); r->element[i] = e; }
  return qclient::redisReplyPtr(r, [](redisReply *p) { for(size_t i = 0; i < p->elements; i++) { free(p->element[i]->str); free(p->element[i]); } free(p->element); free(p); });
}
#define FAIL(what) do { std::cerr << "FAILED: " << what << std::endl; _exit(1); } while(0)
