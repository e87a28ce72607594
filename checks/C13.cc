//@ sources: *
//@ lib: fakedb nothreads
#include "journal.hh"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using namespace jr;
extern bool gRealThreads;
static std::string where() { return mc::scratch() + "/journal"; }
// State after every operation, with the position in the write log and whether it had to be durable.
struct Point { std::string state; size_t logSize; bool mustSync; std::string what; };
static void crashes(mc::Ctx &x, const std::vector<Op> &ops, int depth, int prelude, FsyncPolicy policy) {
  fakedb::wipeAll(); fakedb::gKeepLog = true; Model m({"a", "b", "c"}, 0, policy); bool imp;
  std::unique_ptr<RaftJournal> j(new RaftJournal(where(), kCluster, {srv("a"), srv("b"), srv("c")}, 0, policy));
  auto prep = [&](int kind, int a = 0, int b = 0) { perform(x, j, where(), m, Op{"prelude", kind, a, b}, imp); };
  if(prelude == 1) { prep(TERM, 1, 1); prep(MARKER); prep(APPEND); prep(COMMIT, 0); prep(TERM, 1, 0); prep(APPEND); prep(ADDOBS, 'd'); prep(APPEND); }
  j.reset(); fakedb::Map base = fakedb::contents(where()); fakedb::wipeAll(); fakedb::put(where(), base); j.reset(new RaftJournal(where())); x.nontrivial();
  auto &log = [&]() -> auto& { return fakedb::store(where()).log; }();
  std::vector<Point> pts{{m.canon(), log.size(), true, "start"}}; size_t begin = log.size();
  for(int d = 0; d < depth; d++) {
    int i = x.choose((int)ops.size() + 1, "operation"); if(i == (int)ops.size()) break;
    FsyncPolicy pol = m.policy; Outcome o = perform(x, j, where(), m, ops[i], imp); if(o == SKIP) x.abandon(); x.transition(); x.log("  ", ops[i].name, o == REFUSED ? " refused" : "");
    bool must = o == DONE && ops[i].kind != REOPEN && ops[i].kind != POLICY && log.size() > pts.back().logSize && ((pol == FsyncPolicy::kAlways && ops[i].kind != COMMIT) || (pol == FsyncPolicy::kSyncImportantUpdates && imp));
    pts.push_back({m.canon(), log.size(), must, ops[i].name});
  }
  auto records = log; size_t n = records.size(); j.reset(); std::string mcanon = m.canon();
  for(size_t t = begin; t <= n; t++) {
    size_t synced = begin; for(size_t i = begin; i < t; i++) if(records[i].sync) synced = i + 1;
    for(size_t k = synced; k <= t; k++) {
      if(t < n && k == t && k > synced) continue;                         // the same as a crash one write later with this prefix
      fakedb::Map c = base; for(size_t i = begin; i < k; i++) for(auto &o : records[i].ops) { if(o.value) c[o.key] = *o.value; else c.erase(o.key); }
      fakedb::wipeAll(); fakedb::put(where(), c); x.transition();
      std::string got; try { RaftJournal r(where()); got = observe(r); } catch(std::exception &e) { x.log("  crash after write ", t, ", writes surviving ", k); x.fail("unopenable", std::string("journal does not open after a crash: ") + e.what()); }
      // operations that had returned by t; those that had to be durable must be in the surviving prefix
      size_t need = 0; for(size_t p = 0; p < pts.size(); p++) if(pts[p].mustSync && pts[p].logSize <= t) need = p;
      bool ok = false; for(size_t p = need; p < pts.size(); p++) if(pts[p].state == got) ok = true;
      if(!ok) { x.log("  crash after write ", t, ", writes surviving ", k, " of ", n); bool older = false; for(auto &p : pts) if(p.state == got) older = true;
        x.fail(older ? "lost:" + pts[need].what : "partial", (older ? "a durable operation was lost: " + pts[need].what : "the recovered journal is no prefix of the history:") + "\n" + got); }
      x.outcome(got);
    }
  }
}
static std::vector<Op> legal() { std::vector<Op> v; for(auto &o : alphabet()) { if(o.kind == REOPEN || o.name == "setCurrentTerm(current-1,a)" || o.name == "append(term+1)" || o.name == "append(older term)" || o.name == "append(size-1)" || o.name == "append(size+1)" || o.name == "addObserver(a)" || o.name == "commit(-1)" || o.name == "commit(size)" || o.name == "truncate(commit)" || o.name == "truncate(size)" || o.name == "trim(commit+1)" || o.name == "trim(size)" || o.name == "trim(start-1)" || o.name == "setCurrentTerm(current,b)" || o.name == "setCurrentTerm(current+1,b)") continue; v.push_back(o); } return v; }
static void copyDir(const std::string &a, const std::string &b) {
  mkdir(b.c_str(), 0755); DIR *d = opendir(a.c_str()); while(dirent *e = readdir(d)) { std::string n = e->d_name; if(n == "." || n == ".." || n == "LOCK") continue;
    FILE *i = fopen((a + "/" + n).c_str(), "r"), *o = fopen((b + "/" + n).c_str(), "w"); char buf[65536]; size_t k; while((k = fread(buf, 1, sizeof buf, i)) > 0) fwrite(buf, 1, k, o); fclose(i); fclose(o); } closedir(d);
}
static void rm(const std::string &p) { DIR *d = opendir(p.c_str()); if(!d) return; while(dirent *e = readdir(d)) { std::string n = e->d_name; if(n != "." && n != "..") unlink((p + "/" + n).c_str()); } closedir(d); rmdir(p.c_str()); }
// The same histories on real RocksDB: files copied mid-history, reopened, compared.
static void conformance(mc::Ctx &x) {
  fakedb::wipeAll(); fakedb::gUseReal = true; gRealThreads = true; auto ops = alphabet(); int n = (int)ops.size(), step = x.choose(n - 1, "step") + 1, first = x.choose(x.tier(3, n), "first"), policy = x.choose(3, "policy"); bool imp;
  std::string a = mc::scratch() + "/real", b = mc::scratch() + "/copy"; rm(a); rm(b); x.nontrivial(); Model m({"a", "b", "c"}, 0, policyOf(policy)), half = m;
  { std::unique_ptr<RaftJournal> j(new RaftJournal(a, kCluster, {srv("a"), srv("b"), srv("c")}, 0, policyOf(policy)));
    for(int i = 0; i < 40; i++) { if(i == 20) { copyDir(a, b); half = m; } auto &o = ops[(first * 5 + i * step) % n]; x.log("  ", o.name); perform(x, j, a, m, o, imp); x.transition(); }
    std::string got = observe(*j); x.check(got == m.canon(), "real", "real journal holds:\n" + got + "\nexpected:\n" + m.canon()); }
  { RaftJournal j(a); x.check(observe(j) == m.canon(), "real-reopen", "contents after reopening"); }
  { RaftJournal j(b); std::string got = observe(j); x.check(got == half.canon(), "real-crash", "after a crash the real journal holds\n" + got + "\nexpected\n" + half.canon()); x.outcome(got); }
  fakedb::gUseReal = false; gRealThreads = false; rm(a); rm(b);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C13"; c.level = "fault_enumeration";
  c.rule = "Every sequence of effective journal operations up to depth 3, 4 under the default policy (thorough 5) from a fresh and from a grown journal under each fsync policy; for each, a crash after every storage write with every surviving prefix of the writes that is not older than the last synced one; the reopened journal must equal the state after some prefix of the operations containing every one the policy promises. Histories of 40 operations on real RocksDB with its files copied midway.";
  c.assumptions = {"RocksDB recovers a prefix of its write log containing every synced write, batches atomically", "the commit index may fall back after a crash (it is recomputed by the protocol)"};
  for(int p = 0; p < 3; p++) for(int prelude = 0; prelude < 2; prelude++)
    c.spaces.push_back({std::string(prelude ? "grown-" : "fresh-") + pol(policyOf(p)), [p, prelude](mc::Ctx &x) { crashes(x, legal(), x.tier(p == 2 ? 4 : 3, p == 1 ? 4 : 5), prelude, policyOf(p)); }});
  c.spaces.push_back({"real-rocksdb", conformance, false, 120});
  return mc::main(argc, argv, c);
}
