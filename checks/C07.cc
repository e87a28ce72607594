//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
#include "storage/KeyConstants.hh"
#include <sys/stat.h>
#include <dirent.h>
#include <rocksdb/db.h>
using kv::Cmd; using quarkdb::LogIndex;
extern bool gRealThreads;
struct Entry { std::vector<Cmd> cmds; bool tx; };     // one log entry
static std::string show(const Entry &e) { std::string s = e.tx ? "TX[" : ""; for(size_t i = 0; i < e.cmds.size(); i++) s += (i ? "; " : "") + kv::show(e.cmds[i]); return s + (e.tx ? "]" : ""); }
static std::vector<Entry> log1() {
  std::vector<Entry> v;
  for(Cmd c : std::vector<Cmd>{{"SET", "s", "1"}, {"HSET", "k", "f", "1"}, {"HDEL", "k", "f"}, {"SADD", "k", "a", "b"}, {"DEL", "k"}, {"DEQUE-PUSH-BACK", "d", "x"}, {"DEQUE-POP-FRONT", "d"}, {"HINCRBY", "k", "n", "1"}, {"FLUSHALL"},
      {"LHSET", "l", "f", "h", "1"}, {"LHDEL", "l", "f"}, {"VHSET", "v", "f", "1"}, {"CONFIG-SET", "c", "1"}, {"JOURNAL_LEADERSHIP_MARKER", "5", "srv"}, {"SET", "wrong-args"}, {"HINCRBY", "k", "f", "nan"}}) v.push_back({{c}, false});
  v.push_back({{{"TIMESTAMPED_LEASE_ACQUIRE", "a", "x", "10", kv::ts(5)}}, false}); v.push_back({{{"TIMESTAMPED_LEASE_GET", "a", kv::ts(15)}}, false});
  v.push_back({{{"SET", "s", "2"}, {"HSET", "k", "g", "2"}, {"GET", "s"}}, true}); v.push_back({{{"DEL", "k"}, {"SADD", "k", "z"}}, true}); v.push_back({{{"VHSET", "v", "f", "2"}, {"VHDEL", "v", "f"}, {"VHSET", "v", "g", "3"}}, true});
  v.push_back({{{"SET", "k"}, {"HDEL", "nokey", "f"}}, true});
  return v;
}
static const std::vector<Entry> kLog = log1();
static void apply(kv::World &w, const Entry &e, LogIndex i) { if(e.tx) { quarkdb::Transaction t; for(auto &c : e.cmds) t.push_back(kv::req(c)); quarkdb::RedisRequest r = t.toRedisRequest(); w.disp->dispatch(r, i); } else w.exec(e.cmds[0], i); }
static void reads(kv::World &w) { for(Cmd c : std::vector<Cmd>{{"GET", "s"}, {"HGETALL", "k"}, {"KEYS", "*"}, {"LEASE_GET_PENDING_EXPIRATION_EVENTS"}, {"VHGETALL", "v"}, {"SCAN", "0"}}) w.exec(c); }
static uint64_t plainRun(const std::vector<int> &seq, fakedb::Map &out) {
  kv::World w("ref"); LogIndex i = 0; for(int e : seq) apply(w, kLog[e], ++i); out = w.contents(); return w.sm->getLastApplied();
}
static void go(mc::Ctx &x) {
  fakedb::wipeAll(); fakedb::gKeepLog = true; bool wal = x.choose(2, "nowal") == 0; (void)wal;
  std::vector<int> seq; std::vector<size_t> recordsAfter; int depth = x.tier(3, 4); fakedb::Map ref, crashed; std::string path; size_t total, opened; LogIndex durable = 0;
  {
    kv::World w("sm"); path = w.path; opened = fakedb::store(path).log.size(); recordsAfter.push_back(opened);
    if(!wal) { w.close(); w.sm.reset(new quarkdb::StateMachine(path, false)); w.disp.reset(new quarkdb::RedisDispatcher(*w.sm, *w.pub)); opened = fakedb::store(path).log.size(); recordsAfter[0] = opened; }
    bool walBroken = false, noIndex = false; bool expectWrite = false, disrupted = false;
    fakedb::gOnWrite = [&](const std::string &p, const fakedb::Record &r) {
      if(p != path || !expectWrite) return; if(r.wal != wal) walBroken = true;
      bool la = false; for(auto &o : r.ops) if(o.key == quarkdb::KeyConstants::kStateMachine_LastApplied) la = true; if(!la) noIndex = true; };
    for(int d = 0; d < depth; d++) {
      int between = disrupted && !x.thorough() ? 0 : x.choose(4, "between"); disrupted |= between != 0;
      if(between == 1) { x.log("  reopen"); w.close(); w.sm.reset(new quarkdb::StateMachine(path, wal)); w.disp.reset(new quarkdb::RedisDispatcher(*w.sm, *w.pub)); }
      else if(between == 2) { x.log("  reads"); auto before = w.canon(); reads(w); x.check(w.canon() == before, "read-changed", "reads changed the contents"); }
      else if(between == 3) {     // out of order: repeat, gap, none
        LogIndex la = w.sm->getLastApplied();
        for(LogIndex bad : {la, la + 2, la - 1, la + 100, (LogIndex)0, (LogIndex)-1}) {
          if(bad == la + 1 || (bad == 0 && la == 0)) continue; if(bad <= 0 && la == 0) continue;
          auto before = w.canon(); bool refused = false;
          for(size_t i : {size_t(0), size_t(13), size_t(18)}) {
            if(kLog[i].cmds[0][0][0] == 'J' && bad <= 0) continue;
            try { apply(w, kLog[i], bad); } catch(std::exception &) { refused = true; }
            x.check(refused && w.canon() == before && w.sm->getLastApplied() == la, "wrong-index", show(kLog[i]) + " accepted as entry " + std::to_string(bad) + " after " + std::to_string(la)); refused = false;
          }
        }
      }
      int e = x.choose((int)kLog.size(), "entry"); LogIndex i = (LogIndex)seq.size() + 1; expectWrite = true; x.log("  apply ", i, ": ", show(kLog[e]));
      size_t n0 = fakedb::store(path).log.size(); apply(w, kLog[e], i); seq.push_back(e); expectWrite = false; x.transition();
      x.check(fakedb::store(path).log.size() == n0 + 1, "not-atomic", show(kLog[e]) + " made " + std::to_string(fakedb::store(path).log.size() - n0) + " storage writes");
      x.check(!noIndex, "index-apart", show(kLog[e]) + " was stored without its index"); x.check(!walBroken, "wal", "write-ahead log flag not as configured");
      x.check(w.sm->getLastApplied() == i, "last-applied", "last applied " + std::to_string(w.sm->getLastApplied()) + " after entry " + std::to_string(i));
      recordsAfter.push_back(fakedb::store(path).log.size());
    }
    fakedb::gOnWrite = nullptr; total = fakedb::store(path).log.size();
    plainRun(seq, ref);
    x.check(fakedb::canon(ref) == w.canon(), "not-deterministic", "the same log gave different storage:\n" + mc::quote(fakedb::canon(ref)) + "\n" + mc::quote(w.canon()));
    x.outcome(w.canon()); x.nontrivial();
  }
  // a crash keeps any prefix of the storage writes made since the store was opened
  for(size_t k = opened; k <= total; k++) {
    auto log = fakedb::at(path, k); fakedb::put(mc::scratch() + "/cr", log);
    kv::World w("cr"); LogIndex la = w.sm->getLastApplied(); LogIndex upto = 0; while((size_t)upto + 1 < recordsAfter.size() && recordsAfter[upto + 1] <= k) upto++;
    x.check(la == upto, "crash-index", "after a crash the store claims entry " + std::to_string(la) + ", it holds up to " + std::to_string(upto));

    for(size_t i = la; i < seq.size(); i++) apply(w, kLog[seq[i]], i + 1);
    x.check(w.canon() == fakedb::canon(ref), "crash-recovery", "crash after " + std::to_string(k) + " writes and re-application from " + std::to_string(la + 1) + " gives different contents"); x.transition();
  }
}
// ---- the in-memory store against real RocksDB, same histories, with a crash (copy of the files) in the middle
static void copyDir(const std::string &a, const std::string &b) {
  mkdir(b.c_str(), 0755); DIR *d = opendir(a.c_str()); while(dirent *e = readdir(d)) { std::string n = e->d_name; if(n == "." || n == ".." || n == "LOCK") continue;
    FILE *i = fopen((a + "/" + n).c_str(), "r"), *o = fopen((b + "/" + n).c_str(), "w"); char buf[65536]; size_t k; while((k = fread(buf, 1, sizeof buf, i)) > 0) fwrite(buf, 1, k, o); fclose(i); fclose(o); } closedir(d);
}
static fakedb::Map dump(const std::string &p) {
  rocksdb::DB *db = nullptr; auto st = rocksdb::DB::OpenForReadOnly(rocksdb::Options(), p, &db); if(!st.ok()) throw std::runtime_error(st.ToString());
  fakedb::Map m; { std::unique_ptr<rocksdb::Iterator> it(db->NewIterator(rocksdb::ReadOptions())); for(it->SeekToFirst(); it->Valid(); it->Next()) m[it->key().ToString()] = it->value().ToString(); } delete db; return m;
}
static void rm(const std::string &p) { DIR *d = opendir(p.c_str()); if(!d) return; while(dirent *e = readdir(d)) { std::string n = e->d_name; if(n != "." && n != "..") unlink((p + "/" + n).c_str()); } closedir(d); rmdir(p.c_str()); }
static void conformance(mc::Ctx &x) {
  fakedb::wipeAll(); fakedb::gUseReal = false; gRealThreads = false;
  int n = (int)kLog.size(), step = x.choose(n, "step"), first = x.choose(x.tier(3, n), "first"); std::vector<int> seq; for(int i = 0; i < x.tier(24, 60); i++) seq.push_back((first * 7 + i * (step + 1)) % n);
  fakedb::Map half, full; plainRun(std::vector<int>(seq.begin(), seq.begin() + seq.size() / 2), half); fakedb::wipeAll(); plainRun(seq, full); fakedb::wipeAll();
  fakedb::gUseReal = true; gRealThreads = true;
  std::string a = mc::scratch() + "/real", b = mc::scratch() + "/copy"; rm(a); rm(b);
  fakedb::Map h, f, again;
  { kv::World w("real"); LogIndex i = 0; for(size_t k = 0; k < seq.size(); k++) { if(k == seq.size() / 2) copyDir(a, b); apply(w, kLog[seq[k]], ++i); } }
  f = dump(a); h = dump(b);
  { kv::World w("copy"); for(size_t k = w.sm->getLastApplied(); k < seq.size(); k++) apply(w, kLog[seq[k]], k + 1); }
  again = dump(b); fakedb::gUseReal = false; gRealThreads = false; rm(a); rm(b); x.transition(seq.size()); x.nontrivial();
  x.check(f == full, "conformance", "RocksDB and the in-memory store differ after the same history"); x.check(h == half, "conformance-crash", "after a crash RocksDB and the in-memory store differ"); x.check(again == full, "real-recovery", "re-applying the log on RocksDB after a crash gives different contents"); x.outcome(fakedb::canon(f));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C07"; c.level = "fault_enumeration";
  c.rule = "Every log of up to 3 (thorough 4) entries over all kinds of entries, with reopening, reads or out-of-order entries before each, with and without write-ahead log, is applied by the real state machine; every prefix of the storage writes made is then taken as the state after a crash, reopened, and the rest of the log applied again. Histories are also replayed on real RocksDB, with the files copied half way as a crash, and its contents compared with those of the in-memory store.";
  c.assumptions = {"RocksDB writes a batch atomically and recovers a prefix of the batches written"};
  c.spaces.push_back({"crash-points", go});
  c.spaces.push_back({"conformance-with-rocksdb", conformance, false, 120});
  return mc::main(argc, argv, c);
}
