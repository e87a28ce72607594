//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
#include "storage/KeyConstants.hh"
#include <sys/stat.h>
#include <dirent.h>
#include <rocksdb/db.h>
using kv::Cmd;
extern bool gRealThreads;
static const std::vector<std::vector<Cmd>> kLoads = {
  {{"SET", "s", "1"}}, {{"SET", "s", "22"}}, {{"SET", "s#", "3"}}, {{"HSET", "h", "f", "1"}}, {{"HSET", "h", "f", "2"}}, {{"HSET", "h", "g", "1"}}, {{"HMSET", "h#", "a", "1", "b", "2", "#c", "3"}}, {{"HSET", "h##", "f", "1"}}, {{"HSET", "hh", "#f", "1"}},
  {{"SADD", "t", "a", "b", "a"}}, {{"SADD", "t", "c"}}, {{"SADD", "t0", "a"}}, {{"SET", "_x", "v"}}, {{"SET", "~x", "v"}}, {{"HSET", "!", "f", "v"}}, {{"SADD", "@", "m"}},
  {{"HSET", "p", "f", "1"}, {"SADD", "q", "m"}, {"SET", "r", "x"}}, {{"HSET", "h", "k", "1"}, {"HSET", "h", "k", "2"}}, {{"CONFIG-SET", "a", "b"}}};
static void apply(kv::World &w, const std::vector<Cmd> &l, bool batch) { if(l.size() > 1 || batch) w.tx(l, true); else w.exec(l[0]); }
static void compare(mc::Ctx &x, const fakedb::Map &got, const fakedb::Map &want, const char *sig) {
  for(auto &e : want) { auto it = got.find(e.first); x.check(it != got.end(), sig, std::string("bulkload lost ") + mc::quote(e.first)); x.check(it->second == e.second, sig, "bulkload stored " + mc::quote(e.first) + " = " + mc::quote(it->second) + ", ordinary writes " + mc::quote(e.second)); }
  for(auto &e : got) x.check(want.count(e.first), sig, "bulkload left behind " + mc::quote(e.first));
}
static const std::vector<Cmd> kReads = {{"KEYS", "*"}, {"GET", "s"}, {"HGETALL", "h"}, {"HLEN", "h"}, {"SMEMBERS", "t"}, {"SCARD", "t"}, {"TYPE", "h#"}, {"HGETALL", "h#"}, {"TYPE", "t"}, {"EXISTS", "s", "s#"}, {"HDEL", "h", "f"}, {"HLEN", "h"}, {"SREM", "t", "a", "c"}, {"SCARD", "t"}, {"DEL", "h", "t", "h#", "s"}, {"KEYS", "*"}, {"HSET", "t", "now", "hash"}};
static void loads(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World ord("ord"); model::Store m; int depth = x.tier(3, 5); x.nontrivial();
  { kv::World bulk("bulk", true); int n = (int)kLoads.size();
    for(int d = 0; d < depth; d++) {
      int i = x.choose(n + 1, "load"); if(i == n) break; bool batch = x.thorough() && x.choose(2, "batched"); x.transition();
      for(auto &c : kLoads[i]) x.log("  ", kv::show(c)); apply(bulk, kLoads[i], batch); apply(ord, kLoads[i], batch); for(auto &c : kLoads[i]) { m.beginTx(); m.exec(c); }
    }
    int end = x.choose(3, "end");
    if(end == 2) { x.log("  not finalised"); bulk.close(); bool refused = false; try { bulk.open(); } catch(std::exception &) { refused = true; } x.check(refused, "unfinalised", "a store whose bulkload was not finalised opens normally"); x.outcome("refused"); return; }
    bulk.sm->finalizeBulkload();
  }
  { quarkdb::StateMachine *p = nullptr; bool refused = false; try { p = new quarkdb::StateMachine(mc::scratch() + "/bulk", false, true); } catch(std::exception &) { refused = true; } delete p; x.check(refused, "bulkload-twice", "bulkload into an existing store was accepted"); }
  kv::World w("bulk"); compare(x, w.contents(), ord.contents(), "contents");
  x.outcome(w.canon()); x.visited(w.canon());
  for(auto &c : kReads) kv::step(x, w, m, c, "read");
}
// Crash at any point of loading and finalising: the store either refuses to open or is complete.
static void crash(mc::Ctx &x) {
  fakedb::wipeAll(); kv::World ord("ord"); std::string path; size_t final; std::vector<fakedb::Record> log; std::vector<size_t> flushes; bool wal = x.choose(2, "wal");
  { kv::World bulk("bulkx", true); bulk.close(); fakedb::wipeAll(); }
  kv::World ord2("ord"); path = mc::scratch() + "/bulk";
  { quarkdb::Publisher pub; quarkdb::StateMachine sm(path, wal, true); quarkdb::RedisDispatcher disp(sm, pub);
    int depth = x.tier(2, 3); for(int d = 0; d < depth; d++) { int i = x.choose((int)kLoads.size(), "load"); x.transition(); for(auto &c : kLoads[i]) { auto r = kv::req(c), r2 = kv::req(c); disp.dispatch(r, 0); ord2.disp->dispatch(r2, 0); x.log("  ", kv::show(c)); } }
    sm.finalizeBulkload(); log = fakedb::store(path).log; flushes = fakedb::store(path).flushes; final = log.size(); }
  fakedb::Map want = ord2.contents(); x.nontrivial();
  for(size_t t = 1; t <= final; t++) {
    size_t mark = 0; for(size_t f : flushes) if(f <= t) mark = std::max(mark, f);
    // flushes happen in the background too; of what is only in the write-ahead log any prefix survives
    for(size_t f = mark; f <= t; f++) for(size_t k = f; k <= t; k++) {
      fakedb::Map m; for(size_t i = 0; i < k; i++) if(i < f || log[i].wal) for(auto &o : log[i].ops) { if(o.value) m[o.key] = *o.value; else m.erase(o.key); }
      bool nothingLoaded = true; for(auto &e : m) if(e.first.compare(0, 2, "__") != 0) nothingLoaded = false;
      fakedb::put(path, m); bool opened = true; try { quarkdb::StateMachine sm(path, true, false); } catch(std::exception &) { opened = false; } x.transition();
      bool announced = m.count(quarkdb::KeyConstants::kStateMachine_InBulkload);
      if(!opened || (nothingLoaded && !announced)) { x.outcome("refused"); continue; }
      x.log("  crash after write ", t, ", tables hold ", f, ", log up to ", k); x.outcome("opened");
      compare(x, fakedb::contents(path), want, "crash");
    }
  }
}
static void copyDir(const std::string &a, const std::string &b) {
  mkdir(b.c_str(), 0755); DIR *d = opendir(a.c_str()); while(dirent *e = readdir(d)) { std::string n = e->d_name; if(n == "." || n == ".." || n == "LOCK") continue;
    FILE *i = fopen((a + "/" + n).c_str(), "r"), *o = fopen((b + "/" + n).c_str(), "w"); char buf[65536]; size_t k; while((k = fread(buf, 1, sizeof buf, i)) > 0) fwrite(buf, 1, k, o); fclose(i); fclose(o); } closedir(d);
}
static fakedb::Map dump(const std::string &p) {
  rocksdb::DB *db = nullptr; auto st = rocksdb::DB::OpenForReadOnly(rocksdb::Options(), p, &db); if(!st.ok()) throw std::runtime_error(st.ToString());
  fakedb::Map m; { std::unique_ptr<rocksdb::Iterator> it(db->NewIterator(rocksdb::ReadOptions())); for(it->SeekToFirst(); it->Valid(); it->Next()) m[it->key().ToString()] = it->value().ToString(); } delete db; return m;
}
static void rm(const std::string &p) { DIR *d = opendir(p.c_str()); if(!d) return; while(dirent *e = readdir(d)) { std::string n = e->d_name; if(n != "." && n != "..") unlink((p + "/" + n).c_str()); } closedir(d); rmdir(p.c_str()); }
// The same on real RocksDB; the files are copied right after finalising, as a crash would leave them.
static void realdb(mc::Ctx &x) {
  fakedb::wipeAll(); fakedb::gUseReal = false; gRealThreads = false; int n = (int)kLoads.size(), s = x.choose(n, "start"), step = x.choose(x.tier(2, 8), "step") + 1; fakedb::Map want; std::vector<int> seq; for(int i = 0; i < 8; i++) seq.push_back((s + i * step) % n);
  { kv::World ord("ord"); for(int i : seq) apply(ord, kLoads[i], false); want = ord.contents(); } fakedb::wipeAll();
  quarkdb::Publisher pub; fakedb::gUseReal = true; gRealThreads = true; std::string a = mc::scratch() + "/real", b = mc::scratch() + "/copy"; rm(a); rm(b); fakedb::Map fin, cra; bool opens = true;
  { quarkdb::StateMachine sm(a, false, true); quarkdb::RedisDispatcher disp(sm, pub); for(int i : seq) for(auto &c : kLoads[i]) { auto r = kv::req(c); disp.dispatch(r, 0); } sm.finalizeBulkload(); copyDir(a, b); }
  try { quarkdb::StateMachine sm(b, true, false); } catch(std::exception &) { opens = false; }
  if(opens) cra = dump(b); fin = dump(a); fakedb::gUseReal = false; gRealThreads = false; rm(a); rm(b); x.transition(8); x.nontrivial(); x.outcome(fakedb::canon(fin));
  compare(x, fin, want, "real"); if(opens) compare(x, cra, want, "real-crash");
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C10";
  c.rule = "Every sequence of up to 3 (thorough 5) bulk writes over hashes, sets, strings and configuration with awkward neighbouring names, finalised or not, compared byte by byte with an ordinary store given the same writes; every crash point of loading and finalising (any background flush, any surviving prefix of the write-ahead log); the same loads on real RocksDB.";
  c.assumptions = {"each key is used with one type", "RocksDB tables hold a prefix of the writes, its log a prefix of those made with logging"};
  c.spaces.push_back({"loads", loads});
  c.spaces.push_back({"crash", crash});
  c.spaces.push_back({"real-rocksdb", realdb, false, 120});
  return mc::main(argc, argv, c);
}
