#include "fakedb.hh"
#include <rocksdb/db.h>
#include <rocksdb/comparator.h>
#include <rocksdb/write_batch.h>
#include <rocksdb/utilities/write_batch_with_index.h>
#include <rocksdb/utilities/stackable_db.h>
#include <rocksdb/utilities/checkpoint.h>
#include <rocksdb/utilities/debug.h>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>

using namespace rocksdb;
namespace fakedb {

bool gUseReal = false, gKeepLog = true;
std::function<void(const std::string&, const Record&)> gOnWrite;
static std::map<std::string, std::unique_ptr<Store>> &stores() { static auto *s = new std::map<std::string, std::unique_ptr<Store>>(); return *s; }
static std::string norm(std::string p) { while(p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
static inline void point(const char *w) { if(vs_point) vs_point(w); }
extern "C" void vs_quiet(int) __attribute__((weak));
// what happens inside the store is one step and not subject to race detection
struct Inside { Inside(const char *w = nullptr) { if(w) point(w); if(vs_quiet) vs_quiet(1); } ~Inside() { if(vs_quiet) vs_quiet(-1); } };

Store &store(const std::string &p) { Inside op; auto &s = stores()[norm(p)]; if(!s) s.reset(new Store()); return *s; }
bool exists(const std::string &p) { return stores().count(norm(p)); }
extern "C" void nothreads_clear() __attribute__((weak));
void wipeAll() { if(nothreads_clear) nothreads_clear(); for(auto &s : stores()) rmdir(s.first.c_str()); stores().clear(); }
void put(const std::string &p, const Map &m) {
  Store &s = store(p); mkdir(norm(p).c_str(), 0755);
  s.data = std::make_shared<Map>(m); s.base = std::make_shared<Map>(m); s.log.clear(); s.synced = 0; s.open = false; s.writes.clear(); s.flushes.clear();
}
Map contents(const std::string &p) { return *store(p).data; }
static void applyRec(Map &m, const Record &r) { for(auto &o : r.ops) { if(o.value) m[o.key] = *o.value; else m.erase(o.key); } }
Map at(const std::string &p, size_t n) { Store &s = store(p); Map m = *s.base; for(size_t i = 0; i < n && i < s.log.size(); i++) applyRec(m, s.log[i]); return m; }
std::string canon(const Map &m) {
  std::string o; for(auto &kv : m) { uint32_t a = kv.first.size(), b = kv.second.size(); o.append((char*)&a, 4); o += kv.first; o.append((char*)&b, 4); o += kv.second; }
  return o;
}

class FakeSnapshot : public Snapshot {
public:
  std::shared_ptr<Map> data; uint64_t seq;
  FakeSnapshot(std::shared_ptr<Map> d, uint64_t s) : data(d), seq(s) {}
  ~FakeSnapshot() {}
  SequenceNumber GetSequenceNumber() const override { return seq; }
  int64_t GetUnixTime() const override { return 0; }
  uint64_t GetTimestamp() const override { return 0; }
};

class FakeCF : public ColumnFamilyHandle {
public:
  std::string name = "default";
  const std::string& GetName() const override { return name; }
  uint32_t GetID() const override { return 0; }
  Status GetDescriptor(ColumnFamilyDescriptor*) override { return Status::NotSupported(); }
  const Comparator* GetComparator() const override { return BytewiseComparator(); }
};

class FakeIterator : public Iterator {
public:
  std::shared_ptr<Map> data; Map::iterator it; std::string lower, upper; bool hasLower = false, hasUpper = false;
  FakeIterator(std::shared_ptr<Map> d, const ReadOptions &o) : data(d), it(d->end()) {
    if(o.iterate_lower_bound) { hasLower = true; lower = o.iterate_lower_bound->ToString(); }
    if(o.iterate_upper_bound) { hasUpper = true; upper = o.iterate_upper_bound->ToString(); }
  }
  bool Valid() const override { Inside op; return it != data->end() && !(hasUpper && it->first >= upper) && !(hasLower && it->first < lower); }
  void SeekToFirst() override { Inside op("db.iter"); it = hasLower ? data->lower_bound(lower) : data->begin(); }
  void SeekToLast() override { Inside op("db.iter"); it = hasUpper ? data->lower_bound(upper) : data->end(); prev(); }
  void prev() { if(it == data->begin()) it = data->end(); else --it; }
  void Seek(const Slice &k) override { Inside op("db.iter"); std::string s = k.ToString(); if(hasLower && s < lower) s = lower; it = data->lower_bound(s); }
  void SeekForPrev(const Slice &k) override { Inside op("db.iter"); std::string s = k.ToString(); if(hasUpper && s >= upper) { it = data->lower_bound(upper); } else it = data->upper_bound(s); prev(); }
  void Next() override { Inside op; if(!Valid()) { fprintf(stderr, "fakedb: Next() on an invalid iterator\n"); abort(); } ++it; }
  void Prev() override { Inside op; if(!Valid()) { fprintf(stderr, "fakedb: Prev() on an invalid iterator\n"); abort(); } prev(); }
  Slice key() const override { Inside op; if(!Valid()) { fprintf(stderr, "fakedb: key() on an invalid iterator\n"); abort(); } return it->first; }
  Slice value() const override { Inside op; if(!Valid()) { fprintf(stderr, "fakedb: value() on an invalid iterator\n"); abort(); } return it->second; }
  Status status() const override { return Status::OK(); }
};

class FakeDB : public StackableDB {
public:
  std::string path; Store *st; mutable FakeCF cf;
  FakeDB(const std::string &p) : StackableDB((DB*)nullptr), path(p), st(&store(p)) { st->open = true; }
  ~FakeDB() override { Inside op; if(exists(path) && &store(path) == st) st->open = false; }
  Status Close() override { return Status::OK(); }
  DB* GetRootDB() override { return this; }
  ColumnFamilyHandle* DefaultColumnFamily() const override { return &cf; }
  const std::string& GetName() const override { return path; }
  void commit(Record &&r) {
    Inside op("db.write");
    if(gOnWrite) gOnWrite(path, r);
    // A single-delete only cancels the last of several writes of a key: older values would come back.
    for(auto &o : r.ops) {
      if(o.value) st->writes[o.key]++;
      else { auto w = st->writes.find(o.key); if(w != st->writes.end()) { if(o.single && w->second > 1) throw std::runtime_error("fakedb: SingleDelete of a key written more than once"); st->writes.erase(w); } }
    }
    if(st->data.use_count() > 1) st->data = std::make_shared<Map>(*st->data);
    applyRec(*st->data, r); st->seq += r.ops.size();
    if(gKeepLog) { bool sync = r.sync; st->log.push_back(std::move(r)); if(sync) st->synced = st->log.size(); }
  }
  using StackableDB::Put; using StackableDB::Get; using StackableDB::Delete;
  using StackableDB::Write; using StackableDB::NewIterator; using StackableDB::GetProperty;
  Status Put(const WriteOptions &o, ColumnFamilyHandle*, const Slice &k, const Slice &v) override {
    Record r; r.sync = o.sync; r.wal = !o.disableWAL; r.ops.push_back({k.ToString(), v.ToString()}); commit(std::move(r)); return Status::OK();
  }
  Status Delete(const WriteOptions &o, ColumnFamilyHandle*, const Slice &k) override {
    Record r; r.sync = o.sync; r.wal = !o.disableWAL; r.ops.push_back({k.ToString(), std::nullopt}); commit(std::move(r)); return Status::OK();
  }
  struct H : public WriteBatch::Handler {
    Record &r; std::map<std::string, int> dummy; H(Record &r_) : r(r_) {}
    Status PutCF(uint32_t, const Slice &k, const Slice &v) override { r.ops.push_back({k.ToString(), v.ToString()}); return Status::OK(); }
    Status DeleteCF(uint32_t, const Slice &k) override { r.ops.push_back({k.ToString(), std::nullopt}); return Status::OK(); }
    Status SingleDeleteCF(uint32_t, const Slice &k) override { r.ops.push_back({k.ToString(), std::nullopt, true}); return Status::OK(); }
    Status DeleteRangeCF(uint32_t, const Slice &, const Slice &) override { return Status::NotSupported("fakedb: DeleteRange"); }
    void LogData(const Slice &) override {}
  };
  Status Write(const WriteOptions &o, WriteBatch *b) override {
    if(o.sync && o.disableWAL) return Status::InvalidArgument("Sync writes has to enable WAL.");
    Record r; r.sync = o.sync; r.wal = !o.disableWAL; H h(r); Status s = b->Iterate(&h); if(!s.ok()) return s;
    commit(std::move(r)); return Status::OK();
  }
  std::shared_ptr<Map> view(const ReadOptions &o) { return o.snapshot ? static_cast<const FakeSnapshot*>(o.snapshot)->data : st->data; }
  Status Get(const ReadOptions &o, ColumnFamilyHandle*, const Slice &k, PinnableSlice *v) override {
    Inside op("db.get");
    auto d = view(o); auto it = d->find(k.ToString()); if(it == d->end()) return Status::NotFound();
    v->Reset(); v->PinSelf(it->second); return Status::OK();
  }
  Iterator* NewIterator(const ReadOptions &o, ColumnFamilyHandle*) override { Inside op("db.iter"); return new FakeIterator(view(o), o); }
  const Snapshot* GetSnapshot() override { Inside op("db.snapshot"); return new FakeSnapshot(st->data, st->seq); }
  void ReleaseSnapshot(const Snapshot *s) override { Inside op; delete static_cast<const FakeSnapshot*>(s); }
  bool GetProperty(ColumnFamilyHandle*, const Slice &, std::string *v) override { *v = ""; return true; }
  Status CompactRange(const CompactRangeOptions &, ColumnFamilyHandle*, const Slice*, const Slice*) override { st->synced = st->log.size(); st->flushes.push_back(st->log.size()); return Status::OK(); }
  Status Flush(const FlushOptions &, ColumnFamilyHandle*) override { Inside op("db.flush"); st->synced = st->log.size(); st->flushes.push_back(st->log.size()); return Status::OK(); }
  Status SyncWAL() override { Inside op("db.sync"); st->synced = st->log.size(); return Status::OK(); }
  Status FlushWAL(bool sync) override { Inside op("db.sync"); if(sync) st->synced = st->log.size(); return Status::OK(); }
  Status SetOptions(ColumnFamilyHandle*, const std::unordered_map<std::string, std::string>&) override { return Status::OK(); }
  Status SetDBOptions(const std::unordered_map<std::string, std::string>&) override { return Status::OK(); }
  Status VerifyChecksum() override { return Status::OK(); }
  Status VerifyChecksum(const ReadOptions&) override { return Status::OK(); }
  SequenceNumber GetLatestSequenceNumber() const override { return st->seq; }
  Env* GetEnv() const override { return Env::Default(); }
  Options GetOptions(ColumnFamilyHandle*) const override { return Options(); }
  DBOptions GetDBOptions() const override { return DBOptions(); }
};

class FakeCheckpoint : public Checkpoint {
public:
  FakeDB *db; FakeCheckpoint(FakeDB *d) : db(d) {}
  Status CreateCheckpoint(const std::string &dir, uint64_t, uint64_t*) override {
    struct stat s; if(stat(dir.c_str(), &s) == 0) return Status::InvalidArgument("Directory exists");
    if(mkdir(dir.c_str(), 0755) != 0) return Status::IOError("mkdir");
    put(dir, *db->st->data); return Status::OK();
  }
};

static void *real(const char *sym) { void *p = dlsym(RTLD_NEXT, sym); if(!p) { fprintf(stderr, "fakedb: no %s\n", sym); abort(); } return p; }
}

namespace rocksdb {
// interposes the library's symbol
Status DB::Open(const Options &o, const std::string &name, DB **out) {
  if(fakedb::gUseReal) {
    using F = Status(*)(const Options&, const std::string&, DB**);
    static F f = (F)fakedb::real("_ZN7rocksdb2DB4OpenERKNS_7OptionsERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPPS0_");
    return f(o, name, out);
  }
  std::string n = fakedb::norm(name);
  if(!fakedb::exists(n)) {
    if(!o.create_if_missing) return Status::InvalidArgument(n + "/CURRENT: does not exist (create_if_missing is false)");
    mkdir(n.c_str(), 0755);
  }
  else if(o.error_if_exists) return Status::InvalidArgument(n + ": exists (error_if_exists is true)");
  if(fakedb::store(n).open) return Status::IOError("lock hold by current process: " + n + "/LOCK: No locks available");
  *out = new fakedb::FakeDB(n);
  return Status::OK();
}
// The library's version looks past the wrapper for its own implementation class.
static Status batchThenDb(WriteBatchWithIndex *wb, DB *db, const ReadOptions &o, const Slice &k, PinnableSlice *v) {
  struct Last : public WriteBatch::Handler {
    std::string k; int found = 0; std::string v; Last(const Slice &s) : k(s.ToString()) {}
    Status PutCF(uint32_t, const Slice &a, const Slice &b) override { if(a == k) { found = 1; v = b.ToString(); } return Status::OK(); }
    Status DeleteCF(uint32_t, const Slice &a) override { if(a == k) found = 2; return Status::OK(); }
    Status SingleDeleteCF(uint32_t, const Slice &a) override { if(a == k) found = 2; return Status::OK(); }
    void LogData(const Slice &) override {}
  } h(k);
  Status s = wb->GetWriteBatch()->Iterate(&h); if(!s.ok()) return s;
  if(h.found == 1) { v->Reset(); v->PinSelf(h.v); return Status::OK(); }
  if(h.found == 2) return Status::NotFound();
  return db->Get(o, db->DefaultColumnFamily(), k, v);
}
Status WriteBatchWithIndex::GetFromBatchAndDB(DB *db, const ReadOptions &o, const Slice &k, std::string *v) {
  if(!dynamic_cast<fakedb::FakeDB*>(db)) {
    using F = Status(*)(WriteBatchWithIndex*, DB*, const ReadOptions&, const Slice&, std::string*);
    static F r = (F)fakedb::real("_ZN7rocksdb19WriteBatchWithIndex17GetFromBatchAndDBEPNS_2DBERKNS_11ReadOptionsERKNS_5SliceEPNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
    return r(this, db, o, k, v);
  }
  PinnableSlice p; Status s = batchThenDb(this, db, o, k, &p); if(s.ok()) v->assign(p.data(), p.size()); return s;
}
Status WriteBatchWithIndex::GetFromBatchAndDB(DB *db, const ReadOptions &o, const Slice &k, PinnableSlice *v) {
  if(!dynamic_cast<fakedb::FakeDB*>(db)) {
    using F = Status(*)(WriteBatchWithIndex*, DB*, const ReadOptions&, const Slice&, PinnableSlice*);
    static F r = (F)fakedb::real("_ZN7rocksdb19WriteBatchWithIndex17GetFromBatchAndDBEPNS_2DBERKNS_11ReadOptionsERKNS_5SliceEPNS_13PinnableSliceE");
    return r(this, db, o, k, v);
  }
  return batchThenDb(this, db, o, k, v);
}
Status Checkpoint::Create(DB *db, Checkpoint **out) {
  auto *f = dynamic_cast<fakedb::FakeDB*>(db);
  if(!f) {
    using F = Status(*)(DB*, Checkpoint**);
    static F r = (F)fakedb::real("_ZN7rocksdb10Checkpoint6CreateEPNS_2DBEPPS0_");
    return r(db, out);
  }
  *out = new fakedb::FakeCheckpoint(f); return Status::OK();
}
Status GetAllKeyVersions(DB *db, Slice b, Slice e, size_t n, std::vector<KeyVersion> *out) {
  if(!dynamic_cast<fakedb::FakeDB*>(db)) {
    using F = Status(*)(DB*, Slice, Slice, size_t, std::vector<KeyVersion>*);
    static F r = (F)fakedb::real("_ZN7rocksdb17GetAllKeyVersionsEPNS_2DBENS_5SliceES2_mPSt6vectorINS_10KeyVersionESaIS4_EE");
    return r(db, b, e, n, out);
  }
  out->clear(); return Status::OK();
}
}
