// In-memory rocksdb::DB, interposed at rocksdb::DB::Open.  Records every write batch.
#ifndef FAKEDB_HH
#define FAKEDB_HH
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace fakedb {

using Map = std::map<std::string, std::string>;
struct Op { std::string key; std::optional<std::string> value; bool single = false; };
struct Record { std::vector<Op> ops; bool sync = false; bool wal = true; };

struct Store {
  std::shared_ptr<Map> data = std::make_shared<Map>();
  std::vector<Record> log;        // everything written since creation / last load()
  std::shared_ptr<Map> base = std::make_shared<Map>();   // contents before log[0]
  size_t synced = 0;              // log[0..synced) is known durable
  std::vector<size_t> flushes;    // positions of the log at which everything was flushed to tables
  bool open = false;
  uint64_t seq = 0;
  std::map<std::string, int> writes;                     // writes of a key since it was last deleted
};

extern bool gUseReal;             // open real RocksDB instead
extern bool gKeepLog;
Store &store(const std::string &path);
bool exists(const std::string &path);
void wipeAll();                   // forget every store (and remove their directories)
void put(const std::string &path, const Map &m);    // set the contents of a store, create its directory
Map contents(const std::string &path);
// contents after the first n records of the log
Map at(const std::string &path, size_t n);
std::string canon(const Map &m);
// Called for every write, before it takes effect (path, record). May throw.
extern std::function<void(const std::string&, const Record&)> gOnWrite;
}
extern "C" void vs_point(const char *what) __attribute__((weak));
#endif
