// The real key-value engine (StateMachine + RedisDispatcher + Publisher) on the in-memory store.
#ifndef KV_HH
#define KV_HH
#include "mc.hh"
#include "fakedb.hh"
#include "resp.hh"
#include "StateMachine.hh"
#include "Dispatcher.hh"
#include "RedisRequest.hh"
#include "redis/Transaction.hh"
#include "pubsub/Publisher.hh"
#include "utils/IntToBinaryString.hh"
#include <memory>
#include "nothreads.hh"
#include <qclient/queueing/WaitableQueue.hh>
namespace kv {
using Cmd = std::vector<std::string>;
inline quarkdb::RedisRequest req(const Cmd &c) { quarkdb::RedisRequest r; for(auto &a : c) r.emplace_back(std::string(a)); return r; }
inline std::string show(const Cmd &c) { std::string s; for(auto &a : c) { if(!s.empty()) s += ' '; bool plain = !a.empty(); for(unsigned char ch : a) if(ch <= 32 || ch > 126) plain = false; s += plain ? a : mc::quote(a); } return s; }
inline std::string ts(uint64_t t) { std::string s(8, 0); for(int i = 7; i >= 0; i--) { s[i] = (char)(t & 0xff); t >>= 8; } return s; }
struct World {
  std::string path;
  std::unique_ptr<quarkdb::Publisher> pub;
  std::unique_ptr<quarkdb::StateMachine> sm;
  std::unique_ptr<quarkdb::RedisDispatcher> disp;
  size_t t0, t1;              // the publisher's threads
  World(const std::string &name = "sm", bool bulk = false) : path(mc::scratch() + "/" + name) { t0 = nothreads::started(); pub.reset(new quarkdb::Publisher()); t1 = nothreads::started(); open(bulk); }
  // let the publisher's background thread publish everything scheduled so far
  void pump() { qclient::gPump = true; for(size_t i = t0; i < t1; i++) { try { nothreads::run(i); } catch(qclient::Drained&) {} } qclient::gPump = false; }
  ~World() { close(); }
  void open(bool bulk = false) { sm.reset(new quarkdb::StateMachine(path, true, bulk)); disp.reset(new quarkdb::RedisDispatcher(*sm, *pub)); }
  void close() { disp.reset(); sm.reset(); }
  std::string exec(const Cmd &c, quarkdb::LogIndex index = 0) { quarkdb::RedisRequest r = req(c); return disp->dispatch(r, index).val; }
  std::string tx(const std::vector<Cmd> &cs, bool phantom = false, quarkdb::LogIndex index = 0) {
    quarkdb::Transaction t; for(auto &c : cs) t.push_back(req(c)); t.setPhantom(phantom);
    return disp->dispatch(t, index).val;
  }
  fakedb::Map contents() { return fakedb::contents(path); }
  std::string canon() { return fakedb::canon(fakedb::contents(path)); }
};
}
#endif
