// Single-threaded executions: std::threads are never started.
#include <thread>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/types.h>
#include <unistd.h>
#include <functional>
#include <vector>
#include <memory>
#include "nothreads.hh"
bool gRealThreads = false;
static pthread_t kFake = (pthread_t)0x1;
struct StateBox { std::function<void()> run; };
static std::vector<StateBox> &states() { static std::vector<StateBox> v; return v; }
size_t nothreads::started() { return states().size(); }
extern "C" void nothreads_clear() { states().clear(); }
void nothreads::run(size_t i) { if(i < states().size()) states()[i].run(); }
namespace std {
void thread::_M_start_thread(_State_ptr state, void (*)()) {
  Dl_info where;       // RocksDB's own pool threads stay what they are
  bool rocks = dladdr(__builtin_return_address(0), &where) && where.dli_fname && strstr(where.dli_fname, "librocksdb");
  if(gRealThreads || rocks) {
    _State *raw = state.release();
    pthread_t t;
    pthread_create(&t, nullptr, [](void *p) -> void* { unique_ptr<thread::_State> s((thread::_State*)p); s->_M_run(); return nullptr; }, raw);
    _M_id = id(t); return;
  }
  std::shared_ptr<_State> keep(std::move(state)); states().push_back(StateBox{[keep]() { keep->_M_run(); }});
  _M_id = id(kFake);      // joinable, never runs
}
void thread::join() {
  pthread_t t; memcpy(&t, &_M_id, sizeof t);
  if(t != kFake) pthread_join(t, nullptr);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
}
extern "C" int pthread_setname_np(pthread_t t, const char *n) {
  if(t == kFake) return 0;
  static auto f = (int(*)(pthread_t, const char*))dlsym(RTLD_NEXT, "pthread_setname_np");
  return f ? f(t, n) : 0;
}
