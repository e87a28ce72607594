#include "StateMachine.hh"
#include "Dispatcher.hh"
#include "RedisRequest.hh"
#include "redis/Transaction.hh"
#include "pubsub/Publisher.hh"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <initializer_list>
#include <unistd.h>
using namespace quarkdb;
static RedisRequest mk(std::initializer_list<std::string> l) { RedisRequest r; for(auto &x : l) r.emplace_back(std::string(x)); return r; }
struct KV {
  Publisher pub; StateMachine sm; RedisDispatcher disp;
  KV(const std::string &p) : sm(p), disp(sm, pub) {}
  std::string operator()(std::initializer_list<std::string> l, LogIndex index = 0) { RedisRequest r = mk(l); return disp.dispatch(r, index).val; }
};
#define EXPECT(a, b) do { auto x = (a); decltype(x) y = (b); if(!(x == y)) { std::cerr << "FAILED line " << __LINE__ << ": got '" << x << "' instead of '" << y << "'" << std::endl; _exit(1); } } while(0)
