// Stand-in for the qclient submodule (absent from this checkout): just enough of its interface for
// /repo/src to compile.  Requests are handed to a hook owned by the harness.
#ifndef QCLIENT_SHIM_HH
#define QCLIENT_SHIM_HH
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>

#define REDIS_REPLY_STRING 1
#define REDIS_REPLY_ARRAY 2
#define REDIS_REPLY_INTEGER 3
#define REDIS_REPLY_NIL 4
#define REDIS_REPLY_STATUS 5
#define REDIS_REPLY_ERROR 6
#define REDIS_REPLY_PUSH 12

typedef struct redisReply {
  int type;
  long long integer;
  size_t len;
  char *str;
  size_t elements;
  struct redisReply **element;
} redisReply;

namespace qclient {

using ::redisReply;
using redisReplyPtr = std::shared_ptr<redisReply>;
inline std::string describeRedisReply(const redisReplyPtr &) { return "redis-reply"; }
inline std::string describeRedisReply(const redisReply *) { return "redis-reply"; }

struct RecvStatus {
  RecvStatus() : connectionAlive(false), errcode(0), bytesRead(0) {}
  RecvStatus(bool a, int e, int b) : connectionAlive(a), errcode(e), bytesRead(b) {}
  bool connectionAlive; int errcode; int bytesRead;
};
using LinkStatus = int;
using RecvFunction = std::function<RecvStatus(char *buff, int blen, int timeout)>;
using SendFunction = std::function<LinkStatus(const char *buff, int blen)>;
enum class FilterType { CLIENT, SERVER };
struct TlsConfig {
  TlsConfig() : active(false) {}
  bool active; std::string certificatePath, keyPath; std::string keyPassword;
};
// An invertible byte transformation in place of TLS: ciphertext never equals plaintext.
class TlsFilter {
public:
  TlsFilter(const TlsConfig &c, FilterType, RecvFunction r, SendFunction s) : config(c), rf(r), sf(s) {}
  LinkStatus send(const char *buff, int blen) {
    std::string enc(buff, blen); for(char &c : enc) c ^= 0x5a;
    return sf(enc.data(), blen);
  }
  RecvStatus recv(char *buff, int blen, int timeout) {
    RecvStatus st = rf(buff, blen, timeout);
    for(int i = 0; i < st.bytesRead; i++) buff[i] ^= 0x5a;
    return st;
  }
  LinkStatus close(int) { return 1; }
private:
  TlsConfig config; RecvFunction rf; SendFunction sf;
};

enum class LogLevel { kOff, kFatal, kError, kWarn, kInfo, kDebug, kTrace };
inline std::string logLevelToString(LogLevel) { return "level"; }
class Logger {
public:
  virtual ~Logger() {}
  virtual void print(LogLevel level, int line, const std::string &file, const std::string &msg) = 0;
protected:
  LogLevel logLevel = LogLevel::kWarn;
};

class Handshake {
public:
  enum class Status { INVALID, VALID_INCOMPLETE, VALID_COMPLETE };
  virtual ~Handshake() {}
  virtual std::vector<std::string> provideHandshake() = 0;
  virtual Status validateResponse(const redisReplyPtr &reply) = 0;
  virtual void restart() = 0;
  virtual std::unique_ptr<Handshake> clone() const = 0;
};
class SetClientNameHandshake : public Handshake {
public:
  SetClientNameHandshake(const std::string &n) : name(n) {}
  std::vector<std::string> provideHandshake() override { return {"CLIENT", "SETNAME", name}; }
  Status validateResponse(const redisReplyPtr &) override { return Status::VALID_COMPLETE; }
  void restart() override {}
  std::unique_ptr<Handshake> clone() const override { return std::unique_ptr<Handshake>(new SetClientNameHandshake(name)); }
private:
  std::string name;
};
struct RetryStrategy { static RetryStrategy NoRetries() { return {}; } };
struct BackpressureStrategy { static BackpressureStrategy Default() { return {}; } };
class Options {
public:
  bool transparentRedirects = false;
  RetryStrategy retryStrategy; BackpressureStrategy backpressureStrategy;
  std::shared_ptr<Logger> logger;
  TlsConfig tlsconfig;
  Options& chainHandshake(std::unique_ptr<Handshake> h) { handshakes.emplace_back(std::move(h)); return *this; }
  Options& chainHmacHandshake(const std::string &) { return *this; }
  std::vector<std::unique_ptr<Handshake>> handshakes;
};

// The harness decides what happens to a request sent to host:port.
using Transport = std::function<std::future<redisReplyPtr>(const std::string &host, int port, const std::vector<std::string> &req)>;
inline Transport &transport() { static Transport *t = new Transport(); return *t; }

class QClient {
public:
  QClient(const std::string &h, int p, Options &&o) : host(h), port(p), opts(std::move(o)) {}
  template<typename Container> std::future<redisReplyPtr> execute(const Container &c) {
    std::vector<std::string> req;
    for(size_t i = 0; i < c.size(); i++) req.emplace_back(std::string(c[i].data(), c[i].size()));
    return go(req);
  }
  template<typename... A> std::future<redisReplyPtr> exec(const A&... a) { return go(std::vector<std::string>{std::string(a)...}); }
private:
  std::future<redisReplyPtr> go(const std::vector<std::string> &req) {
    if(transport()) return transport()(host, port, req);
    std::promise<redisReplyPtr> p; p.set_value(nullptr); return p.get_future();
  }
  std::string host; int port; Options opts;
};

}
#endif
