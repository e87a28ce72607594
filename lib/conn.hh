// A client connection: the real Link / Connection / parser / writer, over bytes held in memory.
#ifndef CONN_HH
#define CONN_HH
#include "mc.hh"
#include "resp.hh"
#include "Connection.hh"
#include "Link.hh"
#include "utils/InFlightTracker.hh"
#include <memory>
#include <string>
class XrdLinkBase;
#include <Xrd/XrdLink.hh>
namespace conn {
struct Pipe : public XrdLink {
  std::string in, out, host = "client"; bool closed = false, broken = false; size_t sends = 0;
  int Recv(char *b, int n, int) override { if(broken) return -1; int k = (int)std::min<size_t>(n, in.size()); memcpy(b, in.data(), k); in.erase(0, k); return k; }
  int Send(const char *b, int n) override { if(broken || closed) return -1; out.append(b, n); sends++; return n; }
  int Close(int) override { closed = true; return 0; }
  const char *Host() const override { return host.c_str(); }
};
struct Client {
  Pipe pipe; std::unique_ptr<quarkdb::Link> link; std::unique_ptr<quarkdb::Connection> c; quarkdb::InFlightTracker tracker;
  size_t seen = 0;      // bytes of pipe.out already parsed
  Client(const std::string &host = "client", bool authorised = true) {
    pipe.host = host; link.reset(new quarkdb::Link((XrdLink*)&pipe)); c.reset(new quarkdb::Connection(link.get())); c->authorization = authorised;
  }
  ~Client() { drop(); }
  void drop() { c.reset(); link.reset(); }
  // bytes arrive and are processed, as the server does when the socket becomes readable
  int feed(quarkdb::Dispatcher *d, const std::string &bytes) { pipe.in += bytes; return c->processRequests(d, tracker); }
  // complete replies received since the last call
  std::vector<resp::Value> take(bool *bad = nullptr) {
    std::vector<resp::Value> v; std::string_view s(pipe.out);
    while(seen < s.size()) { resp::Value x; size_t pos = seen; int r = resp::parse(s, pos, x); if(r != 1) { if(bad) *bad = true; break; } seen = pos; v.push_back(std::move(x)); }
    return v;
  }
};
}
#endif
