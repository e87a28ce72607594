//@ sources: *
//@ lib: fakedb nothreads
//@ flags: -fsanitize=address
#include "mc.hh"
#include "conn.hh"
#include "Dispatcher.hh"
#include "RedisParser.hh"
#include "redis/Transaction.hh"
#include <climits>
using namespace quarkdb;
typedef std::vector<std::string> Cmd;
static const size_t kBuf = 32 * 1024;
static std::string S(size_t n) { return std::to_string(n); }
static std::string show(const std::string &s) { return mc::quote(s.size() > 120 ? s.substr(0, 60) + "..(" + S(s.size()) + " bytes).." + s.substr(s.size() - 40) : s); }
static std::string show(const Cmd &c) { std::string o; for(auto &e : c) o += show(e) + " "; return o; }
// What a stream of bytes means, written from the protocol description.  Returns the requests it carries;
// state: 0 everything consumed, 1 incomplete, 2 malformed.  badFrom: number of leading bytes after which
// the stream can no longer be continued into something acceptable.
struct Meaning { std::vector<Cmd> reqs; int state = 0; size_t badFrom = SIZE_MAX; };
static int integer(const std::string &s, size_t &pos, char prefix, long &v, size_t &bad) {
  size_t nl = s.find('\n', pos), len = nl == std::string::npos ? s.size() - pos : nl - pos + 1;
  if(len > 32) { bad = pos + 33; return 2; }
  if(nl == std::string::npos) return 1;
  bad = nl + 1; std::string line = s.substr(pos, len);
  if(line[0] != prefix || line.size() < 4 || line[line.size() - 2] != '\r') return 2;
  unsigned long long n = 0; for(size_t i = 1; i + 2 < line.size(); i++) { if(line[i] < '0' || line[i] > '9') return 2; n = n * 10 + (line[i] - '0'); if(n > INT_MAX - 2) return 2; }
  v = (long)n; pos = nl + 1; bad = SIZE_MAX; return 0;
}
static Meaning meaning(const std::string &s, bool authorised) {
  Meaning m; size_t pos = 0;
  while(pos < s.size()) {
    long n; size_t bad = SIZE_MAX; int r = integer(s, pos, '*', n, bad);
    if(r) { m.state = r; m.badFrom = bad; return m; }
    if(n == 0 || (!authorised && n >= 5)) { m.state = 2; m.badFrom = pos; return m; }
    Cmd c; bool zero = false;
    for(long i = 0; i < n; i++) {
      long k; r = integer(s, pos, '$', k, bad); if(r) { m.state = r; m.badFrom = bad; return m; }
      if(!authorised && k >= 1048576) { m.state = 2; m.badFrom = pos; return m; }
      if(s.size() - pos < (size_t)k + 2) { m.state = 1; return m; }
      if(s[pos + k] != '\r' || s[pos + k + 1] != '\n') { m.state = 2; m.badFrom = pos + k + 2; return m; }
      if(k == 0) zero = true;
      c.push_back(s.substr(pos, k)); pos += k + 2;
    }
    if(zero) { m.state = 2; m.badFrom = pos; return m; }
    m.reqs.push_back(c);
  }
  return m;
}
// Feeds bytes in chunks to a parser, keeping every request parsed alive until the end.
struct Reader {
  conn::Pipe pipe; Link link; RedisParser parser; bool authorised; std::vector<std::unique_ptr<RedisRequest>> kept; RedisRequest cur; int status = 0; size_t fed = 0;
  Reader(bool a) : link((XrdLink*)&pipe), parser(&link), authorised(a) {}
  void feed(std::string_view b) {
    pipe.in.append(b); fed += b.size(); if(status < 0) return;
    while((status = parser.fetch(cur, authorised)) == 1) kept.emplace_back(new RedisRequest(cur));
  }
};
static void compare(mc::Ctx &x, Reader &r, const std::string &stream, const std::string &cuts) {
  Meaning m = meaning(stream, r.authorised);
  x.log("  ", show(stream), " arriving as ", cuts, ": ", r.kept.size(), " requests, status ", r.status);
  std::string where = show(stream) + " arriving as " + cuts;
  x.check(r.kept.size() == m.reqs.size(), "requests", where + ": parsed " + S(r.kept.size()) + " requests, expected " + S(m.reqs.size()));
  for(size_t i = 0; i < m.reqs.size(); i++) {
    RedisRequest &q = *r.kept[i]; Cmd got; for(auto &e : q) got.emplace_back(e.sv());
    x.check(got == m.reqs[i], "content", where + ": request " + S(i) + " is " + show(got) + ", expected " + show(m.reqs[i]));
    RedisRequest fresh; for(auto &e : got) fresh.push_back(e);
    x.check(fresh.getCommand() == q.getCommand() && fresh.getCommandType() == q.getCommandType(), "command", where + ": request " + S(i) + " is classified differently");
  }
  if(m.state == 2) { x.check(r.status < 0, "accepted", where + ": malformed input was not refused"); }
  else x.check(r.status == 0, "refused", where + ": well-formed input refused with " + S(-r.status));
  x.outcome(S(m.reqs.size()) + "/" + S(m.state)); if(!m.reqs.empty() || m.state == 2) x.nontrivial();
}
static std::string many(const std::vector<Cmd> &cs) { std::string s; for(auto &c : cs) s += resp::encode(c); return s; }
static std::vector<std::string> streams() {
  return {many({{"GET", "k"}}), many({{"PING"}, {"SET", "\r\n", std::string("\0x", 2)}}), many({{"set", "*1\r\n$4\r\n", "$"}, {"GET", "x"}}), many({{"A"}, {"B", "12345678901"}, {"C"}}), many({{"a", "b", "c", "d", "e", "f"}}), "*1\r\n$4\r\nPING\r\n*2\r\n$3\r\nGET\r\n", "*1\r\n$-1\r\n", "*-1\r\n", "*0\r\n", "*1\r\n$0\r\n\r\n", "*2\r\n$1\r\na\r\n$0\r\n\r\n*1\r\n$1\r\nb\r\n", "*1\r\n$3\r\nabcd\r\n", "PING\r\n", "*1\n$4\r\nPING\r\n", "*01\r\n$004\r\nPING\r\n", "*1\r\n$4 \r\nPING\r\n", "*1\r\n$ 4\r\nPING\r\n", "*1\r\n$+4\r\nPING\r\n", "*99999999999\r\n", "*00000000000000000000000000000001\r\n", std::string(40, '1'), std::string("*1\0\r\n", 5), "*1\r\n$4294967296\r\n\r\n", "*18446744073709551617\r\n"};
}
// every way to cut the stream in up to `cuts` places, and one byte at a time
static void fragments(mc::Ctx &x, int cuts) {
  static const auto all = streams(); int i = x.choose((int)all.size(), "stream"); const std::string &s = all[i]; bool auth = x.choose(2, "authorised") == 1;
  int n = x.choose(cuts + 2, "cuts"); Reader r(auth); std::string how;
  if(n == cuts + 1) { for(char c : s) r.feed(std::string_view(&c, 1)); how = "single bytes"; }
  else { size_t at = 0; for(int k = 0; k < n; k++) { if(at + 1 >= s.size()) return; size_t len = 1 + x.choose((int)(s.size() - at - 1), "cut"); r.feed(std::string_view(s).substr(at, len)); at += len; how += S(len) + "+"; x.transition(); } r.feed(std::string_view(s).substr(at)); how += S(s.size() - at); }
  compare(x, r, s, how);
}
// a request lying across the end of a read buffer at every offset
static void boundary(mc::Ctx &x) {
  static const std::vector<std::vector<Cmd>> tails = {{{"GET", "k"}, {"SET", "key", "value12345"}}, {{"a", "b"}, {"PING"}}};
  auto &t = tails[x.choose(2, "tail")]; std::string tail = many(t); int off = x.choose(64, "offset"); bool cut = x.choose(2, "cut"); int extra = x.choose(3, "buffers");
  // pad so that the buffer ends `off` bytes into the tail
  std::vector<Cmd> all; size_t target = kBuf * (extra + 1) - std::min<size_t>(off, kBuf); std::string pad;
  for(size_t k = target > 40 ? target - 40 : 0; k < target; k++) { pad = resp::encode({"SET", "p", std::string(k, 'x')}); if(pad.size() == target) { all.push_back({"SET", "p", std::string(k, 'x')}); break; } }
  if(all.empty()) return;
  for(auto &c : t) all.push_back(c); for(auto &c : t) all.push_back(c);
  std::string s = pad + tail + tail; Reader r(true);
  if(cut) { r.feed(std::string_view(s).substr(0, kBuf * (extra + 1))); r.feed(std::string_view(s).substr(kBuf * (extra + 1))); } else r.feed(s);
  x.transition(); compare(x, r, s, (cut ? "cut at the buffer end, " : "one piece, ") + S(off));
}
// elements of sizes around the buffer size, in chunks around it, several requests
static void large(mc::Ctx &x) {
  static const size_t sizes[] = {1, kBuf - 40, kBuf - 16, kBuf - 3, kBuf - 2, kBuf - 1, kBuf, kBuf + 1, 2 * kBuf - 2, 2 * kBuf, 3 * kBuf + 17};
  static const size_t chunks[] = {0, kBuf - 1, kBuf, kBuf + 1, 1000, 2 * kBuf, 40000};
  std::vector<Cmd> cs; std::string s; int n = 1 + x.choose(2, "requests");
  for(int i = 0; i < n; i++) { size_t a = sizes[x.choose(11, "size")], b = i ? 5 : sizes[x.choose(11, "size")]; std::string v(a, 0), w(b, 0); for(size_t k = 0; k < a; k++) v[k] = (char)(k * 31 + i); for(size_t k = 0; k < b; k++) w[k] = (char)(k * 17 + 3); cs.push_back({"SET", v, w}); }
  cs.push_back({"GET", "end"}); s = many(cs); size_t c = chunks[x.choose(7, "chunk")]; Reader r(true);
  if(!c) r.feed(s); else for(size_t at = 0; at < s.size(); at += c) { r.feed(std::string_view(s).substr(at, c)); x.transition(); }
  compare(x, r, s, "chunks of " + S(c));
}
// every single-byte substitution, deletion and insertion
static void corrupt(mc::Ctx &x) {
  static const std::vector<std::string> base = {many({{"PING"}, {"SET", "key", "v"}, {"GET", "12"}}), many({{"GET", "\r\n"}, {"AB", "C"}})};
  std::string s = base[x.choose(2, "stream")]; size_t at = x.choose((int)s.size(), "where"); int op = x.choose(3, "how");
  static const std::string ins = std::string("*$0123456789-+ \r\n\tax\0\xff", 22);
  if(op == 0) { unsigned char b = x.choose(256, "byte"); s[at] = (char)b; } else if(op == 1) s.erase(at, 1 + x.choose(3, "length")); else s.insert(at, 1, ins[x.choose((int)ins.size(), "byte")]);
  bool auth = x.choose(2, "authorised"); Reader r(auth); size_t cut = x.choose(2, "cut") ? at : 0;
  if(cut) r.feed(std::string_view(s).substr(0, cut)); r.feed(std::string_view(s).substr(cut)); x.transition(); compare(x, r, s, cut ? "cut there" : "one piece");
}
// all short strings over the bytes which matter
static void garbage(mc::Ctx &x, int len) {
  static const char alpha[] = {'*', '$', '0', '1', '2', '-', '\r', '\n', 'a'};
  int first = x.choose(3, "prefix"); std::string s = first == 0 ? "" : first == 1 ? "*1\r\n$" : "*2\r\n$1\r\na";
  int n = x.choose(len + 1, "length"); for(int i = 0; i < n; i++) s += alpha[x.choose(9, "byte")];
  Reader r(true); r.feed(s); x.transition(); compare(x, r, s, "one piece");
}
// limits for clients which have not authenticated
static void limits(mc::Ctx &x) {
  static const long counts[] = {1, 4, 5, 6, 1000, 2147483645, 2147483646, 2147483647}; static const long sizes[] = {1, 1048575, 1048576, 1048577, 100000000, 2147483645, 2147483646, 2147483648};
  bool auth = x.choose(2, "authorised"), size = x.choose(2, "size"); int i = x.choose(8, "value"); int rest = x.choose(3, "rest"); std::string s;
  if(size) { s = "*2\r\n$1\r\na\r\n$" + S(sizes[i]) + "\r\n"; if(rest && sizes[i] < 2000000) { s += std::string(sizes[i], 'z'); if(rest == 2) s += "\r\n*1\r\n$1\r\nb\r\n"; } }
  else { s = "*" + S(counts[i]) + "\r\n"; if(rest && counts[i] < 2000) for(long k = 0; k < counts[i] - (rest == 1); k++) s += "$2\r\nab\r\n"; }
  Reader r(auth); r.feed(s); x.transition(); compare(x, r, s, "one piece");
}
// ---- through a connection: what is dispatched and whether the connection is closed
struct Recorder : public Dispatcher {
  std::vector<std::string> seen;
  LinkStatus dispatch(Connection *c, RedisRequest &r) override { std::string s; for(auto &e : r) s += show(std::string(e.sv())) + " "; seen.push_back(s); return c->ok(); }
  LinkStatus dispatch(Connection *c, Transaction &t) override { for(size_t i = 0; i < t.size(); i++) { std::string s; for(auto &e : t[i]) s += show(std::string(e.sv())) + " "; seen.push_back(s); c->ok(); } return 1; }
  void notifyDisconnect(Connection *) override {}
};
static void connection(mc::Ctx &x) {
  static const std::vector<std::vector<Cmd>> convs = {{{"GET", "a"}, {"PING"}, {"GET", "b"}}, {{"GET", "a"}, {"SET", "a", "b"}, {"SET", "c", "d"}, {"GET", "e"}}};
  static const std::vector<std::string> ends = {"", "*x\r\n", "*1\r\n$-5\r\n", "garbage\r\n", "*1\r\n$1\r\n\r\n\r\n", "*1\r\n$0\r\n\r\n", std::string(33, '*'), "*2\r\n$1\r\na"};
  auto &c = convs[x.choose(2, "requests")]; int e = x.choose(8, "end"); std::string s = many(c) + ends[e]; bool auth = x.choose(2, "authorised"), monitor = x.choose(2, "monitor");
  conn::Client cl("client", auth); Recorder d; if(monitor) cl.c->setMonitor();
  size_t cut = x.choose((int)s.size(), "cut"); int rc = 1; size_t fed = 0; std::vector<std::string> pieces = {s.substr(0, cut), s.substr(cut)};
  for(auto &p : pieces) if(rc > 0) { rc = cl.feed(&d, p); fed += p.size(); x.transition(); }
  if(monitor) { x.check(rc == 1 && d.seen.empty() && cl.pipe.in.empty(), "monitor", "a monitoring connection executed or kept what it received"); return; }
  Meaning m = meaning(s, auth); x.check((rc > 0) == (m.state != 2), "close", show(s) + ": connection " + (rc > 0 ? "kept" : "closed"));
  std::vector<std::string> want; for(auto &q : m.reqs) { std::string t; for(auto &el : q) t += show(el) + " "; want.push_back(t); }
  // writes batched right before malformed bytes may be dropped with the connection
  if(m.state == 2) { x.check(d.seen.size() <= want.size(), "dispatch", "more requests executed than sent"); want.resize(d.seen.size()); }
  x.check(d.seen == want, "dispatch", show(s) + " cut at " + S(cut) + ": executed " + S(d.seen.size()) + " requests"); x.nontrivial(); x.outcome(S(e) + "," + S(d.seen.size()));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C27"; Link::setConnectionLogging(false);
  c.rule = "The real RedisParser over an in-memory socket. 24 well-formed and malformed streams cut in every way with up to 3 (thorough 4) cuts and byte by byte; a request across the end of a read buffer at each of 64 offsets and of 3 buffers; elements and chunks around the buffer size; every single-byte substitution, deletion (1-3) and insertion in two conversations; all strings up to 6 (thorough 7) bytes over 9 characters after 3 prefixes; count and size limits; whole connections. Parsed requests, kept alive until the end, and refusals are compared with an independent reading of the protocol; addresses are checked by ASAN. Non-trivial: a request was delivered or input refused.";
  c.assumptions = {"request elements of size zero are refused by design", "writes batched right before malformed bytes of the same read may be dropped with the connection"};
  c.spaces.push_back({"fragments", [](mc::Ctx &x) { fragments(x, x.tier(3, 4)); }});
  c.spaces.push_back({"boundary", boundary});
  c.spaces.push_back({"large", large});
  c.spaces.push_back({"corrupt", corrupt});
  c.spaces.push_back({"garbage", [](mc::Ctx &x) { garbage(x, x.tier(6, 7)); }});
  c.spaces.push_back({"limits", limits});
  c.spaces.push_back({"connection", connection});
  return mc::main(argc, argv, c);
}
