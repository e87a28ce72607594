//@ sources: *
//@ lib: fakedb nothreads
//@ flags: -fsanitize=address
#include "mc.hh"
#include "resp.hh"
#include "conn.hh"
#include "Formatter.hh"
#include "RedisRequest.hh"
#include "health/HealthIndicator.hh"
#include "raft/RaftCommon.hh"
#include "redis/ArrayResponseBuilder.hh"
#include "redis/Transaction.hh"
#include "utils/Macros.hh"
#include "utils/Statistics.hh"
#include <rocksdb/status.h>
using namespace quarkdb;
using resp::Value;
static std::string S(long long n) { return std::to_string(n); }
static const std::vector<std::string> &T() { static const std::vector<std::string> v = {"", "a", "\r\n", "$-1\r\n", std::string("\0", 1), "\xff\xfe", std::string(300, 'x') + "\n", "*2\r\n:1\r\n", "+OK", "0", std::string(70000, '\r')}; return v; }
static const std::vector<std::string> &F() { static const std::vector<std::string> v = {"", "a", "\r\n+x", std::string("\0\xff", 2)}; return v; }
static const int64_t kInts[] = {0, 1, -1, 10, INT64_MAX, INT64_MIN, 2147483648ll};
static std::string text(mc::Ctx &x) { return T()[x.choose((int)T().size(), "text")]; }
static std::vector<std::string> texts(mc::Ctx &x, int max) { std::vector<std::string> v; int n = x.choose(max + 1, "count"); for(int i = 0; i < n; i++) v.push_back(F()[x.choose((int)F().size(), "text")]); return v; }
static std::string line(std::string s) { std::string o; for(char c : s) if(c != '\r' && c != '\n' && c != ' ') o += c; return o; }   // texts on one line: line breaks may be replaced
static bool same(const Value &got, const Value &want) {
  if(got.type != want.type || got.arr.size() != want.arr.size()) return false;
  if(got.type == '+' || got.type == '-') { bool breaks = want.str.find_first_of("\r\n") != std::string::npos; return breaks ? line(got.str) == line(want.str) : got.str == want.str; }
  if(got.str != want.str) return false; for(size_t i = 0; i < got.arr.size(); i++) if(!same(got.arr[i], want.arr[i])) return false; return true;
}
static Value list(char t, std::vector<Value> v) { Value r; r.type = t; r.arr = std::move(v); return r; }
static Value arr(const std::vector<std::string> &v) { Value r; r.type = '*'; for(auto &s : v) r.arr.push_back(resp::str(s)); return r; }
static Value stat(const std::vector<std::string> &v) { Value r; r.type = '*'; for(auto &s : v) r.arr.push_back(resp::status(s)); return r; }
static void expect(mc::Ctx &x, const RedisEncodedResponse &r, const Value &want, const std::string &what) {
  x.transition(); x.nontrivial(); Value got; bool ok = resp::one(r.val, got);
  x.check(ok, what, what + ": not one well-formed value: " + mc::quote(r.val.substr(0, 300)) + ", meant " + want.show().substr(0, 300));
  x.check(same(got, want), what, what + ": gives " + got.show().substr(0, 300) + ", meant " + want.show().substr(0, 300)); x.outcome(what + want.show().substr(0, 200));
}
static void simple(mc::Ctx &x) {
  int op = x.choose(18, "reply"); std::string t = text(x); Value i; i.type = ':';
  switch(op) {
    case 0: return expect(x, Formatter::string(t), resp::str(t), "string");
    case 1: return expect(x, Formatter::status(t), resp::status(t), "status");
    case 2: return expect(x, Formatter::err(t), resp::error("ERR " + t), "err");
    case 3: return expect(x, Formatter::errArgs(t), resp::error("ERR wrong number of arguments for '" + t + "' command"), "errArgs");
    case 4: return expect(x, Formatter::noauth(t), resp::error("NOAUTH " + t), "noauth");
    case 5: { if(t.empty() || t.size() > 1000) return; int p = x.choose(3, "port"); static const int ports[] = {0, 7777, 65535}; int64_t s = kInts[x.choose(7, "shard")]; return expect(x, Formatter::moved(s, RaftServer(t, ports[p])), resp::error("MOVED " + S(s) + " " + t + ":" + S(ports[p])), "moved"); }
    case 6: { int64_t n = kInts[x.choose(7, "n")]; i.str = S(n); return expect(x, Formatter::integer(n), i, "integer"); }
    case 7: { static const uint64_t us[] = {0, 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX}; uint64_t n = us[x.choose(5, "n")]; std::ostringstream ss; Formatter::uint64(ss, n); x.check(ss.str() == ":" + std::to_string(n) + "\r\n", "uint64", "uint64 " + ss.str()); return; }
    case 8: return expect(x, Formatter::null(), resp::nil(), "null");
    case 9: expect(x, Formatter::ok(), resp::status("OK"), "ok"); return expect(x, Formatter::pong(), resp::status("PONG"), "pong");
    case 10: if(t.find('\0') != std::string::npos) return; expect(x, Formatter::fromStatus(rocksdb::Status::OK()), resp::status("OK"), "fromStatus"); return expect(x, Formatter::fromStatus(rocksdb::Status::NotFound(t)), resp::error("ERR NotFound: " + t), "fromStatus");
    case 11: { auto v = texts(x, 2); Value want = list('*', {resp::str(t), arr(v)}); return expect(x, Formatter::scan(t, v), want, "scan"); }
    case 12: { bool push = x.choose(2, "push"); int k = x.choose(4, "kind"); size_t n = x.choose(3, "n"); static const char *names[] = {"subscribe", "psubscribe", "unsubscribe", "punsubscribe"}; RedisEncodedResponse r = k == 0 ? Formatter::subscribe(push, t, n) : k == 1 ? Formatter::psubscribe(push, t, n) : k == 2 ? Formatter::unsubscribe(push, t, n) : Formatter::punsubscribe(push, t, n); std::vector<Value> v; if(push) v.push_back(resp::str("pubsub")); v.push_back(resp::str(names[k])); v.push_back(resp::str(t)); v.push_back(resp::integer((long long)n)); return expect(x, r, list(push ? '>' : '*', v), names[k]); }
    case 13: { bool push = x.choose(2, "push"); std::string u = text(x); std::vector<Value> v; if(push) v.push_back(resp::str("pubsub")); for(auto &e : {std::string("message"), t, u}) v.push_back(resp::str(e)); return expect(x, Formatter::message(push, t, u), list(push ? '>' : '*', v), "message"); }
    case 14: { bool push = x.choose(2, "push"); std::string u = text(x), w = F()[x.choose(4, "text")]; std::vector<Value> v; if(push) v.push_back(resp::str("pubsub")); for(auto &e : {std::string("pmessage"), t, u, w}) v.push_back(resp::str(e)); return expect(x, Formatter::pmessage(push, t, u, w), list(push ? '>' : '*', v), "pmessage"); }
    case 15: { int n = 1 + x.choose(4, "factor"); RedisEncodedResponse one = x.choose(2, "kind") ? Formatter::err(t) : Formatter::string(t), all = Formatter::multiply(one, n); std::vector<Value> v; x.check(resp::parseAll(all.val, v) && (int)v.size() == n, "multiply", "multiplied reply"); Value first; resp::one(one.val, first); for(auto &e : v) x.check(e == first, "multiply", e.show()); bool threw = false; try { Formatter::multiply(one, 0); } catch(FatalException&) { threw = true; } x.check(threw, "multiply", "no reply at all"); x.nontrivial(); return; }
    case 16: { Statistics s; int64_t a = kInts[x.choose(7, "n")], b = kInts[x.choose(7, "n")]; s.reads = a; s.writes = b; s.txread = 3; s.txreadwrite = 4; return expect(x, Formatter::stats(s), stat({"TOTAL-READS " + S(a), "TOTAL-WRITES " + S(b), "TOTAL-TXREAD 3", "TOTAL-TXREADWRITE 4"}), "stats"); }
    case 17: { std::string u = F()[x.choose(4, "node")]; if(t.size() > 1000) return; auto h = std::vector<HealthIndicator>{}; std::vector<std::string> want; int n = x.choose(4, "indicators"); int worst = 0; for(int k = 0; k < n; k++) { int st = x.choose(3, "status"); worst = std::max(worst, st); h.emplace_back((HealthStatus)st, "IND" + S(k) + t, u); } static const char *names[] = {"GREEN", "YELLOW", "RED"}; want.push_back(std::string("NODE-HEALTH ") + names[worst]); if(!u.empty()) want.push_back("NODE " + u); want.push_back("VERSION " + t); want.push_back("----------"); for(int k = 0; k < n; k++) want.push_back(std::string(names[(int)h[k].getStatus()]) + std::string(7 - strlen(names[(int)h[k].getStatus()]), ' ') + ">> IND" + S(k) + t + " " + u); return expect(x, Formatter::nodeHealth(NodeHealth(t, u, h)), stat(want), "nodeHealth"); }
  }
}
static void vectors(mc::Ctx &x) {
  int op = x.choose(6, "reply"); auto v = texts(x, op == 5 ? 2 : 4);
  switch(op) {
    case 0: return expect(x, Formatter::vector(v), arr(v), "vector");
    case 1: return expect(x, Formatter::statusVector(v), stat(v), "statusVector");
    case 2: { static const uint64_t us[] = {0, 7, UINT64_MAX}; uint64_t n = us[x.choose(3, "n")]; Value i; i.type = ':'; i.str = std::to_string(n); return expect(x, Formatter::versionedVector(n, v), list('*', {i, arr(v)}), "versionedVector"); }
    case 3: { std::vector<std::pair<std::string_view, std::string_view>> c; std::vector<std::string> w; for(auto &s : v) { c.emplace_back(s, "v"); w.push_back(s); w.push_back("v"); if(c.size() == 2) { c.back().second = std::string_view(); w.back().clear(); } } return expect(x, Formatter::vhashRevision(7, c), list('*', {resp::integer(7), arr(w)}), "vhashRevision"); }
    case 4: { RedisRequest r; for(auto &s : v) r.push_back(s); expect(x, Formatter::simpleRedisRequest(r), arr(v), "simpleRedisRequest"); return expect(x, Formatter::redisRequest(r), arr(v), "redisRequest"); }
    case 5: { int n = x.choose(3, "sections"); std::vector<std::string> heads; std::vector<std::vector<std::string>> data; std::vector<Value> want; for(int i = 0; i < n; i++) { heads.push_back(i < (int)v.size() ? v[i] : "h"); data.push_back(texts(x, 2)); want.push_back(list('*', {resp::status(heads.back()), stat(data.back())})); } return expect(x, Formatter::vectorsWithHeaders(heads, data), list('*', want), "vectorsWithHeaders"); }
  }
}
// log entries, plain and holding transactions
typedef std::vector<std::string> Cmd;
struct Ent { RaftEntry e; Value raw, nice; };
static Ent entry(mc::Ctx &x) {
  Ent r; int64_t term = kInts[x.choose(7, "term")]; int k = x.choose(9, "entry"); Cmd c; Value nice;
  if(k < 4) { c = {"SET", F()[k], "v"}; nice = arr(c); }
  else if(k == 4) { c = {"JOURNAL_UPDATE_MEMBERS", "a:1,b:2|"}; nice = arr(c); }
  else if(k == 5) { c = {"TX_READWRITE", "garbage", "real"}; nice = arr(c); }
  else if(k == 6) { c = {"TX_READONLY"}; nice = arr(c); }
  else { Transaction t; std::vector<Cmd> cs = {{"SET", "a\r\n", std::string("\0", 1)}, {"get", ""}}; if(k == 8) cs.resize(1); std::vector<Value> v = {resp::str("TX_READWRITE")}; for(auto &q : cs) { RedisRequest rr; for(auto &s : q) rr.push_back(s); t.push_back(std::move(rr)); v.push_back(arr(q)); } c = {"TX_READWRITE", t.serialize(), k == 7 ? "real" : "phantom"}; nice = list('*', v); }
  RedisRequest q; for(auto &s : c) q.push_back(s); r.e = RaftEntry(term, std::move(q)); r.raw = list('*', {resp::str("TERM: " + S(term)), arr(c)}); r.nice = list('*', {resp::str("TERM: " + S(term)), nice}); return r;
}
static void entries(mc::Ctx &x) {
  int op = x.choose(3, "reply");
  if(op == 0) { Ent e = entry(x); bool raw = x.choose(2, "raw"); int64_t idx = x.choose(3, "index") - 1; Value want = raw ? e.raw : e.nice; if(idx >= 0) want.arr.insert(want.arr.begin(), resp::str("INDEX: " + S(idx))); return expect(x, Formatter::raftEntry(e.e, raw, idx), want, "raftEntry"); }
  int n = x.choose(3, "entries"); bool raw = op == 1 && x.choose(2, "raw"); std::vector<RaftEntry> v; std::vector<RaftEntryWithIndex> w; std::vector<Value> want; int64_t at = 5;
  for(int i = 0; i < n; i++) { Ent e = entry(x); v.push_back(e.e); w.emplace_back(e.e, at); Value q = raw ? e.raw : e.nice; if(op == 2) q.arr.insert(q.arr.begin(), resp::str("INDEX: " + S(at))); at++; want.push_back(q); }
  if(op == 1) return expect(x, Formatter::raftEntries(v, raw), list('*', want), "raftEntries");
  int64_t cur = x.choose(2, "cursor") ? 17 : 0; expect(x, Formatter::journalScan(cur, w), list('*', {resp::str(cur ? "next:17" : "0"), list('*', want)}), "journalScan");
}
// replies assembled from parts; the announced number of parts is enforced
static Value part(mc::Ctx &x, RedisEncodedResponse &r) {
  static const std::vector<std::string> two = {"x", ""}; Value v;
  switch(x.choose(5, "part")) { case 0: r = Formatter::string("\r\n"); v = resp::str("\r\n"); break; case 1: r = Formatter::integer(-3); v = resp::integer(-3); break; case 2: r = Formatter::vector(two); v = arr(two); break; case 3: r = Formatter::null(); v = resp::nil(); break; default: r = Formatter::err("e"); v = resp::error("ERR e"); break; }
  return v;
}
static void builder(mc::Ctx &x) {
  int n = x.choose(4, "announced"), given = x.choose(5, "given"); bool phantom = x.choose(2, "phantom"); bool threw = false; std::vector<Value> want; x.transition();
  try { ArrayResponseBuilder b(n, phantom); for(int i = 0; i < given; i++) { RedisEncodedResponse r; want.push_back(part(x, r)); b.push_back(r); } RedisEncodedResponse all = b.buildResponse();
    x.check(n == given, "builder", S(n) + " parts announced, " + S(given) + " given, accepted");
    if(!phantom) expect(x, all, list('*', want), "builder"); else { std::vector<Value> v; x.check(resp::parseAll(all.val, v) && v == want, "builder", "batch of replies"); } x.nontrivial();
  } catch(FatalException&) { threw = true; }
  x.check(threw == (n != given || n == 0), "builder", S(n) + " parts announced, " + S(given) + " given: " + (threw ? "refused" : "accepted")); x.outcome(S(n) + S(given));
}
// what reaches the socket through a connection
static void connection(mc::Ctx &x) {
  conn::Client c; int n = 1 + x.choose(2, "replies"); std::vector<Value> want;
  for(int i = 0; i < n; i++) {
    std::string t = i ? F()[x.choose(4, "text")] : text(x); auto v = std::vector<std::string>{t, "z"};
    switch(x.choose(12, "reply")) {
      case 0: c.c->string(t); want.push_back(resp::str(t)); break; case 1: c.c->status(t); want.push_back(resp::status(t)); break; case 2: c.c->err(t); want.push_back(resp::error("ERR " + t)); break;
      case 3: c.c->vector(v); want.push_back(arr(v)); break; case 4: c.c->statusVector(v); want.push_back(stat(v)); break; case 5: c.c->scan(t, v); want.push_back(list('*', {resp::str(t), arr(v)})); break;
      case 6: c.c->integer(INT64_MIN); want.push_back(resp::integer(INT64_MIN)); break; case 7: c.c->null(); want.push_back(resp::nil()); break; case 8: c.c->ok(); want.push_back(resp::status("OK")); break; case 9: c.c->pong(); want.push_back(resp::status("PONG")); break;
      case 10: c.c->noauth(t); want.push_back(resp::error("NOAUTH " + t)); break; case 11: c.c->errArgs(t); want.push_back(resp::error("ERR wrong number of arguments for '" + t + "' command")); break;
    }
  }
  c.c->flush(); bool bad = false; auto got = c.take(&bad); x.transition(); x.check(!bad && got.size() == want.size() && c.seen == c.pipe.out.size(), "connection", S(got.size()) + " replies sent, meant " + S(want.size()) + ": " + mc::quote(c.pipe.out.substr(0, 300)));
  for(size_t i = 0; i < want.size(); i++) x.check(same(got[i], want[i]), "connection", "sent " + got[i].show().substr(0, 200) + ", meant " + want[i].show().substr(0, 200)); x.nontrivial(); if(n == 1) x.outcome(want[0].show().substr(0, 100));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C34"; Link::setConnectionLogging(false);
  c.rule = "Every reply builder over texts that are empty, binary, long, or look like protocol (11 texts; 4 inside vectors of up to 4 elements), boundary integers, log entries with plain, packed, batched and damaged contents, health lists up to 3, builders with 0-3 announced and 0-4 given parts of 5 kinds, and sequences of 2 replies through a real connection: the bytes must parse, by an independent strict parser, as exactly the value meant. Non-trivial: every reply.";
  c.assumptions = {"error and status replies cannot carry line breaks: only their other characters are compared"};
  c.spaces.push_back({"simple", simple}); c.spaces.push_back({"vectors", vectors}); c.spaces.push_back({"entries", entries}); c.spaces.push_back({"builder", builder}); c.spaces.push_back({"connection", connection});
  return mc::main(argc, argv, c);
}
