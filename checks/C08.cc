//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "fakedb.hh"
#include "resp.hh"
#include "StateMachine.hh"
#include "Dispatcher.hh"
#include "RedisRequest.hh"
#include "redis/Transaction.hh"
#include "pubsub/Publisher.hh"
#include "utils/Macros.hh"
#include <thread>
#include <memory>
namespace kv { using Cmd = std::vector<std::string>; inline std::string ts(uint64_t t) { std::string s(8, 0); for(int i = 7; i >= 0; i--) { s[i] = (char)(t & 0xff); t >>= 8; } return s; } inline std::string show(const Cmd &c) { std::string s; for(auto &a : c) { if(!s.empty()) s += ' '; bool p = !a.empty(); for(unsigned char h : a) if(h <= 32 || h > 126) p = false; s += p ? a : mc::quote(a); } return s; } }
#include "kvmodel.hh"
using namespace quarkdb; using std::string; using kv::Cmd; using S_ = std::string;
static string S(int64_t v) { return std::to_string(v); }
struct Call { std::vector<Cmd> cmds; bool tx = true; resp::Value got; long begin = 0, end = 0; };
using Script = std::vector<Call>;
static string showCall(const Call &c) { string s = c.tx ? "[" : ""; for(size_t i = 0; i < c.cmds.size(); i++) s += (i ? "; " : "") + kv::show(c.cmds[i]); return s + (c.tx ? "]" : ""); }
static const std::vector<Script> &scripts() {
  auto T = [](std::vector<Cmd> c) { Call k; k.cmds = c; return k; }; auto R = [](Cmd c) { Call k; k.cmds = {c}; k.tx = false; return k; };
  static const std::vector<Script> v = {
    // writers
    {T({{"SET", "k", "1"}, {"SET", "l", "1"}, {"HSET", "h", "f", "9"}})},
    {T({{"HINCRBY", "h", "f", "1"}, {"HINCRBY", "h", "g", "1"}, {"SET", "k", "2"}})},
    {R({"HINCRBY", "h", "f", "1"}), R({"HINCRBY", "h", "g", "1"})},
    {R({"DEL", "k", "h", "s"})},
    {T({{"SADD", "s", "b", "c"}, {"SREM", "s", "a"}, {"HDEL", "h", "f"}})},
    {R({"SMOVE", "s", "t", "a"})},
    {R({"DEQUE_PUSH_BACK", "d", "2", "3"}), R({"DEQUE_POP_FRONT", "d"})},
    {T({{"DEQUE_POP_FRONT", "d"}, {"DEQUE_PUSH_BACK", "d", "4"}})},
    {R({"FLUSHALL"})},
    {T({{"GET", "k"}, {"SET", "k", "3"}, {"GET", "k"}, {"GET", "l"}, {"HLEN", "h"}})},
    {T({{"LHSET", "x", "f", "h2", "2"}, {"LHSET", "x", "g", "h1", "3"}})},
    {T({{"VHSET", "v", "f", "2"}, {"VHSET", "v", "g", "3"}})},
    {R({"TIMESTAMPED_LEASE_ACQUIRE", "y", "me", "10", kv::ts(5)}), R({"TIMESTAMPED_LEASE_RELEASE", "y", kv::ts(6)})},
    {R({"TIMESTAMPED_LEASE_ACQUIRE", "y", "you", "10", kv::ts(7)})},
    {R({"HCLONE", "h", "c"}), R({"HSETNX", "h", "z", "1"})},
    // readers
    {T({{"GET", "k"}, {"GET", "l"}, {"HGETALL", "h"}, {"EXISTS", "k", "l", "h", "s", "c"}}), T({{"HGET", "h", "f"}, {"GET", "k"}})},
    {T({{"HLEN", "h"}, {"HKEYS", "h"}, {"HVALS", "h"}, {"SMEMBERS", "s"}, {"SMEMBERS", "t"}, {"SCARD", "s"}})},
    {T({{"KEYS", "*"}, {"TYPE", "k"}, {"DEQUE_LEN", "d"}, {"DEQUE_SCAN_BACK", "d", "0"}, {"LHGET", "x", "f"}, {"LHLEN", "x"}}), R({"HGETALL", "h"})},
    {R({"HGETALL", "h"}), R({"KEYS", "*"}), R({"VHGETALL", "v"})},
    {T({{"VHLEN", "v"}, {"VHGETALL", "v"}, {"HEXISTS", "h", "f"}, {"SISMEMBER", "s", "a"}, {"SISMEMBER", "t", "a"}})},
  };
  return v;
}
static const int kWriters = 15, kAll = 20;
static const std::vector<Cmd> &setup() { static const std::vector<Cmd> v = {{"SET", "k", "0"}, {"HMSET", "h", "f", "0", "g", "0"}, {"SADD", "s", "a", "a2"}, {"DEQUE_PUSH_BACK", "d", "1"}, {"LHSET", "x", "f", "h1", "1"}, {"VHSET", "v", "f", "1"}}; return v; }
static const std::vector<Cmd> &probes() { static const std::vector<Cmd> v = {{"KEYS", "*"}, {"GET", "k"}, {"GET", "l"}, {"HGETALL", "h"}, {"HLEN", "h"}, {"HGETALL", "c"}, {"SMEMBERS", "s"}, {"SCARD", "s"}, {"SMEMBERS", "t"}, {"DEQUE_LEN", "d"}, {"DEQUE_SCAN_BACK", "d", "0"}, {"LHLEN", "x"}, {"LHGET", "x", "f"}, {"LHGET", "x", "g"}, {"VHGETALL", "v"}, {"VHLEN", "v"}, {"TYPE", "y"}}; return v; }
static RedisRequest req(const Cmd &c) { RedisRequest r; for(auto &a : c) r.emplace_back(string(a)); return r; }
static resp::Value parse(mc::Ctx &x, const Call &c, const string &raw) { resp::Value v; if(!resp::one(raw, v)) x.check(false, "malformed", showCall(c) + " is answered " + mc::quote(raw)); return v; }
static string run(RedisDispatcher &d, const Call &c, LogIndex index = 0) {
  if(!c.tx) { RedisRequest r; { vsched::Quiet q; r = req(c.cmds[0]); } return d.dispatch(r, index).val; }
  Transaction t; { vsched::Quiet q; for(auto &k : c.cmds) t.push_back(req(k)); } return d.dispatch(t, index).val;
}
static bool matches(model::Store &m, const Call &c) {
  m.beginTx(); if(!c.tx) return model::same(c.cmds[0][0], c.got, m.exec(c.cmds[0]));
  bool ok = c.got.type == '*' && c.got.arr.size() == c.cmds.size(); for(size_t i = 0; i < c.cmds.size() && ok; i++) ok = model::same(c.cmds[i][0], c.got.arr[i], m.exec(c.cmds[i])); return ok;
}
static bool explain(const model::Store &m, const std::vector<Script> &v, std::vector<size_t> at) {
  bool all = true; for(size_t i = 0; i < v.size(); i++) all &= at[i] == v[i].size(); if(all) return true;
  for(size_t i = 0; i < v.size(); i++) {
    if(at[i] == v[i].size()) continue; const Call &c = v[i][at[i]]; bool first = true; for(size_t k = 0; k < v.size(); k++) if(k != i && at[k] < v[k].size() && v[k][at[k]].end < c.begin) first = false; if(!first) continue;
    model::Store n = m; if(!matches(n, c)) continue; auto a = at; a[i]++; if(explain(n, v, a)) return true; }
  return false;
}
struct Engine { std::unique_ptr<Publisher> pub; std::unique_ptr<StateMachine> sm; std::unique_ptr<RedisDispatcher> disp; Engine(const string &path) { vsched::Calm c; pub.reset(new Publisher()); vsched::Quiet q; sm.reset(new StateMachine(path)); disp.reset(new RedisDispatcher(*sm, *pub)); } void ready() { vsched::Calm c; vsched::settle(); } ~Engine() { vsched::Calm c; disp.reset(); { vsched::Quiet q; sm.reset(); } pub.reset(); } };
static vsched::Options opts(int pre) { vsched::Options o; o.preemptions = pre; o.timers = false; o.early = false; o.atomics = false; return o; }
static void mixed(mc::Ctx &x, const string &path, const std::vector<int> &which) {
  { vsched::Quiet q; fakedb::wipeAll(); } Engine e(path); e.ready(); model::Store m; { vsched::Quiet q; for(auto &c : setup()) { m.beginTx(); Call k; k.cmds = {c}; k.tx = false; run(*e.disp, k); m.exec(c); } }
  std::vector<Script> v; for(int i : which) v.push_back(scripts()[i]); long clock = 0; auto tick = [&]() { vsched::Quiet q; return ++clock; };
  auto go = [&](Script &s) { for(auto &c : s) { c.begin = tick(); string raw = run(*e.disp, c); c.end = tick(); vsched::Quiet q; c.got = parse(x, c, raw); } };
  { std::vector<std::thread> t; for(size_t i = 1; i < v.size(); i++) t.emplace_back([&, i]() { go(v[i]); }); go(v[0]); for(auto &th : t) th.join(); }
  vsched::Quiet q; Script last; for(auto &p : probes()) { Call c; c.cmds = {p}; c.tx = false; c.begin = clock + 1; c.end = clock + 2; c.got = parse(x, c, run(*e.disp, c)); last.push_back(c); } v.push_back(last); x.transition(); string res; for(size_t i = 0; i + 1 < v.size(); i++) for(auto &c : v[i]) res += showCall(c) + " -> " + c.got.show() + "\n"; string fin; for(auto &c : last) fin += showCall(c) + " -> " + c.got.show() + "\n"; x.nontrivial(); x.outcome(res + fin); if(x.tracing()) x.log(res);
  x.check(explain(m, v, std::vector<size_t>(v.size())), "not-serial", "no order of the transactions explains the replies\n" + res + "and in the end\n" + fin);
}
// one thread applies numbered transactions; the others read
static void applier(mc::Ctx &x, const string &path, int kind) {
  { vsched::Quiet q; fakedb::wipeAll(); } Engine e(path); e.ready(); const int n = 3; bool done = false;
  std::thread w([&]() { for(int i = 1; i <= n; i++) { Call c; { vsched::Quiet q; string s = S(i); if(i == 2 && kind == 1) c.cmds = {{"SET", "k", s}, {"HSET", "h", "f", s}, {"DEL", "l"}, {"SET", "l", s}}; else c.cmds = {{"SET", "k", s}, {"HSET", "h", "f", s}, {"SET", "l", s}}; } if(kind == 2 && i == 2) { e.sm->noop(2); continue; } run(*e.disp, c, i); } vsched::Quiet q; done = true; });
  int last = 0; string seen; for(int r = 0; r < 2; r++) {
    LogIndex at = 0; bool waited = false; if(kind == 3) { waited = e.sm->waitUntilTargetLastApplied(r + 2, std::chrono::milliseconds(100000)); if(waited) at = r + 2; } else at = e.sm->getLastApplied();
    Call c; { vsched::Quiet q; c.cmds = {{"GET", "l"}, {"HGET", "h", "f"}, {"GET", "k"}}; } string raw = run(*e.disp, c); LogIndex after = e.sm->getLastApplied(); vsched::Quiet q; c.got = parse(x, c, raw); int val[3]; for(int i = 0; i < 3; i++) val[i] = c.got.arr[i].type == '$' ? atoi(c.got.arr[i].str.c_str()) : 0; x.log("  read ", c.got.show());
    int lo = val[0], hi = lo; if(kind == 2 && lo == 1) hi = 2; x.check(val[0] == val[1] && val[1] == val[2], "torn", "one transaction reads " + c.got.show()); x.check(hi >= at, "stale", "entry " + S(at) + " is applied, read " + c.got.show()); x.check(lo <= after + 1, "early", "only " + S(after) + " is applied, read " + c.got.show()); x.check(lo >= last, "backwards", "read " + S(last) + ", then " + S(lo)); last = lo; seen += S(lo) + "/" + S(at) + " "; }
  w.join(); vsched::Quiet q; x.check(e.sm->getLastApplied() == n && done, "applied", "last applied"); x.nontrivial(); x.transition(); x.outcome(seen);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C08";
  c.rule = "Every pair out of 15 writer and 5 reader scripts (1-3 requests or transactions on shared strings, hashes, sets, deques, locality hashes, versioned hashes and leases) with at least one writer, run by two threads through the real RedisDispatcher and StateMachine on the in-memory store, every schedule with up to 2 preemptions (thorough 3; for pairs of 7 scripts 3, thorough 4), and triples writer-writer-reader and writer-reader-reader with 1 (thorough 3): some order of the whole transactions that respects real time must explain, in the reference model, every reply and the final contents (strict serialisability); data races and deadlocks are reported. A thread applying numbered transactions beside readers that look at lastApplied or wait for it, up to 2 (thorough 3) preemptions: reads are never torn, never behind the index seen before, never going back; a missed wake-up is a deadlock. Non-trivial: all.";
  c.assumptions = {"an operation of the storage engine (write of a batch, snapshot, read) is atomic"};
  auto sm = []() { return mc::scratch() + "/sm"; };
  auto pairs = [sm](mc::Ctx &x, int pre) { string path = sm(); int a = x.choose(kWriters, "first"), b = a + x.choose(kAll - a, "second"); vsched::run(x, opts(pre), [&]() { mixed(x, path, {a, b}); }); };
  c.spaces.push_back({"pairs", [pairs](mc::Ctx &x) { pairs(x, x.tier(2, 3)); }});
  c.spaces.push_back({"pairs-deep", [sm](mc::Ctx &x) { string path = sm(); static const int w[] = {0, 1, 6, 11, 4}, r[] = {15, 18}; int a = w[x.choose(5, "first")], k = x.choose(7, "second"), b = k < 5 ? w[k] : r[k - 5]; if(b < a) x.abandon(); vsched::run(x, opts(x.tier(3, 4)), [&]() { mixed(x, path, {a, b}); }); }});
  c.spaces.push_back({"triples", [sm](mc::Ctx &x) { string path = sm(); static const int w[] = {0, 1, 4, 6, 3, 8, 9, 11}, r[] = {15, 17, 16, 18, 19}; int n = x.tier(6, 8); int a = w[x.choose(n, "writer")], b, d; if(x.choose(2, "third") == 0) { b = w[x.choose(n, "writer")]; d = r[x.choose(x.tier(3, 5), "reader")]; } else { b = r[x.choose(x.tier(3, 5), "reader")]; d = r[x.choose(x.tier(3, 5), "reader")]; } vsched::run(x, opts(x.tier(1, 3)), [&]() { mixed(x, path, {d, b, a}); }); }});
  c.spaces.push_back({"applier", [sm](mc::Ctx &x) { string path = sm(); int kind = x.choose(4, "kind"); auto o = opts(x.tier(2, 3)); o.atomics = true; vsched::run(x, o, [&]() { applier(x, path, kind); }); }});
  return mc::main(argc, argv, c);
}
