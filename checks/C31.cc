//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "fakedb.hh"
#include "conn.hh"
#include "StateMachine.hh"
#include "RedisRequest.hh"
#include "Dispatcher.hh"
#include "pubsub/Publisher.hh"
#include "redis/Transaction.hh"
#include <thread>
#include <set>
using namespace quarkdb;
using resp::Value;
namespace kv { static RedisRequest req(const std::vector<std::string> &c) { RedisRequest r; for(auto &a : c) r.emplace_back(std::string(a)); return r; } static std::string show(const std::vector<std::string> &c) { std::string s; for(auto &a : c) s += (s.empty() ? "" : " ") + a; return s; } }
static std::string S(long n) { return std::to_string(n); }
static vsched::Options opts(int pre, bool orders = false) { vsched::Options o; o.preemptions = pre; o.orders = orders; o.races = pre > 0; return o; }
static Value push(bool p, std::vector<Value> v) { if(p) v.insert(v.begin(), resp::str("pubsub")); Value a; a.type = p ? '>' : '*'; a.arr = v; return a; }
static const char *kChan[] = {"a", "ab", "c"}; static const char *kPat[] = {"a*", "*", "ab"};
static bool matches(int p, int c) { return p == 1 || (p == 0 && c < 2) || (p == 2 && c == 1); }
struct Peer { std::unique_ptr<conn::Client> c; bool push = false; std::set<std::string> chans, pats; };
typedef std::vector<std::pair<bool, Value>> Expect;      // false: part of the unordered deliveries of one publication
static std::string showAll(const std::vector<Value> &v) { std::string s; for(auto &e : v) s += e.show() + " "; return s.substr(0, 400); }
// what a client got must be these replies; deliveries of one publication may come in any order
static void expect(mc::Ctx &x, Peer &p, const char *who, std::vector<Value> ordered, std::vector<Value> loose, bool looseFirst = true) {
  bool bad = false; auto got = p.c->take(&bad); x.check(!bad, "garbled", std::string(who) + " received something that is no reply");
  x.check(got.size() == ordered.size() + loose.size(), "deliveries", std::string(who) + " received " + S(got.size()) + " replies, expected " + S(ordered.size() + loose.size()) + ": " + showAll(got) + " expected " + showAll(loose) + showAll(ordered));
  size_t o = looseFirst ? loose.size() : 0, l = looseFirst ? 0 : ordered.size();
  for(size_t i = 0; i < ordered.size(); i++) x.check(got[o + i] == ordered[i], "reply", std::string(who) + " received " + got[o + i].show() + ", expected " + ordered[i].show());
  std::vector<std::string> a, b; for(size_t i = 0; i < loose.size(); i++) { a.push_back(got[l + i].show()); b.push_back(loose[i].show()); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); x.check(a == b, "delivery", std::string(who) + " received " + showAll(got) + ", expected " + showAll(loose));
}
static void sequences(mc::Ctx &x, int clients, int depth) {
  auto pub = std::make_unique<Publisher>(); std::vector<Peer> p(clients); bool push0 = x.choose(2, "push types");
  auto connect = [&](int i) { p[i].c.reset(new conn::Client("client")); p[i].chans.clear(); p[i].pats.clear(); p[i].push = push0 && i == 0; if(p[i].push) p[i].c->c->activatePushTypes(); }; for(int i = 0; i < clients; i++) connect(i);
  std::vector<int> drops(clients); int seq = 0; std::multiset<std::string> zombies; static const std::vector<std::vector<int>> lists = {{0}, {1}, {2}, {0, 1}, {2, 2}, {1, 2, 1}};
  for(int d = 0; d < depth; d++) {
    std::string canon = S(push0); for(auto &e : p) { canon += "|"; for(auto &c : e.chans) canon += c + ","; canon += ";"; for(auto &c : e.pats) canon += c + ","; } for(auto &z : zombies) canon += "!" + z; for(int v : drops) canon += "#" + S(v);
    bool seen; { vsched::Quiet q; seen = x.visited(canon, depth - d); } if(seen) break;
    int op = x.choose(8, "operation"); if(op == 7) break; int who = op == 6 ? 0 : x.choose(clients, "client"); Peer &me = p[who]; x.transition(); std::string name = "client " + S(who);
    auto send = [&](const std::vector<std::string> &c) { RedisRequest r = kv::req(c); pub->dispatch(me.c->c.get(), r); me.c->c->flush(); };
    if(op < 4) {
      static const char *names[] = {"subscribe", "unsubscribe", "psubscribe", "punsubscribe"}; int li = x.choose((int)lists.size(), "names"); auto &set = op < 2 ? me.chans : me.pats; const char **tab = op < 2 ? kChan : kPat; std::vector<std::string> cmd = {names[op]}; std::vector<Value> want;
      for(int k : lists[li]) { cmd.push_back(tab[k]); if(op % 2 == 0) set.insert(tab[k]); else set.erase(tab[k]); want.push_back(::push(me.push, {resp::str(names[op]), resp::str(tab[k]), resp::integer((long long)(me.chans.size() + me.pats.size()))})); }
      if(me.push) want.push_back(resp::status("OK")); send(cmd); expect(x, me, name.c_str(), want, {}); x.log("  ", name, " ", kv::show(cmd)); x.nontrivial();
    }
    else if(op == 4) {
      int c = x.choose(3, "channel"); std::string text = "m" + S(seq++) + std::string("\0\r\n", 3); long long hits = 0; std::vector<std::vector<Value>> loose(clients);
      for(int i = 0; i < clients; i++) { if(p[i].chans.count(kChan[c])) loose[i].push_back(::push(p[i].push, {resp::str("message"), resp::str(kChan[c]), resp::str(text)})), hits++; for(int k = 0; k < 3; k++) if(p[i].pats.count(kPat[k]) && matches(k, c)) loose[i].push_back(::push(p[i].push, {resp::str("pmessage"), resp::str(kPat[k]), resp::str(kChan[c]), resp::str(text)})), hits++; }
      send({"PUBLISH", kChan[c], text}); x.log("  ", name, " publishes to ", kChan[c], ": ", hits, " deliveries"); for(int i = 0; i < clients; i++) expect(x, p[i], ("client " + S(i)).c_str(), i == who ? std::vector<Value>{resp::integer(hits)} : std::vector<Value>{}, loose[i]); if(hits) x.nontrivial(); x.outcome(S(hits));
      for(auto it = zombies.begin(); it != zombies.end();) { bool hit = (*it)[0] == 'c' ? *it == std::string("c") + kChan[c] : [&] { for(int k = 0; k < 3; k++) if(*it == std::string("p") + kPat[k]) return matches(k, c); return false; }(); it = hit ? zombies.erase(it) : std::next(it); }
    }
    else if(op == 5) { for(auto &e : me.chans) zombies.insert("c" + e); for(auto &e : me.pats) zombies.insert("p" + e); me.c.reset(); connect(who); drops[who] = 0; x.log("  ", name, " reconnects"); }
    else { std::vector<size_t> n; for(auto &e : p) n.push_back(e.chans.size() + e.pats.size()); pub->purgeListeners(Formatter::err("unavailable")); x.log("  all subscriptions are dropped"); for(int i = 0; i < clients; i++) { std::vector<Value> want(n[i], resp::error("ERR unavailable")); expect(x, p[i], ("client " + S(i)).c_str(), want, {}); p[i].chans.clear(); p[i].pats.clear(); } zombies.clear(); for(int i = 0; i < clients; i++) drops[i] = std::min(2, drops[i] + (int)n[i]); }
  }
}
// messages for a client whose write is still pending come after the reply to that write
static void behindWrite(mc::Ctx &x) {
  fakedb::wipeAll(); struct W { Publisher pub; StateMachine sm{mc::scratch() + "/sm"}; RedisDispatcher disp{sm, pub}; } w; conn::Client a("a"), b("b"); RedisRequest r = kv::req({"SUBSCRIBE", "ch"}); bool before = x.choose(2, "subscribed before the write"), push = x.choose(2, "push types"); if(push) a.c->activatePushTypes(); auto sub = [&]() { w.pub.dispatch(a.c.get(), r); a.c->flush(); }; if(before) sub();
  Transaction t; t.emplace_back("SET", "k", "v"); t.setPhantom(true); a.c->getQueue()->addPendingTransaction(&w.disp, std::move(t), 1); if(!before) sub();
  int msgs = x.choose(3, "messages"); for(int i = 0; i < msgs; i++) { RedisRequest q = kv::req({"PUBLISH", "ch", S(i)}); w.pub.dispatch(b.c.get(), q); } a.c->flush(); b.c->flush();
  auto early = a.take(); x.check(early.size() == (before ? (push ? 2 : 1) : 0), "order", S(early.size()) + " replies before the write was applied"); bool lost = x.choose(2, "leadership lost"); if(lost) a.c->getQueue()->flushPending(Formatter::err("unavailable")); else a.c->getQueue()->dispatchPending(&w.disp, 1); a.c->flush(); auto v = a.take(); std::vector<Value> want = {lost ? resp::error("ERR unavailable") : resp::status("OK")}; if(!before) { want.push_back(::push(push, {resp::str("subscribe"), resp::str("ch"), resp::integer(1)})); if(push) want.push_back(resp::status("OK")); } for(int i = 0; i < msgs; i++) want.push_back(::push(push, {resp::str("message"), resp::str("ch"), resp::str(S(i))}));
  x.check(v.size() == want.size(), "order", "after the write: " + showAll(v) + " expected " + showAll(want)); for(size_t i = 0; i < v.size(); i++) x.check(v[i] == want[i], "order", "after the write: " + showAll(v) + " expected " + showAll(want)); auto h = b.take(); x.check((int)h.size() == msgs, "publish", "replies to publications"); for(auto &e : h) x.check(e == resp::integer(1), "publish", e.show()); x.nontrivial(); x.outcome(S(msgs)); x.transition();
}
// one client changing its subscription, another publishing, a third one leaving
static void concurrent(mc::Ctx &x, int kind, int N) {
  Publisher pub; bool pattern = kind % 2; conn::Client c1("a"), b("b"), c2("c"); int hits[2] = {-1, -1};
  // subscribers are kept ordered by address: both orders are explored, not whichever the allocator gives
  bool first = (c1.c->getQueue().get() < c2.c->getQueue().get()) == (x.choose(2, "address order") == 0); conn::Client &a = first ? c1 : c2, &c = first ? c2 : c1;
  bool leave = kind / 2 == 1, unsub = kind / 2 == 0 || kind / 2 == 3, again = kind / 2 == 3, two = kind / 2 == 2;
  auto req = [&](const char *n) { return kv::req({n, pattern ? "c*" : "ch"}); }; const char *sub = pattern ? "PSUBSCRIBE" : "SUBSCRIBE", *uns = pattern ? "PUNSUBSCRIBE" : "UNSUBSCRIBE";
  { RedisRequest r = req(sub); pub.dispatch(c.c.get(), r); c.c->flush(); c.take(); } bool startedAfterSub = false, endedBeforeUnsub[2] = {false, false}, startedAfterUnsub[2] = {false, false}, subDone = false, unsStarted = false, unsDone = false, afterSub[2] = {false, false}; (void)startedAfterSub;
  std::thread p([&]() { for(int i = 0; i < N; i++) { { vsched::Quiet q; afterSub[i] = subDone; startedAfterUnsub[i] = unsDone; } RedisRequest r = kv::req({"PUBLISH", "ch", S(i)}); pub.dispatch(b.c.get(), r); { vsched::Quiet q; endedBeforeUnsub[i] = !unsStarted; } } b.c->flush(); });
  std::thread o; if(leave) o = std::thread([&]() { c.drop(); }); if(two) o = std::thread([&]() { RedisRequest r = kv::req({"PUBLISH", "ch", "x"}); conn::Client z("z"); pub.dispatch(z.c.get(), r); });
  { RedisRequest r = req(sub); pub.dispatch(a.c.get(), r); a.c->flush(); vsched::Quiet q; subDone = true; }
  if(unsub) { { vsched::Quiet q; unsStarted = true; } RedisRequest r = req(uns); pub.dispatch(a.c.get(), r); a.c->flush(); vsched::Quiet q; unsDone = true; }
  if(again) { RedisRequest r = req(sub); pub.dispatch(a.c.get(), r); }
  p.join(); if(o.joinable()) o.join(); a.c->flush(); auto v = a.take();
  if(again) { RedisRequest r = kv::req({"PUBLISH", "ch", "last"}); conn::Client z("z"); pub.dispatch(z.c.get(), r); a.c->flush(); auto w = a.take(); x.check(w.size() == 1 && w[0].arr.back().str == "last", "lost", "a message published after subscribing again was not delivered: " + showAll(w)); long long cnt = 0; for(auto &e : v) if(e.arr[0].str == "subscribe" || e.arr[0].str == "psubscribe") cnt = atoll(e.arr.back().str.c_str()); x.check(cnt == 1, "count", "the count after subscribing again is " + S(cnt)); } auto h = b.take(); x.check((int)h.size() == N, "publish", S(h.size()) + " publish replies"); for(int i = 0; i < N; i++) hits[i] = atoi(h[i].str.c_str());
  int n[3] = {0, 0, 0}; int lastSeen = -1; bool order = true; for(auto &e : v) if(!e.arr.empty() && (e.arr[0].str == "message" || e.arr[0].str == "pmessage")) { std::string m = e.arr.back().str; if(m == "x") n[2]++; else { int k = atoi(m.c_str()); n[k]++; if(k < lastSeen) order = false; lastSeen = k; } }
  for(int i = 0; i < N; i++) { x.check(n[i] <= 1, "duplicate", "message " + S(i) + " was delivered " + S(n[i]) + " times"); if(afterSub[i] && endedBeforeUnsub[i]) x.check(n[i] == 1, "lost", "message " + S(i) + " was published while the client was subscribed and never delivered"); if(startedAfterUnsub[i] && !again) x.check(n[i] == 0, "late", "message " + S(i) + " was delivered after the unsubscription"); }
  x.check(order, "order", "messages of one publisher overtook each other"); if(!leave) { auto w = c.take(); int k = 0; for(auto &e : w) if(e.arr[0].str != "subscribe" && e.arr[0].str != "psubscribe") k++; x.check(k == N + (two ? 1 : 0) + (again ? 1 : 0), "lost", "a client subscribed all the time received " + S(k) + " messages"); }
  x.nontrivial(); x.outcome(S(n[0]) + S(n[1]) + S(hits[0]) + S(hits[1])); x.transition();
}
// subscriptions dropped on loss of leadership, and push types switched on, while messages are being delivered
static void dropping(mc::Ctx &x, int kind) {
  Publisher pub; conn::Client a("a"), b("b"); RedisRequest r = kv::req({"SUBSCRIBE", "ch"}); pub.dispatch(a.c.get(), r); a.c->flush(); a.take();
  std::thread p([&]() { RedisRequest r = kv::req({"PUBLISH", "ch", "m"}); pub.dispatch(b.c.get(), r); b.c->flush(); }), q;
  if(kind == 0) q = std::thread([&]() { pub.purgeListeners(Formatter::err("unavailable")); }); else a.c->activatePushTypes();
  RedisRequest s = kv::req({"SUBSCRIBE", "other"}); pub.dispatch(a.c.get(), s); a.c->flush(); p.join(); if(q.joinable()) q.join(); a.c->flush(); bool bad = false; auto v = a.take(&bad); x.check(!bad, "garbled", "garbled"); if(kind == 1) { int m = 0; for(auto &e : v) if(e.arr.size() >= 3 && (e.arr[0].str == "message" || e.arr[1].str == "message")) m++; x.check(m == 1, "lost", S(m) + " messages delivered"); }
  RedisRequest f = kv::req({"SUBSCRIBE", "third"}); pub.dispatch(a.c.get(), f); a.c->flush(); v = a.take(); x.check(!v.empty(), "reply", "no reply"); auto &e = v[0]; long long cnt = atoll(e.arr.back().str.c_str()); if(kind == 1) x.check(cnt == 3, "count", "count " + S(cnt)); else x.check(cnt == 1 || cnt == 2, "count", "after the drop the count is " + S(cnt)); x.nontrivial(); x.outcome(S(cnt)); x.transition();
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C31"; Link::setConnectionLogging(false);
  c.rule = "Every sequence, up to depth 4 (thorough 6) with states (subscriptions of each client and of departed ones) visited once, of subscriptions, unsubscriptions, pattern ones (6 lists of names, repeated names among them), publications to 3 channels, reconnections and dropping of all subscriptions, by 2 (thorough also 3) clients with and without push types, through the real Publisher and connections: every client's stream, the reported counts and publish replies are compared with plain sets; messages behind a pending write; every schedule with up to 2 (thorough 3) preemptions of subscribing and unsubscribing against publications, a departure, a second publisher and dropping. Non-trivial: a subscription changed or a message was delivered.";
  c.spaces.push_back({"two-clients", [](mc::Ctx &x) { vsched::run(x, opts(0), [&]() { sequences(x, 2, x.tier(4, 6)); }); }});
  c.spaces.push_back({"three-clients", [](mc::Ctx &x) { vsched::run(x, opts(0), [&]() { sequences(x, 3, x.tier(3, 4)); }); }});
  c.spaces.push_back({"behind-write", [](mc::Ctx &x) { mc::scratch(); vsched::run(x, opts(0), [&]() { behindWrite(x); }); }});
  c.spaces.push_back({"concurrent", [](mc::Ctx &x) { int k = x.choose(8, "kind"); vsched::run(x, opts(2, true), [&]() { concurrent(x, k, x.tier(k < 1 ? 2 : 1, 2)); }); }});
  c.spaces.push_back({"concurrent-deep", [](mc::Ctx &x) { int k = x.choose(8, "kind"); vsched::run(x, opts(3, true), [&]() { concurrent(x, k, 1); }); }, true});
  c.spaces.push_back({"dropping", [](mc::Ctx &x) { int k = x.choose(2, "kind"); vsched::run(x, opts(x.tier(2, 3), true), [&]() { dropping(x, k); }); }});
  return mc::main(argc, argv, c);
}
