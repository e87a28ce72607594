//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "fakedb.hh"
#include "kv.hh"
#include "Utils.hh"
#include "utils/RequestCounter.hh"
#include "utils/Statistics.hh"
#include "redis/Transaction.hh"
#include <thread>
using namespace quarkdb;
static std::string S(long n) { return std::to_string(n); }
static vsched::Options opts(int pre, std::vector<int> cpus, bool timers = true) { vsched::Options o; o.preemptions = pre; o.cpus = cpus; o.timers = timers; o.spin = 1000000; return o; }
struct Sum { long v[4] = {0, 0, 0, 0}; std::string show() const { return S(v[0]) + "/" + S(v[1]) + "/" + S(v[2]) + "/" + S(v[3]); } bool operator==(const Sum &o) const { return !memcmp(v, o.v, sizeof v); } };
static Sum sum(const Statistics &s) { Sum r; r.v[0] = s.reads; r.v[1] = s.writes; r.v[2] = s.txread; r.v[3] = s.txreadwrite; return r; }
static Sum parse(mc::Ctx &x, const std::vector<std::string> &v) { static const char *n[] = {"READS ", "WRITES ", "TXREAD ", "TXREADWRITE "}; Sum r; x.check(v.size() == 4, "serialize", S(v.size()) + " figures"); for(int i = 0; i < 4; i++) { x.check(v[i].compare(0, strlen(n[i]), n[i]) == 0, "serialize", v[i]); r.v[i] = atol(v[i].c_str() + strlen(n[i])); } return r; }
// one accounting step of kind k and what it must add
static void account(RequestCounter &rc, int k, Sum &want) {
  using kv::req;
  switch(k) {
    case 0: rc.account(req({"GET", "a"})); want.v[0]++; break; case 1: rc.account(req({"SET", "a", "b"})); want.v[1]++; break; case 2: rc.account(req({"PING"})); break;
    case 3: { Transaction t; t.emplace_back("GET", "a"); t.emplace_back("HGET", "a", "b"); rc.account(t); want.v[0] += 2; want.v[2]++; break; }
    case 4: { Transaction t; t.emplace_back("SET", "a", "b"); t.emplace_back("GET", "a"); t.emplace_back("SET", "a", "c"); rc.account(t); want.v[0]++; want.v[1] += 2; want.v[3]++; break; }
    case 5: { Transaction t; t.emplace_back("SET", "a", "b"); t.setPhantom(true); rc.account(t); want.v[1]++; want.v[3]++; break; }
  }
}
// every sequence of accounted requests, queries and passing intervals
static void sequence(mc::Ctx &x, int depth) {
  RequestCounter rc(std::chrono::seconds(10)); vsched::settle(); Sum want; std::vector<Sum> history = {Sum()}; Sum since; uint64_t t0 = vsched::now();
  auto check = [&]() {
    x.check(sum(rc.getOverallStats()) == want, "overall", "overall " + sum(rc.getOverallStats()).show() + ", accounted " + want.show());
    std::vector<std::string> heads; std::vector<std::vector<std::string>> data; heads.push_back("junk"); rc.fillHistorical(heads, data);
    x.check(heads.size() == data.size() && heads.size() == history.size() + 1 && heads[0] == "TOTALS", "history", S(heads.size()) + " headers, expected " + S(history.size() + 1)); x.check(parse(x, data[0]) == want, "totals", "totals " + parse(x, data[0]).show() + ", accounted " + want.show());
    long last = -1; for(size_t i = 0; i < history.size(); i++) { Sum got = parse(x, data[i + 1]); x.check(got == history[history.size() - 1 - i], "interval", "interval " + S(i) + " shows " + got.show() + ", accounted " + history[history.size() - 1 - i].show()); x.check(StringUtils::startsWith(heads[i + 1], "TIMESTAMP "), "history", heads[i + 1]); long ts = atol(heads[i + 1].c_str() + 10); x.check(last < 0 || last - ts == 10, "history-order", "timestamps " + S(last) + " then " + S(ts)); last = ts; }
  };
  for(int d = 0; d < depth; d++) {
    int op = x.choose(9, "step"); x.transition(); if(op == 8) break;
    if(op < 6) { Sum before = want; account(rc, op, want); for(int i = 0; i < 4; i++) since.v[i] += want.v[i] - before.v[i]; x.nontrivial(); }
    else { int k = op == 6 ? 1 : 3; for(int i = 0; i < k; i++) { std::this_thread::sleep_for(std::chrono::seconds(10)); vsched::settle(); history.push_back(since); since = Sum(); } }
    check(); x.outcome(want.show());
  }
  (void)t0;
}
// accounting from several threads on changing processors, against the reporting thread and queries
static void concurrent(mc::Ctx &x, int threads, int each) {
  Sum want; long totalHist = 0; static const int kinds[] = {0, 4, 1};
  { RequestCounter rc(std::chrono::seconds(10)); std::vector<std::thread> th; std::vector<Sum> mine(threads);
    for(int i = 0; i < threads; i++) th.emplace_back([&, i]() { for(int j = 0; j < each; j++) account(rc, kinds[(i + j) % 3], mine[i]); });
    Sum mid = sum(rc.getOverallStats()), mid2 = sum(rc.getOverallStats()); for(int i = 0; i < 4; i++) x.check(mid.v[i] <= mid2.v[i], "backwards", "counters went from " + mid.show() + " to " + mid2.show());
    for(auto &e : th) e.join(); for(auto &m : mine) for(int i = 0; i < 4; i++) want.v[i] += m.v[i];
    for(int i = 0; i < 4; i++) x.check(mid2.v[i] <= want.v[i], "invented", "counters showed " + mid2.show() + " of " + want.show());
    x.check(sum(rc.getOverallStats()) == want, "overall", "overall " + sum(rc.getOverallStats()).show() + ", accounted " + want.show());
    for(int i = 0; i < 5; i++) { std::this_thread::sleep_for(std::chrono::seconds(11)); vsched::settle(); } std::vector<std::string> heads; std::vector<std::vector<std::string>> data; rc.fillHistorical(heads, data); Sum all; for(size_t i = 1; i < data.size(); i++) { Sum p = parse(x, data[i]); for(int k = 0; k < 4; k++) all.v[k] += p.v[k]; if(p.v[0] + p.v[1]) totalHist++; }
    x.check(all == want, "intervals", "the intervals sum up to " + all.show() + ", accounted " + want.show());
  }
  x.nontrivial(); x.transition(); x.outcome(S(totalHist));
}
// the aggregator alone: differences add up, whoever asks
static void aggregator(mc::Ctx &x, int depth) {
  StatAggregator a; Sum want, seen;
  for(int d = 0; d < depth; d++) { int op = x.choose(7, "step"); x.transition(); if(op == 6) break; static const int by[] = {1, 1000000000}; if(op < 4) { int n = by[d % 2]; Statistics *s = a.getStats(); (op == 0 ? s->reads : op == 1 ? s->writes : op == 2 ? s->txread : s->txreadwrite) += n; want.v[op] += n; x.nontrivial(); } else if(op == 4) { Sum g = sum(a.getOverallStatsSinceLastTime()); for(int i = 0; i < 4; i++) seen.v[i] += g.v[i]; x.check(seen == want, "since-last", "differences sum up to " + seen.show() + ", accounted " + want.show()); } else x.check(sum(a.getOverallStats()) == want, "overall", sum(a.getOverallStats()).show() + " instead of " + want.show()); x.outcome(want.show()); }
  x.check(sum(a.getOverallStats()) == want, "overall", sum(a.getOverallStats()).show() + " instead of " + want.show());
}
// the history keeps the newest entries only
static void capacity(mc::Ctx &x) {
  int cap = 1 + x.choose(4, "capacity"), pushes = x.choose(9, "pushes"); HistoricalStatistics h(cap); for(int i = 0; i < pushes; i++) { Statistics s; s.reads = i; s.txread = -i; h.push(s, std::chrono::system_clock::time_point(std::chrono::seconds(1000 + i))); }
  std::vector<std::string> heads; std::vector<std::vector<std::string>> data; h.serialize(heads, data); int n = std::min(cap, pushes); x.check((int)heads.size() == n && (int)data.size() == n, "capacity", S(heads.size()) + " intervals kept of " + S(pushes) + ", capacity " + S(cap));
  for(int i = 0; i < n; i++) { x.check(heads[i] == "TIMESTAMP " + S(1000 + pushes - 1 - i), "history-order", heads[i]); Sum p = parse(x, data[i]); x.check(p.v[0] == pushes - 1 - i && p.v[2] == -(pushes - 1 - i), "history-order", p.show()); } if(pushes > cap) x.nontrivial(); x.outcome(S(n)); x.transition();
}
// requests through the real dispatcher are counted, each once
static void served(mc::Ctx &x, int depth) {
  fakedb::wipeAll(); StateMachine sm(mc::scratch() + "/sm"); Sum want; RequestCounter &rc = sm.getRequestCounter(); Publisher pub; RedisDispatcher disp(sm, pub); long index = 0;
  for(int d = 0; d < depth; d++) { int op = x.choose(5, "request"); x.transition(); if(op == 4) break; x.nontrivial();
    if(op == 0) { RedisRequest r = kv::req({"GET", "a"}); disp.dispatch(r, 0); want.v[0]++; } else if(op == 1) { RedisRequest r = kv::req({"SET", "a", "b"}); disp.dispatch(r, ++index); want.v[1]++; }
    else { Transaction t; t.emplace_back("GET", "a"); if(op == 3) t.emplace_back("SET", "a", "c"); disp.dispatch(t, op == 3 ? ++index : 0); want.v[0]++; if(op == 3) { want.v[1]++; want.v[3]++; } else want.v[2]++; }
  }
  Sum got = sum(rc.getOverallStats()); x.outcome(got.show()); x.log("  counted ", got.show(), " sent ", want.show());
  x.check(got == want, "served", "counted " + got.show() + ", served " + want.show());
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C41";
  c.rule = "Every sequence of up to 4 (thorough 5) accounting steps (read, write, control, read-only, mixed and phantom transactions), queries and 1 or 3 intervals passing, with sched_getcpu answering 0, 1 or an unknown core; the aggregator alone to depth 5 (thorough 7) with large increments; every schedule with up to 1 (thorough 2) preemptions of 2 accounting threads on changing cores, a querying thread and the reporting thread; all capacities 1-4 with up to 8 pushes. Overall figures, totals, intervals, their order and timestamps are compared with the sums of what was accounted; data races are reported. Non-trivial: something was accounted.";
  c.spaces.push_back({"sequence", [](mc::Ctx &x) { vsched::run(x, opts(0, {0, 1}), [&]() { sequence(x, x.tier(4, 5)); }); }});
  c.spaces.push_back({"aggregator", [](mc::Ctx &x) { vsched::run(x, opts(0, {0, 1, -1}), [&]() { aggregator(x, x.tier(5, 7)); }); }});
  c.spaces.push_back({"concurrent", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(1, 2), {0, 1}), [&]() { concurrent(x, 2, 1); }); }});
  c.spaces.push_back({"concurrent-migrating", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(1, 2), {0, 1, 2}), [&]() { concurrent(x, 1, 2); }); }});
  c.spaces.push_back({"capacity", capacity});
  c.spaces.push_back({"served", [](mc::Ctx &x) { auto o = opts(0, {0, 1}); o.orders = false; o.races = false; o.cpus = {0}; vsched::run(x, o, [&]() { served(x, x.tier(4, 6)); }); }});
  return mc::main(argc, argv, c);
}
