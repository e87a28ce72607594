//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "fakedb.hh"
#include "conn.hh"
#include "Configuration.hh"
#include "Shard.hh"
#include "ShardDirectory.hh"
#include "utils/CoreLocalArray.hh"
#include "utils/InFlightTracker.hh"
#include "utils/Macros.hh"
#include <sys/stat.h>
#include <thread>
using namespace quarkdb;
static std::string S(long n) { return std::to_string(n); }
static vsched::Options opts(int pre, std::vector<int> cpus, bool orders = true) { vsched::Options o; o.preemptions = pre; o.cpus = cpus; o.orders = orders; return o; }
// every sequence of registrations, ends and toggles on any processor
static void sequence(mc::Ctx &x, int depth) {
  bool acc = x.choose(2, "accepting"); InFlightTracker t(acc); std::vector<std::unique_ptr<InFlightRegistration>> live; CoreLocalArray<AlignedAtomicInt64_t> arr;
  for(int d = 0; d < depth; d++) {
    int op = x.choose(6, "operation"); if(op == 5) return; x.transition();
    if(op == 0) { std::unique_ptr<InFlightRegistration> r(new InFlightRegistration(t)); x.check(r->ok() == acc, "admission", std::string("a request was ") + (r->ok() ? "admitted" : "refused")); if(r->ok()) { live.push_back(std::move(r)); x.nontrivial(); } }
    else if(op == 1) { if(live.empty()) return; live.pop_back(); }
    else if(op == 2) { if(live.empty()) return; live.erase(live.begin()); }
    else if(op == 3) { acc = !acc; t.setAcceptingRequests(acc); if(!acc && live.empty()) t.spinUntilNoRequestsInFlight(); }
    else { int i = arr.getCoreIndex(); x.check(i >= 0 && i < (int)arr.size(), "core-index", "core index " + S(i) + " of " + S(arr.size())); auto a = arr.access(); x.check(a.second < arr.size() && a.first == arr.accessAtCore(a.second), "core-index", "core " + S(a.second) + " of " + S(arr.size())); }
    x.check(t.getInFlight() == (int64_t)live.size(), "count", "the count is " + S(t.getInFlight()) + " with " + S(live.size()) + " requests running"); x.check(t.isAcceptingRequests() == acc, "accepting", "isAcceptingRequests");
    x.outcome(S(live.size()) + S(acc));
  }
}
// requests against closing and opening again
struct Ghost { int running = 0; bool closed = false; int admitted = 0, refused = 0; };
static void closing(mc::Ctx &x, int workers, int each, bool reopen, bool two) {
  InFlightTracker t; Ghost g; std::string bad; std::vector<std::thread> th;
  auto work = [&](int n) { for(int i = 0; i < n; i++) { InFlightRegistration r(t); if(!r.ok()) { vsched::Quiet q; g.refused++; continue; } { vsched::Quiet q; g.running++; g.admitted++; if(g.closed) bad = "a request was admitted after acceptance was turned off and the wait had returned"; } vsched::point(); { vsched::Quiet q; g.running--; if(g.closed) bad = "a request was still running after the wait had returned"; } } };
  for(int i = 0; i < workers; i++) th.emplace_back(work, each);
  std::thread other; if(two) other = std::thread([&]() { t.setAcceptingRequests(false); t.spinUntilNoRequestsInFlight(); vsched::Quiet q; if(g.running) bad = "the second waiter returned with " + S(g.running) + " requests running"; });
  t.setAcceptingRequests(false); t.spinUntilNoRequestsInFlight();
  { vsched::Quiet q; if(g.running) bad = "the wait returned with " + S(g.running) + " requests running"; g.closed = true; }
  vsched::point(); vsched::point();
  if(two) other.join();
  if(reopen) { { vsched::Quiet q; g.closed = false; } t.setAcceptingRequests(true); { InFlightRegistration r(t); if(!r.ok()) bad = "refused although accepting again"; } }
  for(auto &e : th) e.join();
  { vsched::Quiet q; x.check(bad.empty(), "admitted-late", bad); }
  x.check(t.getInFlight() == 0, "count", "the count ends as " + S(t.getInFlight())); x.check(g.admitted + g.refused == workers * each, "lost", "requests neither admitted nor refused");
  if(g.admitted && g.refused) x.nontrivial(); x.outcome(S(g.admitted) + "/" + S(g.refused)); x.transition();
}
static const std::string &dir() {
  static std::string d; if(d.empty()) { d = mc::scratch() + "/shard"; mkdir(d.c_str(), 0755); mkdir((d + "/current").c_str(), 0755); FILE *f = fopen((d + "/SHARD-ID").c_str(), "w"); fputs("shard", f); fclose(f); f = fopen((d + "/RESILVERING-HISTORY").c_str(), "w"); fputs("GENESIS - 1\n", f); fclose(f); } return d;
}
// a write against the end of a bulkload, through the real shard
static void shard(mc::Ctx &x) {
  fakedb::wipeAll(); dir(); int finals = 1 + x.choose(2, "stops"); (void)finals; std::string reply, freply; bool late = false; std::map<std::string, std::string> atEnd;
  { std::unique_ptr<ShardDirectory> sd; std::unique_ptr<Shard> sh; std::unique_ptr<conn::Client> a, b; { vsched::Quiet q; } 
    sd.reset(new ShardDirectory(dir())); sh.reset(new Shard(sd.get(), {}, Mode::bulkload, RaftTimeouts(std::chrono::milliseconds(1), std::chrono::milliseconds(2), std::chrono::milliseconds(1)), "")); a.reset(new conn::Client("a")); b.reset(new conn::Client("b"));
    std::thread w([&]() { a->feed(sh.get(), resp::encode({"HSET", "h", "f", "v"})); auto v = a->take(); vsched::Quiet q; reply = v.size() == 1 ? v[0].show() : "none"; });
    b->feed(sh.get(), resp::encode({"QUARKDB-BULKLOAD-FINALIZE"})); { auto v = b->take(); freply = v.size() == 1 ? v[0].show() : "none"; } auto atReply = fakedb::contents(dir() + "/current/state-machine");
    w.join(); late = fakedb::contents(dir() + "/current/state-machine") != atReply;
    a->feed(sh.get(), resp::encode({"HSET", "h", "g", "v"})); auto v = a->take(); x.check(v.size() == 1 && v[0].type == '-', "admitted-late", "a write was served after the bulkload was finalised: " + (v.empty() ? "" : v[0].show()));
    (void)atEnd;
  }
  x.check(!late, "admitted-late", "the store changed after the bulkload had been finalised"); x.nontrivial(); x.outcome(reply.substr(0, 40)); x.transition(); x.log("  write: ", reply, "  finalize: ", freply);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C37"; Link::setConnectionLogging(false);
  c.rule = "Every sequence of registrations, ends (newest and oldest first), toggles and core-index queries up to depth 4 (thorough 6), sched_getcpu answering any of -1..2 on 2 cores, counted against the live requests; every schedule with up to 3-4 (thorough 4-5) preemptions and every processor assignment of 2 (thorough 3) workers with 1-2 requests each against closing, a second closer, and opening again: after the wait returns no request runs and none is admitted until reopened; a write through the real Shard in bulkload mode against its finalisation with up to 1 (thorough 2) preemptions. Data races reported. Non-trivial: requests admitted and refused in one execution.";
  c.spaces.push_back({"sequence", [](mc::Ctx &x) { vsched::run(x, opts(0, {0, 1, -1, 2}), [&]() { sequence(x, x.tier(4, 6)); }); }});
  c.spaces.push_back({"closing", [](mc::Ctx &x) { int two = x.choose(2, "closers"); int re = x.choose(2, "reopen"); vsched::run(x, opts(x.tier(3, 4), {0, 1}), [&]() { closing(x, 1 + (two == 0), 1, re, two); }); }});
  c.spaces.push_back({"again", [](mc::Ctx &x) { int re = x.choose(2, "reopen"); vsched::run(x, opts(x.tier(4, 5), {1, -1}), [&]() { closing(x, 1, 2, re, false); }); }});
  c.spaces.push_back({"three", [](mc::Ctx &x) { vsched::run(x, opts(3, {0, 1}), [&]() { closing(x, 3, 1, false, false); }); }, true});
  c.spaces.push_back({"shard", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(1, 2), {}, false), [&]() { shard(x); }); }});
  return mc::main(argc, argv, c);
}
