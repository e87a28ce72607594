//@ sources: Timekeeper.cc Utils.cc
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "Timekeeper.hh"
#include "Utils.hh"
#include "utils/ClockWrapper.hh"
#include "utils/Macros.hh"
#include <thread>
using namespace quarkdb;
static vsched::Options opts(int pre) { vsched::Options o; o.preemptions = pre; return o; }
static std::string n(uint64_t v) { return std::to_string(v); }
static const uint64_t kMs = 1000000;
static void keeper(mc::Ctx &x, int depth) {
  static const uint64_t vals[] = {0, 1, 100, 1000, 1500, (uint64_t)1 << 62};
  static const uint64_t steps[] = {1, kMs - 1, kMs, 1234567, 500 * kMs, 86400000ull * kMs};
  uint64_t start = vals[x.choose(6, "startup")], fixed = start, anchor = vsched::now();
  Timekeeper tk(start); uint64_t last = start; bool moved = false;
  auto read = [&]() { uint64_t want = fixed + (vsched::now() - anchor) / kMs, got = tk.getDynamicTime(); x.transition(); x.check(got == want, "estimate", "estimate " + n(got) + ", expected " + n(want)); if(!moved) x.check(got >= last, "backwards", "estimate went from " + n(last) + " to " + n(got)); moved = false; last = got; x.outcome(n(got)); };
  read();
  for(int d = 0; d < depth; d++) {
    int op = x.choose(19, "operation"); if(op == 18) return;
    if(op < 6) { uint64_t v = vals[op]; bool threw = false; try { tk.synchronize(v); } catch(FatalException&) { threw = true; } x.log("  synchronize ", v, threw ? " refused" : ""); x.check(threw == (v < fixed), "refusal", "synchronising with " + n(v) + " over " + n(fixed)); if(!threw) { fixed = v; anchor = vsched::now(); moved = true; x.nontrivial(); } }
    else if(op < 12) { uint64_t v = vals[op - 6]; x.log("  reset ", v); tk.reset(v); fixed = v; anchor = vsched::now(); moved = true; }
    else { x.log("  ", steps[op - 12], " ns pass"); vsched::advance(steps[op - 12]); }
    read();
  }
}
template<class C> static void wrapper(mc::Ctx &x, int depth) {
  using D = typename C::duration; bool fake = x.choose(2, "fake"); C c(fake); typename C::time_point want{}; x.check(c.fake() == fake, "fake", "fake()");
  for(int d = 0; d < depth; d++) {
    if(fake) x.check(c.now() == want && c.now() == c.now(), "fake-now", "a fake clock shows " + n(c.now().time_since_epoch().count()) + ", expected " + n(want.time_since_epoch().count()));
    else { auto a = c.now(); vsched::advance(5 * kMs); auto b = c.now(); x.check(b - a == std::chrono::milliseconds(5), "real-now", "a real clock does not follow time"); }
    int op = x.choose(10, "operation"); x.transition(); if(op == 9) return;
    static const int64_t ns[] = {0, 1, 999999999, 3600000000000ll};
    if(op < 4) { c.advance(std::chrono::nanoseconds(ns[op])); want += std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns[op])); x.nontrivial(); }
    else if(op == 4) { c.advance(std::chrono::milliseconds(7)); want += std::chrono::milliseconds(7); }
    else if(op == 5) { c.advance(std::chrono::hours(24 * 365)); want += std::chrono::hours(24 * 365); }
    else if(op < 8) { typename C::time_point t{std::chrono::seconds(op == 6 ? 1 : 1700000000)}; c.set(t); if(!C::is_steady) want = t; x.nontrivial(); }
    else vsched::advance(17 * kMs);
    x.outcome(n(want.time_since_epoch().count()));
  }
}
// readers and a synchroniser at once: estimates follow one order of the updates
static void concurrent(mc::Ctx &x) {
  bool viaReset = x.choose(2, "reset"); Timekeeper tk(100); uint64_t t0 = vsched::now(); uint64_t seen[2][2], at[2][2];
  std::thread w([&]() { if(viaReset) tk.reset(5000); else { tk.synchronize(1000); tk.synchronize(5000); } });
  std::thread r([&]() { for(int i = 0; i < 2; i++) { seen[1][i] = tk.getDynamicTime(); at[1][i] = vsched::now(); } });
  for(int i = 0; i < 2; i++) { vsched::advance(3 * kMs); seen[0][i] = tk.getDynamicTime(); at[0][i] = vsched::now(); }
  w.join(); r.join(); x.nontrivial(); uint64_t total = (vsched::now() - t0) / kMs;
  for(int k = 0; k < 2; k++) { for(int i = 0; i < 2; i++) { uint64_t v = seen[k][i]; bool ok = false; for(uint64_t base : {100, 1000, 5000}) if(v >= base && v <= base + total && (base != 1000 || !viaReset)) ok = true; x.check(ok, "concurrent", "estimate " + n(v)); } x.check(seen[k][1] >= seen[k][0], "backwards", "estimates " + n(seen[k][0]) + " then " + n(seen[k][1])); }
  uint64_t fin = tk.getDynamicTime(); x.check(fin >= 5000 && fin <= 5000 + total, "concurrent", "final estimate " + n(fin)); x.outcome(n(seen[0][0]) + n(seen[0][1]) + n(seen[1][0]) + n(seen[1][1]));
}
static void fakeConcurrent(mc::Ctx &x) {
  SteadyClock c(true); SteadyClock::time_point a, b; std::thread t1([&]() { c.advance(std::chrono::seconds(1)); }), t2([&]() { c.advance(std::chrono::seconds(2)); });
  a = c.now(); b = c.now(); t1.join(); t2.join(); x.nontrivial(); x.check(a <= b && c.now().time_since_epoch() == std::chrono::seconds(3), "lost-advance", "the clock shows " + n(c.now().time_since_epoch().count()) + " after advancing by three seconds"); x.outcome(n(a.time_since_epoch().count()) + "," + n(b.time_since_epoch().count()));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C40";
  c.rule = "Every sequence of synchronisations, resets (6 values, older and newer) and passages of time (6 lengths) up to depth 4 (thorough 5) of the real Timekeeper under virtual time, compared with last value + elapsed milliseconds; all sequences on real and fake ClockWrapper of both kinds up to depth 4 (thorough 6); all schedules with up to 5 (thorough 7) preemptions of readers against synchronisation, resets and concurrent advances, with data-race detection. Non-trivial: a clock was set, moved or read concurrently.";
  c.spaces.push_back({"timekeeper", [](mc::Ctx &x) { vsched::run(x, opts(0), [&]() { keeper(x, x.tier(4, 5)); }); }});
  c.spaces.push_back({"steady", [](mc::Ctx &x) { vsched::run(x, opts(0), [&]() { wrapper<SteadyClock>(x, x.tier(4, 6)); }); }});
  c.spaces.push_back({"system", [](mc::Ctx &x) { vsched::run(x, opts(0), [&]() { wrapper<SystemClock>(x, x.tier(4, 6)); }); }});
  c.spaces.push_back({"concurrent", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(5, 7)), [&]() { concurrent(x); }); }});
  c.spaces.push_back({"fake-concurrent", [](mc::Ctx &x) { vsched::run(x, opts(x.tier(6, 9)), [&]() { fakeConcurrent(x); }); }});
  return mc::main(argc, argv, c);
}
