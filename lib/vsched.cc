// Runtime of the controlled scheduler.  This file is compiled without instrumentation; everything
// else is compiled with -fsanitize=thread and calls the __tsan_* functions defined here.
#include "vsched.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace mc { void dieNow(); extern bool gNoThrow; }

namespace {
typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t uptr;
#ifdef VS_MAXT
constexpr int MAXT = VS_MAXT;
#else
constexpr int MAXT = 40;
#endif
constexpr u64 NEVER = ~0ull;
enum St { Free, Ready, OnMutex, OnRd, OnWr, OnCond, OnJoin, OnFutex, OnSleep, OnOnce, Settling, Draining, Done };
struct VC { u32 c[MAXT]; void join(const VC &o) { for(int i = 0; i < MAXT; i++) if(o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Th {
  sem_t sem; St st; void *obj; unsigned val; u64 deadline; bool timed, signalled; u64 ticket;
  VC vc; void *(*fn)(void*); void *arg, *ret; pthread_t real; bool detached, joined; const char *what; void *where;
};
struct Sync { void *addr; u64 epoch; int owner, depth, readers; u32 rd[MAXT]; VC vc; };
Th T[MAXT]; int NT = 0;
thread_local int me = -1;
thread_local int quiet = 0;
bool on = false, gRaces = false;
int budget = 0, cur = 0, streak = 0; long steps = 0, maxSteps = 0, yields = 0; int spinLimit = 60; bool orders = true, timers = true, early = true, atomics = true;
int calm = 0; u64 vnow = 0, ticket = 0, epoch = 0, staleAt = 0; int stale = 0, rot = 0;
mc::Ctx *ctx = nullptr; int nprocs = 2; std::vector<int> cpus;
constexpr u64 kMono = 1000000000000000ull, kReal = 1700000000000000000ull;
char *stacks = nullptr; constexpr size_t STK = 512 * 1024;

// ---- tables, valid for one epoch (execution)
constexpr int SB = 14; Sync *syncs = nullptr;
Sync &sync(void *a) {
  u64 h = ((uptr)a >> 2) * 0x9e3779b97f4a7c15ull >> (64 - SB);
  for(int i = 0; i < (1 << SB); i++, h = (h + 1) & ((1 << SB) - 1)) {
    Sync &s = syncs[h];
    if(s.epoch == epoch && s.addr == a) return s;
    if(s.epoch != epoch) { memset(&s, 0, sizeof s); s.addr = a; s.epoch = epoch; s.owner = -1; return s; }
  }
  fprintf(stderr, "vsched: sync table full\n"); abort();
}
struct Rec { u32 clk; uint8_t tid, mask, write; uptr pc; };
struct Cell { uptr gran; u64 epoch; int n; Rec r[8]; };
constexpr int CB = 17; Cell *cells = nullptr; int cellsUsed = 0;
Cell *cell(uptr g, bool make) {
  u64 h = (g * 0x9e3779b97f4a7c15ull) >> (64 - CB);
  for(int i = 0; i < 4096; i++, h = (h + 1) & ((1 << CB) - 1)) {
    Cell &c = cells[h];
    if(c.epoch == epoch && c.gran == g) return &c;
    if(c.epoch != epoch) { if(!make) return nullptr; if(cellsUsed > (1 << CB) * 3 / 4) return nullptr; cellsUsed++; c.epoch = epoch; c.gran = g; c.n = 0; return &c; }
  }
  return nullptr;
}

// ---- real functions
#define REAL(ret, name, ...) ret (*r_##name)(__VA_ARGS__) = nullptr
REAL(int, pthread_mutex_lock, pthread_mutex_t*); REAL(int, pthread_mutex_trylock, pthread_mutex_t*); REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*); REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*);
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
REAL(int, pthread_cond_signal, pthread_cond_t*); REAL(int, pthread_cond_broadcast, pthread_cond_t*);
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void*(*)(void*), void*); REAL(int, pthread_join, pthread_t, void**); REAL(int, pthread_detach, pthread_t);
REAL(int, pthread_once, pthread_once_t*, void(*)()); REAL(int, nanosleep, const timespec*, timespec*); REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*);
REAL(int, clock_gettime, clockid_t, timespec*); REAL(int, sched_yield, void); REAL(int, usleep, useconds_t);
REAL(int, __cxa_guard_acquire, u64*); REAL(void, __cxa_guard_release, u64*); REAL(void, __cxa_guard_abort, u64*);
bool ready = false;
void init() {
  if(ready) return;
#define G(n) *(void**)&r_##n = dlsym(RTLD_NEXT, #n)
  G(pthread_mutex_lock); G(pthread_mutex_trylock); G(pthread_mutex_unlock); G(pthread_rwlock_rdlock); G(pthread_rwlock_wrlock); G(pthread_rwlock_unlock); G(pthread_rwlock_tryrdlock); G(pthread_rwlock_trywrlock);
  G(pthread_cond_wait); G(pthread_cond_timedwait); G(pthread_cond_clockwait); G(pthread_cond_signal); G(pthread_cond_broadcast);
  G(pthread_create); G(pthread_join); G(pthread_detach); G(pthread_once); G(nanosleep); G(clock_nanosleep); G(clock_gettime); G(sched_yield); G(usleep);
  G(__cxa_guard_acquire); G(__cxa_guard_release); G(__cxa_guard_abort);
  ready = true;
}
inline bool ctl() { return on && me >= 0; }
inline bool ctlq() { return on && me >= 0 && !quiet; }

struct Guard { Guard() { quiet++; } ~Guard() { quiet--; } };

void pcName(uptr pc, char *out, size_t n) {
  Dl_info i; link_map *lm = nullptr; snprintf(out, n, "?");
  if(!dladdr1((void*)pc, &i, (void**)&lm, RTLD_DL_LINKMAP) || !i.dli_fname) return;
  char cmd[512]; snprintf(cmd, sizeof cmd, "addr2line -f -C -e '%s' 0x%lx 2>/dev/null", i.dli_fname[0] == '/' ? i.dli_fname : "/proc/self/exe", (unsigned long)(pc - 1 - (lm ? lm->l_addr : 0)));
  if(i.dli_fname[0] != '/') { char self[256]; ssize_t k = readlink("/proc/self/exe", self, 255); if(k > 0) { self[k] = 0; snprintf(cmd, sizeof cmd, "addr2line -f -C -e '%s' 0x%lx 2>/dev/null", self, (unsigned long)(pc - 1 - (lm ? lm->l_addr : 0))); } }
  FILE *f = popen(cmd, "r"); if(!f) return;
  char fn[300] = "", loc[300] = "";
  if(fgets(fn, sizeof fn, f)) fn[strcspn(fn, "\n")] = 0;
  if(fgets(loc, sizeof loc, f)) loc[strcspn(loc, "\n")] = 0;
  pclose(f);
  char *paren = strchr(fn, '('); if(paren) *paren = 0;
  char *sl = strrchr(loc, '/'); snprintf(out, n, "%s@%s", fn, sl ? sl + 1 : loc);
}
[[noreturn]] void die(const char *sig, const char *fmt, ...) {
  quiet++; on = false;
  static char m[6000]; va_list ap; va_start(ap, fmt); int k = vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  if(k > 4000) k = 4000;
  static const char *names[] = {"free", "ready", "waiting for a mutex", "waiting for a shared lock", "waiting for an exclusive lock", "waiting for a condition", "joining a thread", "waiting for a future", "sleeping", "waiting for an initialisation", "settling", "finished, waiting for its threads", "ended"};
  for(int i = 0; i < NT; i++) if(T[i].st != Done && k < 5500) { char w[400] = ""; if(T[i].where) pcName((uptr)T[i].where, w, sizeof w); k += snprintf(m + k, sizeof(m) - k, "\n  thread %d%s: %s%s%s%s", i, i == me ? " (running)" : "", names[T[i].st], T[i].deadline != NEVER ? " (with timeout)" : "", w[0] ? " at " : "", w); }
  ctx->failSoft(sig, m);
  mc::dieNow(); _exit(3);
}

// ---- scheduling
bool enabled(int i) {
  Th &t = T[i];
  switch(t.st) {
    case Ready: return true;
    case OnMutex: { Sync &s = sync(t.obj); return s.owner < 0; }
    case OnRd: { Sync &s = sync(t.obj); return s.owner < 0; }
    case OnWr: { Sync &s = sync(t.obj); return s.owner < 0 && s.readers == 0; }
    case OnCond: return t.signalled;
    case OnJoin: return T[(int)(uptr)t.obj].st == Done;
    case OnFutex: return *(volatile unsigned*)t.obj != t.val;
    case OnOnce: return *(volatile char*)t.obj != 1;
    default: return false;
  }
}
void handTo(int n) {
  int self = me; bool dead = T[self].st == Done;
  if(n == self) return;
  cur = n; streak = 0;
  sem_post(&T[n].sem);
  if(!dead) while(sem_wait(&T[self].sem) != 0) {}
}
// The calling thread is at a scheduling point (its state says whether it can go on).
void schedule(bool forced = false) {
  int self = me;
  if(++steps > maxSteps) die("hang", "the threads do not finish: more than %ld scheduling points", maxSteps);
  while(true) {
    int en[MAXT], n = 0; bool curOn = enabled(self);
    for(int i = 0; i < NT; i++) if(i != self && enabled(i)) en[n++] = i;
    int timer = -1; for(int i = 0; i < NT; i++) if(T[i].st != Done && T[i].st != Free && T[i].st != Ready && T[i].deadline != NEVER && !enabled(i) && (timer < 0 || T[i].deadline < T[timer].deadline)) timer = i;
    if(timer >= 0 && T[timer].deadline <= vnow) {         // due already: it is enabled
      T[timer].timed = true; T[timer].st = Ready; T[timer].deadline = NEVER; continue;
    }
    if(!curOn && n == 0) {
      for(int i = 0; i < NT; i++) if(T[i].st == Settling) { T[i].st = Ready; handTo(i); return; }
      if(timer >= 0) { vnow = T[timer].deadline; continue; }
      bool drain = true; for(int i = 1; i < NT; i++) if(T[i].st != Done) drain = false;
      if(drain && T[0].st == Draining) { T[0].st = Ready; handTo(0); return; }
      die("deadlock", "no thread can continue");
    }
    int opt[MAXT + 2], k = 0;
    int lim = stale > 20 && staleAt == vnow ? 60 : spinLimit; bool mustYield = forced || streak > lim + (spinLimit > 60 ? (int)(yields * 13 % 37) : 0); if(mustYield) { yields++; if(staleAt != vnow) { staleAt = vnow; stale = 0; } stale++; }   // not always at the same place of a loop
    if(curOn && !(mustYield && n > 0)) opt[k++] = self;
    if(curOn && mustYield && timer >= 0 && (n == 0 || stale > 200)) {  vnow = T[timer].deadline; streak = 0; forced = false; continue; }
    bool free = k == 0;
    if(free && mustYield && curOn) {                        // fair rotation: the next thread after this one
      int after = stale > 20 ? rot : self, best = en[0]; for(int i = 0; i < n; i++) if(en[i] > after) { best = en[i]; break; }
      rot = best;      // one that waits busily for long lets each of the others run in turn
      opt[k++] = best;
    }
    else if(free && (!orders || calm)) opt[k++] = en[0];
    else if(free || (budget > 0 && !calm)) for(int i = 0; i < n; i++) opt[k++] = en[i];
    bool tm = timer >= 0 && budget > 0 && !calm && early;
    if(tm) opt[k++] = -1;
    int c = k == 1 ? 0 : ctx->choose(k);
    if(opt[c] == -1) { budget--; vnow = T[timer].deadline; T[timer].timed = true; T[timer].st = Ready; T[timer].deadline = NEVER; handTo(timer); return; }
    int next = opt[c];
    if(!free && c > 0) budget--;
    if(ctx->tracing() && next != self) { char b[80]; snprintf(b, sizeof b, "  [thread %d %s; thread %d continues]", self, T[self].st == Done ? "ended" : curOn ? "preempted" : "blocked", next); ctx->logLine(b); }
    if(next == self) { streak++; T[self].st = Ready; return; }
    handTo(next); return;
  }
}
inline void tick() { T[me].vc.c[me]++; }
void pt(void *where) { Guard g; T[me].where = where; T[me].st = Ready; schedule(); T[me].where = nullptr; }
// blocks until enabled or timed out; returns true when timed out
bool block(St st, void *obj, unsigned val, u64 deadline, void *where) {
  Th &t = T[me]; t.st = st; t.obj = obj; t.val = val; t.deadline = deadline; t.timed = false; t.where = where;
  schedule();
  bool timed = t.timed; t.timed = false; t.deadline = NEVER; t.where = nullptr;
  if(!timed) t.st = Ready;
  t.st = Ready;
  return timed;
}
void lockMutex(void *m, bool recursive, void *where) {
  Sync *s = &sync(m);
  if(s->owner == me && recursive) { s->depth++; return; }
  while(true) {
    s = &sync(m);
    if(s->owner < 0) break;
    block(OnMutex, m, 0, NEVER, where);
  }
  s->owner = me; s->depth = 1; T[me].vc.join(s->vc);
}
void unlockMutex(void *m) {
  Sync &s = sync(m);
  if(s.owner != me) { if(s.owner < 0) return; die("unlock", "a mutex is unlocked by a thread that does not hold it"); }
  if(--s.depth > 0) return;
  s.owner = -1; s.vc.join(T[me].vc); tick();
}
int condWait(void *c, pthread_mutex_t *m, u64 deadline, void *where) {
  if(!timers) deadline = NEVER; Guard g; Sync &ms = sync(m); int depth = ms.depth; ms.depth = 1; unlockMutex(m);
  Th &t = T[me]; t.signalled = false; t.ticket = ++ticket;
  bool timed = block(OnCond, c, 0, deadline, where);
  t.signalled = false;
  T[me].vc.join(sync(c).vc);
  lockMutex(m, false, where); sync(m).depth = depth;
  return timed ? ETIMEDOUT : 0;
}
u64 ns(const timespec *t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
u64 toVirtual(clockid_t c, const timespec *t) { if((long)t->tv_sec < 0) return 0; if(t->tv_sec > 9000000000ll) return NEVER; u64 v = ns(t), b = c == CLOCK_REALTIME ? kReal : kMono; return v <= b ? 0 : v - b; }
void *trampoline(void *p) {
  int i = (int)(uptr)p; me = i; quiet = 1;
  while(sem_wait(&T[i].sem) != 0) {}
  quiet = 0; void *r = T[i].fn(T[i].arg); quiet = 1;
  T[i].ret = r; T[i].st = Done; tick(); 
  // thread-local destructors still run after this; they are not scheduled
  schedule();
  return r;
}
int indexOf(pthread_t t) { for(int i = 1; i < NT; i++) if(T[i].real == t && !T[i].joined) return i; return -1; }

// ---- data races
void reportRace(const Rec &a, bool w, uptr pc, uptr addr) {
  Guard g; char x[400], y[400]; pcName(a.pc, x, sizeof x); pcName(pc, y, sizeof y);
  if(getenv("VSCHED_ADDR")) fprintf(stderr, "race at %lx\n", (unsigned long)addr);
  char fx[400], fy[400]; snprintf(fx, 400, "%s", x); snprintf(fy, 400, "%s", y); fx[strcspn(fx, "@")] = 0; fy[strcspn(fy, "@")] = 0;
  char sig[400]; bool sw = strcmp(fx, fy) > 0; snprintf(sig, sizeof sig, "race:%.180s|%.180s", sw ? fy : fx, sw ? fx : fy);
  static char q[1000]; snprintf(q, sizeof q, "data race: %s by thread %d in %s is not ordered with %s by thread %d in %s (address %s+%ld)", a.write ? "write" : "read", a.tid, x, w ? "write" : "read", me, y, addr >= (uptr)stacks && addr < (uptr)stacks + STK * MAXT ? "stack" : "heap", addr >= (uptr)stacks && addr < (uptr)stacks + STK * MAXT ? (long)((addr - (uptr)stacks) / STK) : (long)addr);
  die(sig, "%s", q);
}
void access1(uptr g, uint8_t mask, bool w, uptr pc, uptr addr) {
  Cell *c = cell(g, true); if(!c) return;
  const VC &vc = T[me].vc; u32 clk = vc.c[me]; int slot = -1, old = -1;
  for(int i = 0; i < c->n; i++) {
    Rec &r = c->r[i];
    if(r.tid == me) { if(r.mask == mask && (r.write || !w) && r.clk == clk) return; if(r.mask == mask && r.write == w) slot = i; continue; }
    if((r.mask & mask) && (r.write || w)) { if(r.clk > vc.c[r.tid]) reportRace(r, w, pc, addr); }
    if(r.clk <= vc.c[r.tid] && (r.mask & ~mask) == 0 && w) old = i;    // ordered before and covered by this write
  }
  if(slot < 0) slot = old;
  if(slot < 0) { if(c->n < 8) slot = c->n++; else { slot = 0; for(int i = 1; i < 8; i++) if(c->r[i].clk < c->r[slot].clk) slot = i; } }
  c->r[slot] = Rec{clk, (uint8_t)me, mask, (uint8_t)w, pc};
}
void accessRange(void *p, size_t n, bool w, void *pc) {
  if(!ctlq() || !gRaces || n == 0) return;
  Guard gd; uptr a = (uptr)p, e = a + n; if(n > 4096) e = a + 4096;
  while(a < e) { uptr g = a >> 3; unsigned lo = a & 7, hi = (e - (g << 3)) < 8 ? (unsigned)(e - (g << 3)) : 8; access1(g, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), w, (uptr)pc, a); a = (g + 1) << 3; }
}
void forget(void *p, size_t n) { for(uptr g = (uptr)p >> 3; g <= ((uptr)p + n - 1) >> 3; g++) { Cell *c = cell(g, false); if(c) c->n = 0; } }
void acq(void *a) { T[me].vc.join(sync(a).vc); }
void rel(void *a) { sync(a).vc.join(T[me].vc); tick(); }
}

namespace vsched {
Calm::Calm() { calm++; } Calm::~Calm() { calm--; }
Quiet::Quiet() { quiet++; } Quiet::~Quiet() { quiet--; }
bool active() { return ctl(); }
int self() { return me; }
uint64_t now() { return vnow; }
void advance(uint64_t n) { vnow += n; if(ctlq()) { Guard g; T[me].st = Ready; schedule(); } }
void point(const char *) { if(ctlq()) pt(__builtin_return_address(0)); }
void settle() { if(!ctlq()) return; Guard g; T[me].st = Settling; T[me].obj = nullptr; T[me].deadline = NEVER; schedule(); T[me].st = Ready; }
void run(mc::Ctx &x, const Options &o, const std::function<void()> &body) {
  init();
  if(!syncs) {
    syncs = (Sync*)mmap(nullptr, sizeof(Sync) << SB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = (Cell*)mmap(nullptr, sizeof(Cell) << CB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stacks = (char*)mmap(nullptr, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    for(int i = 0; i < MAXT; i++) sem_init(&T[i].sem, 0, 0);
    pthread_t t; r_pthread_create(&t, nullptr, [](void*) -> void* { return nullptr; }, nullptr); r_pthread_join(t, nullptr);   // from now on the process counts as multi-threaded
  }
  epoch++; cellsUsed = 0; NT = 1; memset(&T[0].vc, 0, sizeof(VC)); T[0].vc.c[0] = 1; T[0].st = Ready; T[0].deadline = NEVER; T[0].joined = false;
  cpus = o.cpus; budget = o.preemptions; maxSteps = o.maxSteps; spinLimit = o.spin; orders = o.orders; timers = o.timers; early = o.early; atomics = o.atomics; gRaces = o.races; steps = 0; yields = 0; stale = 0; staleAt = 0; rot = 0; streak = 0; calm = 0; vnow = 0; ticket = 0; ctx = &x; cur = 0; me = 0; quiet = 0;
  mc::gNoThrow = true; on = true;
  body();
  { Guard g; T[0].st = Draining; T[0].deadline = NEVER; schedule(); }
  on = false; me = -1; mc::gNoThrow = false; x.transition(steps);
  for(int i = 1; i < NT; i++) if(!T[i].joined) { r_pthread_join(T[i].real, nullptr); T[i].joined = true; }
}
}

extern "C" {
void vs_quiet(int d) { quiet += d; }
void vs_point(const char *) { if(ctlq()) pt(__builtin_return_address(0)); }

int pthread_mutex_lock(pthread_mutex_t *m) { if(!ctl()) { init(); return r_pthread_mutex_lock(m); } if(quiet) { lockMutex(m, m->__data.__kind & 1, nullptr); return 0; } Guard g; void *w = __builtin_return_address(0); T[me].where = w; T[me].st = Ready; schedule(); lockMutex(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, w); T[me].where = nullptr; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if(!ctl()) { init(); return r_pthread_mutex_trylock(m); } Guard g; if(quiet == 1) { T[me].st = Ready; schedule(); } Sync &s = sync(m); if(s.owner >= 0 && !(s.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY; lockMutex(m, true, nullptr); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if(!ctl()) { init(); return r_pthread_mutex_unlock(m); } Guard g; unlockMutex(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if(!ctl()) { init(); return r_pthread_rwlock_rdlock(m); }
  Guard g; void *w = __builtin_return_address(0); if(quiet == 1) { T[me].where = w; T[me].st = Ready; schedule(); }
  while(sync(m).owner >= 0) block(OnRd, m, 0, NEVER, w);
  Sync &s = sync(m); s.readers++; s.rd[me]++; T[me].vc.join(s.vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if(!ctl()) { init(); return r_pthread_rwlock_wrlock(m); }
  Guard g; void *w = __builtin_return_address(0); if(quiet == 1) { T[me].where = w; T[me].st = Ready; schedule(); }
  while(sync(m).owner >= 0 || sync(m).readers > 0) block(OnWr, m, 0, NEVER, w);
  Sync &s = sync(m); s.owner = me; T[me].vc.join(s.vc); T[me].vc.join(sync((char*)m + 1).vc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if(!ctl()) { init(); return r_pthread_rwlock_tryrdlock(m); } Guard g; if(sync(m).owner >= 0) return EBUSY; Sync &s = sync(m); s.readers++; s.rd[me]++; T[me].vc.join(s.vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if(!ctl()) { init(); return r_pthread_rwlock_trywrlock(m); } Guard g; Sync &s = sync(m); if(s.owner >= 0 || s.readers) return EBUSY; s.owner = me; T[me].vc.join(s.vc); T[me].vc.join(sync((char*)m + 1).vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if(!ctl()) { init(); return r_pthread_rwlock_unlock(m); }
  Guard g; Sync &s = sync(m);
  if(s.owner == me) { s.owner = -1; s.vc.join(T[me].vc); tick(); }
  else if(s.rd[me]) { s.rd[me]--; s.readers--; Sync &r = sync((char*)m + 1); r.vc.join(T[me].vc); tick(); }
  else die("unlock", "a shared lock is released by a thread that does not hold it");
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if(!ctl()) { init(); return r_pthread_cond_wait(c, m); } return condWait(c, m, NEVER, __builtin_return_address(0)); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { if(!ctl()) { init(); return r_pthread_cond_timedwait(c, m, t); } return condWait(c, m, toVirtual(CLOCK_REALTIME, t), __builtin_return_address(0)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) { if(!ctl()) { init(); return r_pthread_cond_clockwait(c, m, k, t); } return condWait(c, m, toVirtual(k, t), __builtin_return_address(0)); }
int pthread_cond_signal(pthread_cond_t *c) {
  if(!ctl()) { init(); return r_pthread_cond_signal(c); }
  Guard g; if(quiet == 1) { T[me].st = Ready; T[me].where = __builtin_return_address(0); schedule(); }
  rel(c); int w[MAXT], n = 0; for(int i = 0; i < NT; i++) if(T[i].st == OnCond && T[i].obj == c && !T[i].signalled) w[n++] = i;
  if(n) T[w[n == 1 || !orders || calm ? 0 : ctx->choose(n)]].signalled = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if(!ctl()) { init(); return r_pthread_cond_broadcast(c); }
  Guard g; if(quiet == 1) { T[me].st = Ready; T[me].where = __builtin_return_address(0); schedule(); }
  rel(c); for(int i = 0; i < NT; i++) if(T[i].st == OnCond && T[i].obj == c) T[i].signalled = true;
  return 0;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *arg) {
  if(!ctl()) { init(); return r_pthread_create(t, a, f, arg); }
  Guard g; int i = NT;
  if(NT >= MAXT) {      // take the place of a thread that has ended and been joined before this
    for(i = 1; i < MAXT; i++) if(T[i].st == Done && T[i].joined && T[i].vc.c[i] <= T[me].vc.c[i]) break;
    if(i == MAXT) die("threads", "too many threads");
  }
  Th &n = T[i]; n.st = Ready; n.deadline = NEVER; n.fn = f; n.arg = arg; n.detached = n.joined = false; n.where = nullptr; n.signalled = n.timed = false; n.vc = T[me].vc; n.vc.c[i]++; tick();
  while(sem_trywait(&n.sem) == 0) {}
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stacks + STK * i, STK);
  if(i == NT) NT++;
  int rc = r_pthread_create(&n.real, &at, trampoline, (void*)(uptr)i); pthread_attr_destroy(&at);
  if(rc != 0) { fprintf(stderr, "vsched: pthread_create %d\n", rc); abort(); }
  *t = n.real;
  T[me].st = Ready; schedule();
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  if(!ctl()) { init(); return r_pthread_join(t, ret); }
  Guard g; int i = indexOf(t); if(i < 0) return r_pthread_join(t, ret);
  if(T[i].st != Done) block(OnJoin, (void*)(uptr)i, 0, NEVER, __builtin_return_address(0));
  T[me].vc.join(T[i].vc); T[i].joined = true;
  return r_pthread_join(t, ret);
}
int pthread_detach(pthread_t t) { if(!ctl()) { init(); return r_pthread_detach(t); } int i = indexOf(t); if(i < 0) return r_pthread_detach(t); T[i].detached = true; return 0; }
int pthread_once(pthread_once_t *o, void (*f)()) {
  if(!ctl()) { init(); return r_pthread_once(o, f); }
  volatile int *v = (volatile int*)o;
  while(true) {
    if(*v == 2) { Guard g; acq((void*)o); return 0; }
    if(*v == 0) { *v = 1; try { f(); } catch(...) { *v = 0; throw; } Guard g; *v = 2; rel((void*)o); return 0; }
    Guard g; block(OnOnce, (void*)o, 0, NEVER, __builtin_return_address(0));
  }
}
static int vsleep(u64 d, void *w) { Guard g; block(OnSleep, nullptr, 0, d, w); return 0; }
int nanosleep(const timespec *t, timespec *r) { if(!ctl()) { init(); return r_nanosleep(t, r); } return vsleep(vnow + ns(t), __builtin_return_address(0)); }
int clock_nanosleep(clockid_t c, int fl, const timespec *t, timespec *r) { if(!ctl()) { init(); return r_clock_nanosleep(c, fl, t, r); } return vsleep(fl & TIMER_ABSTIME ? toVirtual(c, t) : vnow + ns(t), __builtin_return_address(0)); }
int usleep(useconds_t u) { if(!ctl()) { init(); return r_usleep(u); } return vsleep(vnow + (u64)u * 1000, __builtin_return_address(0)); }
int clock_gettime(clockid_t c, timespec *t) {
  if(!ctl()) { init(); return r_clock_gettime(c, t); }
  u64 v = vnow + (c == CLOCK_REALTIME ? kReal : kMono); t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; return 0;
}
int sched_getcpu() { if(!ctlq() || cpus.empty()) return 0; Guard g; return cpus[ctx->choose((int)cpus.size())]; }
int get_nprocs() { return nprocs; }
int sched_yield() { if(!ctl()) { init(); return r_sched_yield(); } Guard g; T[me].st = Ready; schedule(true); return 0; }
int pthread_setname_np(pthread_t, const char *) { return 0; }

// function-local statics
int __cxa_guard_acquire(u64 *g) {
  if(!ctl()) { init(); return r___cxa_guard_acquire(g); }
  Guard q; char *b = (char*)g;
  while(true) { if(b[0]) { acq(g); return 0; } if(!b[1]) { b[1] = 1; return 1; } block(OnOnce, b + 1, 0, NEVER, nullptr); }
}
void __cxa_guard_release(u64 *g) { if(!ctl()) { init(); r___cxa_guard_release(g); return; } Guard q; char *b = (char*)g; b[1] = 0; b[0] = 1; rel(g); }
void __cxa_guard_abort(u64 *g) { if(!ctl()) { init(); r___cxa_guard_abort(g); return; } ((char*)g)[1] = 0; }
}

// futures
static bool futexWait(unsigned *a, unsigned v, bool timeout, long s, long n, clockid_t c, void *w) {
  Guard g; if(quiet == 1) { T[me].st = Ready; schedule(); }
  if(*(volatile unsigned*)a != v) return true;
  timespec t{s, n}; return !block(OnFutex, a, v, timeout && timers ? toVirtual(c, &t) : NEVER, w);
}
#include <atomic>
#include <future>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool t, chrono::seconds s, chrono::nanoseconds n) { if(!ctl()) { while(__atomic_load_n(a, __ATOMIC_SEQ_CST) == v && !t) { timespec ts{0, 100000}; init(); r_nanosleep(&ts, nullptr); } return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; } return futexWait(a, v, t, s.count(), n.count(), CLOCK_REALTIME, __builtin_return_address(0)); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool t, chrono::seconds s, chrono::nanoseconds n) { if(!ctl()) { while(__atomic_load_n(a, __ATOMIC_SEQ_CST) == v && !t) { timespec ts{0, 100000}; init(); r_nanosleep(&ts, nullptr); } return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; } return futexWait(a, v, t, s.count(), n.count(), CLOCK_MONOTONIC, __builtin_return_address(0)); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) {}
}

// ---- memory
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if(!p) abort(); if(ctl()) { Guard g; forget(p, malloc_usable_size(p)); } return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
static void del(void *p, void *pc) { if(!p) return; if(ctl() && gRaces) { size_t n = malloc_usable_size(p); accessRange(p, n, true, pc); Guard g; forget(p, n); } free(p); }
void operator delete(void *p) noexcept { del(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { del(p, __builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { del(p, __builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { del(p, __builtin_return_address(0)); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del(p, __builtin_return_address(0)); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del(p, __builtin_return_address(0)); }

// ---- instrumentation
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { accessRange(a, n, false, RA); } void __tsan_write##n(void *a) { accessRange(a, n, true, RA); } \
  void __tsan_unaligned_read##n(void *a) { accessRange(a, n, false, RA); } void __tsan_unaligned_write##n(void *a) { accessRange(a, n, true, RA); } \
  void __tsan_volatile_read##n(void *a) { accessRange(a, n, false, RA); } void __tsan_volatile_write##n(void *a) { accessRange(a, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { accessRange(a, n, false, RA); } void __tsan_write_range(void *a, size_t n) { accessRange(a, n, true, RA); }
void __tsan_vptr_update(void **a, void *v) { if(*a != v) accessRange(a, 8, true, RA); } void __tsan_vptr_read(void **a) { accessRange(a, 8, false, RA); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
static inline bool isAcq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static inline bool isRel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
// reference counts (acquire-release additions) are not scheduling points
static inline void atomicBefore(int o, bool count, void *ra) { if(ctlq() && atomics && !(count && o == __ATOMIC_ACQ_REL)) pt(ra); }
static inline void atomicAfter(void *a, int o, bool rd, bool wr) { if(!ctl()) return; Guard g; if(rd && isAcq(o)) acq(a); if(wr) { if(isRel(o)) rel(a); else if(!rd) memset(&sync(a).vc, 0, sizeof(VC)); } }
typedef uint8_t u8_; typedef uint16_t u16_; typedef uint32_t u32_; typedef uint64_t u64_;
#define ATOM(bits, T_) extern "C" { \
T_ __tsan_atomic##bits##_load(const volatile T_ *a, int o) { atomicBefore(o, false, RA); T_ v = __atomic_load_n(a, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, true, false); return v; } \
void __tsan_atomic##bits##_store(volatile T_ *a, T_ v, int o) { atomicBefore(o, false, RA); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, false, true); } \
T_ __tsan_atomic##bits##_exchange(volatile T_ *a, T_ v, int o) { atomicBefore(o, false, RA); T_ r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, true, true); return r; } \
T_ __tsan_atomic##bits##_fetch_add(volatile T_ *a, T_ v, int o) { atomicBefore(o, true, RA); T_ r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, true, true); return r; } \
T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *a, T_ v, int o) { atomicBefore(o, true, RA); T_ r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, true, true); return r; } \
T_ __tsan_atomic##bits##_fetch_and(volatile T_ *a, T_ v, int o) { atomicBefore(o, false, RA); T_ r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, true, true); return r; } \
T_ __tsan_atomic##bits##_fetch_or(volatile T_ *a, T_ v, int o) { atomicBefore(o, false, RA); T_ r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, true, true); return r; } \
T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *a, T_ v, int o) { atomicBefore(o, false, RA); T_ r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); atomicAfter((void*)a, o, true, true); return r; } \
bool __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *a, T_ *e, T_ v, int o, int f) { atomicBefore(o, false, RA); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicAfter((void*)a, r ? o : f, true, r); return r; } \
bool __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *a, T_ *e, T_ v, int o, int f) { atomicBefore(o, false, RA); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicAfter((void*)a, r ? o : f, true, r); return r; } \
T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *a, T_ e, T_ v, int o, int f) { atomicBefore(o, false, RA); bool r = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicAfter((void*)a, r ? o : f, true, r); return e; } }
ATOM(8, u8_) ATOM(16, u16_) ATOM(32, u32_) ATOM(64, u64_)

// RocksDB's own pool threads have nothing to do on the in-memory store; they are never started.
extern "C" void *_ZN7rocksdb9DBOptions19IncreaseParallelismEi(void *self, int) { return self; }
