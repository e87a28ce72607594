#include "mc.hh"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <fcntl.h>
#include <fnmatch.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <dirent.h>
#include <ftw.h>

extern "C" void vs_quiet(int) __attribute__((weak));
namespace mc {
struct Quiet { Quiet() { if(vs_quiet) vs_quiet(1); } ~Quiet() { if(vs_quiet) vs_quiet(-1); } };

static constexpr size_t kMaxLen = 16384;
static constexpr size_t kSlots = 512;
static constexpr int kMaxWorkers = 16;
static constexpr size_t kSampleSlots = 3;

struct Seq { uint32_t len; uint16_t v[kMaxLen]; };
struct WorkerShm {
  std::atomic<uint64_t> startedNs;      // 0: not inside an execution
  std::atomic<uint64_t> execs;
  Seq cur;
};
struct FoundShm { std::atomic<int> set; char sig[512]; char msg[8192]; Seq seq; };
struct KnownShm { std::atomic<uint64_t> count; char msg[1024]; };
struct Shm {
  std::atomic<int> lock;
  std::atomic<int> idle, nworkers, stop, capped;
  uint32_t head, count;
  Seq slots[kSlots];
  WorkerShm w[kMaxWorkers];
  std::atomic<uint64_t> evals, nontriv, transitions, states, outcomes, choicePoints, maxLen, pruned;
  FoundShm found;
  KnownShm known[64];
  std::atomic<int> sampleUsed;
  char internal[1024];
  Seq samples[kSampleSlots];
};
static Shm *S = nullptr;

static constexpr uint64_t kVisCap = 1ull << 27, kOutCap = 1ull << 23;
static std::atomic<uint64_t> *V = nullptr, *O = nullptr;

static bool gThorough = false;
static Ctx *gCtx = nullptr;
static std::string gScratchBase;
static pid_t gMainPid = 0;
static double gBudget = 0;
static std::chrono::steady_clock::time_point gStart;
struct Known { std::string sig, what; };
static std::vector<Known> gKnown;

static uint64_t nowNs() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);      // vdso; harness clocks are owned elsewhere
  return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}

uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31;
  return a;
}
uint64_t hash(std::string_view s) {
  uint64_t h = 0x243f6a8885a308d3ull ^ (s.size() * 0x9e3779b97f4a7c15ull);
  size_t i = 0;
  for(; i + 8 <= s.size(); i += 8) { uint64_t x; memcpy(&x, s.data() + i, 8); h = mix(h, x); }
  uint64_t x = 0; memcpy(&x, s.data() + i, s.size() - i);
  return mix(h, x ^ 0x5851f42d4c957f2dull);
}
std::string quote(std::string_view s) {
  std::string o = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string jstr(std::string_view s) {
  std::string o = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

Ctx *current() { return gCtx; }
bool thorough() { return gThorough; }
bool Ctx::thorough() const { return gThorough; }

static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
static void rmTree(const std::string &p) { if(p.size() > 8) nftw(p.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); }
std::string scratch() {
  static pid_t pid = 0; static std::string dir;
  if(pid != getpid()) {
    pid = getpid(); dir = gScratchBase + "/p" + std::to_string(pid);
    mkdir(dir.c_str(), 0755);
  }
  return dir;
}

static int gWorker = -1;   // worker index in this process (choices may be made on any of its threads)
static void lockS() { int e = 0; while(!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(10); } }
static void unlockS() { S->lock.store(0); }

static void rmTree(const std::string &p);
[[noreturn]] static void internalError(const std::string &m) {
  if(S) snprintf(S->internal, sizeof(S->internal), "%s", m.c_str());
  fprintf(stdout, "INTERNAL-ERROR: %s\n", m.c_str()); fflush(stdout);
  if(getpid() == gMainPid) rmTree(gScratchBase);
  _exit(3);
}

int Ctx::choose(int n, const char *what) {
  Quiet quiet;
  if(n <= 0 || n > 60000) internalError("choose(" + std::to_string(n) + ")");
  if(n == 1) return 0;
  size_t i = taken_.size();
  if(i >= kMaxLen) internalError("execution makes too many choices");
  uint16_t c = 0;
  if(i < prefix_.size()) {
    c = prefix_[i];
    if(c >= n) internalError("replay diverged: choice " + std::to_string(c) + " of " + std::to_string(n) + " at " + std::to_string(i) + " (" + (what ? what : "") + ") after" + [&]() { std::string r; for(size_t k = 0; k <= i && k < prefix_.size(); k++) r += " " + std::to_string(prefix_[k]) + (k < arity_.size() ? "/" + std::to_string(arity_[k]) : ""); return r; }());
  }
  taken_.push_back(c); arity_.push_back((uint16_t)n);
  if(gWorker >= 0) {
    Seq &q = S->w[gWorker].cur;
    q.v[i] = c; q.len = i + 1;
  }
  if(tracing_ && what && *what) logLine(std::string("  choice ") + what + " = " + std::to_string(c) + "/" + std::to_string(n));
  return c;
}

bool Ctx::visited(uint64_t h, int remaining) {
  Quiet quiet;
  // The slot holds the hash with its low byte replaced by (remaining+1).
  uint64_t key = mix(h, 0x1234567) & ~0xffull; if(!key) key = 0x100;
  uint64_t rem = (uint64_t)std::min(std::max(remaining, 0), 250) + 1;
  // a choice still inside the prefix was decided by whoever donated this subtree
  bool replaying = taken_.size() < prefix_.size();
  if(tracing_) return false;        // re-runs of one execution are never cut short
  uint64_t pos = (h >> 3) & (kVisCap - 1);
  for(int probe = 0; probe < 4096; probe++, pos = (pos + 1) & (kVisCap - 1)) {
    uint64_t v = V[pos].load(std::memory_order_relaxed);
    while(true) {
      if(v == 0) {
        if(!V[pos].compare_exchange_weak(v, key | rem)) continue;
        S->states.fetch_add(1, std::memory_order_relaxed);
        return false;
      }
      if((v & ~0xffull) != key) break;
      if(replaying) return false;
      if((v & 0xff) >= rem) { S->pruned.fetch_add(1, std::memory_order_relaxed); return true; }
      if(V[pos].compare_exchange_weak(v, key | rem)) return false;
    }
  }
  internalError("visited table full");
}
bool Ctx::visited(std::string_view canon, int remaining) { return visited(hash(canon), remaining); }
void Ctx::transition(uint64_t n) { S->transitions.fetch_add(n, std::memory_order_relaxed); }
void Ctx::outcome(std::string_view o) {
  Quiet quiet;
  uint64_t h = hash(o); if(!h) h = 1;
  uint64_t pos = (h >> 5) & (kOutCap - 1);
  for(int probe = 0; probe < 256; probe++, pos = (pos + 1) & (kOutCap - 1)) {
    uint64_t v = O[pos].load(std::memory_order_relaxed);
    if(v == h) return;
    if(v == 0) {
      if(O[pos].compare_exchange_strong(v, h)) { S->outcomes.fetch_add(1, std::memory_order_relaxed); return; }
      if(v == h) return;
    }
  }
}
void Ctx::nontrivial() { nontrivial_ = true; }
void Ctx::logLine(const std::string &s) { Quiet quiet; if(tracing_ && log_.size() < 400000) { log_ += s; log_ += '\n'; } }
void Ctx::failSoft(const std::string &sig, const std::string &msg) {
  Quiet quiet;
  if(failed_) return;
  failed_ = true; sig_ = sig; msg_ = msg;
}
bool gNoThrow = false;       // a scheduler with other threads is active: stacks must not be unwound
static std::function<void()> gDie;
void dieNow() { if(gDie) gDie(); _exit(3); }
void Ctx::fail(const std::string &sig, const std::string &msg) { failSoft(sig, msg); if(gNoThrow) dieNow(); throw Violation{sig, msg}; }

static std::string normalise(std::string m) {   // exception texts without numbers or trailing stack traces
  auto p = m.find(" ----- "); if(p != std::string::npos) m = m.substr(0, p);
  p = m.find('\n'); if(p != std::string::npos) m = m.substr(0, p);
  std::string o; for(char c : m) { if(isdigit((unsigned char)c)) { if(o.empty() || o.back() != 'N') o += 'N'; } else o += c; }
  if(o.size() > 160) o.resize(160);
  return o;
}

static void execute(const Space &sp, Ctx &ctx) {
  gCtx = &ctx;
  try { sp.body(ctx); }
  catch(Violation &) {}
  catch(Abandon &) {}
  catch(std::exception &e) {
    ctx.failSoft(std::string("exception:") + normalise(e.what()), std::string("uncaught exception: ") + e.what());
  }
  catch(const char *e) { ctx.failSoft("exception", std::string("uncaught exception: ") + e); }
  catch(...) { ctx.failSoft("exception", "uncaught exception of unknown type"); }
  gCtx = nullptr;
}

static int knownIndex(const std::string &sig) {
  for(size_t i = 0; i < gKnown.size() && i < 64; i++)
    if(gKnown[i].sig == sig || fnmatch(gKnown[i].sig.c_str(), sig.c_str(), 0) == 0) return (int)i;
  return -1;
}

static void toSeq(Seq &q, const std::vector<uint16_t> &v) {
  q.len = (uint32_t)std::min(v.size(), kMaxLen);
  memcpy(q.v, v.data(), q.len * 2);
}
static std::vector<uint16_t> fromSeq(const Seq &q) { return std::vector<uint16_t>(q.v, q.v + q.len); }

static void recordFound(const std::string &sig, const std::string &msg, const std::vector<uint16_t> &seq) {
  lockS();
  if(!S->found.set.load()) {
    snprintf(S->found.sig, sizeof(S->found.sig), "%s", sig.c_str());
    snprintf(S->found.msg, sizeof(S->found.msg), "%s", msg.c_str());
    toSeq(S->found.seq, seq);
    S->found.set.store(1);
    S->stop.store(1);
  }
  unlockS();
}

// After one execution: account for it. Returns false when exploring must stop.
static bool account(Ctx &ctx) {
  S->evals.fetch_add(1, std::memory_order_relaxed);
  S->choicePoints.fetch_add(ctx.taken_.size(), std::memory_order_relaxed);
  uint64_t m = S->maxLen.load(); while(ctx.taken_.size() > m && !S->maxLen.compare_exchange_weak(m, ctx.taken_.size())) {}
  if(ctx.nontrivial_) S->nontriv.fetch_add(1, std::memory_order_relaxed);
  if(ctx.failed_) {
    int k = knownIndex(ctx.sig_);
    if(k >= 0) {
      if(S->known[k].count.fetch_add(1) == 0) snprintf(S->known[k].msg, sizeof(S->known[k].msg), "%s", ctx.msg_.c_str());
      return true;
    }
    recordFound(ctx.sig_, ctx.msg_, ctx.taken_);
    return false;
  }
  return true;
}

static void quietOutput() {
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd);
  std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit);
}

static void worker(const Space &sp, int idx) {
  gWorker = idx;
  if(sp.workerInit) sp.workerInit();
  std::deque<std::vector<uint16_t>> local;
  WorkerShm &me = S->w[idx];
  bool amIdle = false;
  uint64_t n = 0;
  while(!S->stop.load()) {
    std::vector<uint16_t> p;
    if(!local.empty()) { p = std::move(local.back()); local.pop_back(); }
    else {
      lockS();
      if(S->count) {
        S->count--; Seq &q = S->slots[(S->head + S->count) % kSlots]; p = fromSeq(q);
        if(amIdle) { S->idle--; amIdle = false; }
        unlockS();
      }
      else {
        if(!amIdle) { S->idle++; amIdle = true; }
        bool done = S->idle.load() == S->nworkers.load();
        unlockS();
        if(done) break;
        usleep(200); continue;
      }
    }
    Ctx ctx; ctx.prefix_ = p; ctx.taken_.reserve(p.size() + 64);
    me.cur.len = 0; me.startedNs.store(nowNs());
    gDie = [&]() { if(account(ctx)) { S->capped.store(1); S->stop.store(1); } me.startedNs.store(0); rmTree(scratch()); _exit(0); };
    execute(sp, ctx);
    me.startedNs.store(0); me.execs++;
    if(ctx.taken_.size() < p.size() && !ctx.failed_) internalError("replay diverged: execution ended after " + std::to_string(ctx.taken_.size()) + " of " + std::to_string(p.size()) + " choices in space " + sp.name);
    if(!account(ctx)) break;
    n++;
    if((n == 1 && idx == 0) || (n == 50 && idx == 0) || (n == 700 && idx == 0)) {
      int s = S->sampleUsed.fetch_add(1); if(s < (int)kSampleSlots) toSeq(S->samples[s], ctx.taken_);
    }
    // new prefixes: deepest last so that DFS continues locally
    for(size_t i = p.size(); i < ctx.taken_.size(); i++)
      for(int alt = (int)ctx.arity_[i] - 1; alt >= 1; alt--) {
        std::vector<uint16_t> q(ctx.taken_.begin(), ctx.taken_.begin() + i);
        q.push_back((uint16_t)alt); local.push_back(std::move(q));
      }
    if(local.size() > 1 && (S->idle.load() > 0 || S->count < 8)) {
      lockS();
      while(local.size() > 1 && S->count < 32) { toSeq(S->slots[(S->head + S->count) % kSlots], local.front()); S->count++; local.pop_front(); }
      unlockS();
    }
    if(gBudget > 0 && (n & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count() > gBudget) {
      S->capped.store(1); S->stop.store(1); break;
    }
  }
}

struct SoloResult { int kind; std::string sig, msg, log; };  // kind 0 ok, 1 violation, 2 crash, 3 hang, 4 internal
static SoloResult solo(const Space &sp, const std::vector<uint16_t> &seq, double limit, bool trace) {
  std::string out = gScratchBase + "/solo." + std::to_string(getpid());
  std::string err = out + ".err";
  pid_t pid = fork();
  if(pid == 0) {
    setpgid(0, 0);
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
    gWorker = kMaxWorkers - 1;
    if(sp.workerInit) sp.workerInit();
    Ctx ctx; ctx.prefix_ = seq; ctx.tracing_ = true;
    auto write = [&]() { std::ofstream f(out); f << (ctx.failed_ ? 1 : 0) << "\n" << jstr(ctx.sig_) << "\n" << ctx.msg_.size() << "\n" << ctx.msg_ << "\n" << ctx.log_; };
    gDie = [&]() { write(); fflush(stdout); _exit(0); };
    execute(sp, ctx);
    write();
    fflush(stdout);
    _exit(0);
  }
  double t0 = nowNs() / 1e9; int st = 0; SoloResult r{0, "", "", ""}; bool ended = false;
  while(nowNs() / 1e9 - t0 < limit) { if(waitpid(pid, &st, WNOHANG) == pid) { ended = true; break; } usleep(1000); }
  if(!ended) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); r.kind = 3; r.sig = "hang"; r.msg = "execution does not finish within " + std::to_string((int)limit) + " s"; return r; }
  std::string errs; { std::ifstream f(err); std::stringstream ss; ss << f.rdbuf(); errs = ss.str(); }
  if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.kind = 4; r.msg = errs; return r; }
  if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    r.kind = 2;
    r.sig = WIFSIGNALED(st) ? std::string("crash:") + strsignal(WTERMSIG(st)) : "crash:exit " + std::to_string(WEXITSTATUS(st));
    auto a = errs.find("ERROR: AddressSanitizer"); if(a == std::string::npos) a = errs.find("runtime error:");
    if(a == std::string::npos) a = errs.find("terminate called");
    r.msg = r.sig + (a != std::string::npos ? "\n" + errs.substr(a, 3000) : "\n" + errs.substr(errs.size() > 2000 ? errs.size() - 2000 : 0));
    return r;
  }
  std::ifstream f(out); std::string line; std::getline(f, line); r.kind = line == "1" ? 1 : 0;
  std::getline(f, line); r.sig = line.size() >= 2 ? line.substr(1, line.size() - 2) : "";
  size_t len = 0; std::getline(f, line); len = strtoul(line.c_str(), nullptr, 10);
  r.msg.resize(len); f.read(&r.msg[0], len); f.get();
  std::stringstream ss; ss << f.rdbuf(); r.log = ss.str();
  return r;
}

struct SpaceStats { std::string name; uint64_t evals, nontriv, transitions, states, outcomes, choices, maxLen, pruned; bool complete; double wall; };

static std::string readAll(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string jsonField(const std::string &l, const std::string &k) {
  auto p = l.find("\"" + k + "\""); if(p == std::string::npos) return "";
  p = l.find(':', p); p = l.find('"', p); if(p == std::string::npos) return "";
  std::string o; for(p++; p < l.size() && l[p] != '"'; p++) { if(l[p] == '\\' && p + 1 < l.size()) { p++; o += l[p] == 'n' ? '\n' : l[p]; } else o += l[p]; }
  return o;
}

int main(int argc, char **argv, const Check &c) {
  gStart = std::chrono::steady_clock::now();
  mallopt(M_PERTURB, 0xa7);      // freed and uninitialised memory never looks right by accident
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", verif = "/verif", replay, only;
  if(getenv("VERIF_DIR")) verif = getenv("VERIF_DIR");
  int cores = (int)sysconf(_SC_NPROCESSORS_ONLN); if(cores > 8) cores = 8; if(cores < 1) cores = 1;
  for(int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if(a == "--tier" && i + 1 < argc) tier = argv[++i];
    else if(a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if(a == "--space" && i + 1 < argc) only = argv[++i];
    else if(a == "--jobs" && i + 1 < argc) cores = atoi(argv[++i]);
    else if(a == "--budget" && i + 1 < argc) gBudget = atof(argv[++i]);
  }
  gThorough = tier == "thorough";
  if(gBudget == 0) gBudget = gThorough ? 3000 : 300;
  gMainPid = getpid();
  setenv("TZ", "UTC", 1);
  { std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    gScratchBase = base + "/vq-" + c.id + "-" + std::to_string(getpid()); mkdir(gScratchBase.c_str(), 0755); }
  struct Cleanup { ~Cleanup() { if(getpid() == gMainPid) rmTree(gScratchBase); } } cleanup;

  { std::ifstream f(verif + "/known_findings.jsonl"); std::string l;
    while(std::getline(f, l)) if(jsonField(l, "property") == c.id && jsonField(l, "status") == "known") gKnown.push_back({jsonField(l, "sig"), jsonField(l, "what")}); }

  S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  V = (std::atomic<uint64_t>*)mmap(nullptr, kVisCap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  O = (std::atomic<uint64_t>*)mmap(nullptr, kOutCap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(S == MAP_FAILED || V == MAP_FAILED || O == MAP_FAILED) internalError("mmap");

  if(!replay.empty()) {
    std::ifstream f(replay); std::string l, space; std::vector<uint16_t> seq;
    while(std::getline(f, l)) {
      if(l.rfind("space ", 0) == 0) space = l.substr(6);
      if(l.rfind("tier ", 0) == 0) gThorough = l.substr(5) == "thorough";
      if(l.rfind("choices ", 0) == 0) { std::istringstream is(l.substr(8)); int x; while(is >> x) seq.push_back((uint16_t)x); }
    }
    for(auto &sp : c.spaces) if(sp.name == space) {
      SoloResult r = solo(sp, seq, std::max(60.0, sp.hangLimit * 2), true);
      printf("%s", r.log.c_str());
      if(r.kind == 0) { printf("REPLAY property=%s: no violation\n", c.id.c_str()); return 0; }
      printf("%s\nVIOLATION property=%s replay=%s\n", r.msg.c_str(), c.id.c_str(), replay.c_str());
      return 1;
    }
    printf("no such space\n"); return 2;
  }

  std::vector<SpaceStats> all; std::vector<std::string> samples; int violations = 0;
  std::string vline;
  for(auto &sp : c.spaces) {
    if(sp.thoroughOnly && !gThorough) continue;
    if(!only.empty() && sp.name != only) continue;
    auto t0 = std::chrono::steady_clock::now();
    // reset per-space state (known counters are kept)
    S->lock = 0; S->idle = 0; S->stop = 0; S->head = 0; S->count = 0; S->capped = 0;
    S->evals = 0; S->nontriv = 0; S->transitions = 0; S->states = 0; S->outcomes = 0; S->choicePoints = 0; S->maxLen = 0; S->pruned = 0;
    S->found.set = 0; S->sampleUsed = 0;
    madvise((void*)V, kVisCap * 8, MADV_REMOVE); madvise((void*)O, kOutCap * 8, MADV_REMOVE);
    int nw = sp.workers ? std::min(sp.workers, cores) : cores;
    S->nworkers = nw;
    S->slots[0].len = 0; S->count = 1;
    std::map<pid_t, int> kids;
    fflush(stdout);
    auto spawn = [&](int i) {
      S->w[i].startedNs = 0;
      pid_t pid = fork();
      if(pid == 0) {
        setpgid(0, 0);
        int keep = dup(1); quietOutput(); (void)keep;
        worker(sp, i);
        rmTree(scratch());
        _exit(0);
      }
      kids[pid] = i;
    };
    for(int i = 0; i < nw; i++) spawn(i);
    std::vector<std::pair<std::vector<uint16_t>, std::string>> suspects;
    std::string internal;
    while(!kids.empty()) {
      int st; pid_t pid = waitpid(-1, &st, WNOHANG);
      if(pid > 0 && kids.count(pid)) {
        int i = kids[pid]; kids.erase(pid);
        kill(-pid, SIGKILL);
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          if(WIFEXITED(st) && WEXITSTATUS(st) == 3) internal = std::string(S->internal) + " [space " + sp.name + "]";
          suspects.push_back({fromSeq(S->w[i].cur), WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit"});
          S->stop = 1;
          if(S->lock.load()) unlockS();
        }
        continue;
      }
      uint64_t now = nowNs();
      for(auto &k : kids) {
        uint64_t s = S->w[k.second].startedNs.load();
        if(s && now > s && (now - s) / 1e9 > sp.hangLimit) {
          S->w[k.second].startedNs = 0;
          kill(-k.first, SIGKILL); kill(k.first, SIGKILL);
        }
      }
      usleep(500);
    }
    bool complete = !S->capped.load() && !S->found.set.load() && suspects.empty();
    SpaceStats ss{sp.name, S->evals, S->nontriv, S->transitions, S->states, S->outcomes, S->choicePoints, S->maxLen, S->pruned, complete,
      std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()};
    all.push_back(ss);
    printf("space %-28s executions=%lu states=%lu transitions=%lu outcomes=%lu nontrivial=%lu pruned=%lu maxchoices=%lu %s %.1fs\n", sp.name.c_str(),
      ss.evals, ss.states, ss.transitions, ss.outcomes, ss.nontriv, ss.pruned, ss.maxLen, complete ? "complete" : "INCOMPLETE", ss.wall);
    fflush(stdout);

    std::vector<uint16_t> seq; SoloResult bad{0, "", "", ""};
    if(S->found.set.load()) {
      seq = fromSeq(S->found.seq);
      bad = solo(sp, seq, sp.hangLimit * 2 + 30, true);
      if(bad.kind == 0 || bad.kind == 4) internalError("a violation did not reproduce when re-run alone: " + std::string(S->found.sig) + ": " + S->found.msg + " / " + bad.msg);
    }
    else for(auto &sus : suspects) {
      seq = sus.first;
      SoloResult r = solo(sp, seq, sp.hangLimit * 2 + 30, true);
      if(r.kind == 4) internalError("divergence in space " + sp.name + ": " + r.msg);
      if(r.kind != 0) { bad = r; break; }
      internal = "a worker died (" + sus.second + ") but the execution does not fail when re-run alone, space " + sp.name;
    }
    if(bad.kind != 0 && knownIndex(bad.sig) >= 0) {
      // a listed finding that ends the process: exploration of this space stops there
      int k = knownIndex(bad.sig); S->known[k].count++;
    }
    else if(bad.kind != 0) {
      violations++;
      mkdir((verif + "/replays").c_str(), 0755);
      std::string path = verif + "/replays/" + c.id + "-" + sp.name + ".txt";
      { std::ofstream f(path);
        f << "property " << c.id << "\nspace " << sp.name << "\ntier " << tier << "\nsignature " << bad.sig << "\nchoices";
        for(auto x : seq) f << " " << x;
        f << "\nreplay with: cd /verif && ./run " << c.id << " --replay " << path << "\n\n" << bad.msg << "\n\n" << bad.log << "\n"; }
      printf("%s\n%s\nsignature: %s\n", bad.log.substr(0, 6000).c_str(), bad.msg.c_str(), bad.sig.c_str());
      vline = "VIOLATION property=" + c.id + " replay=" + path;
      break;
    }
    else if(!internal.empty()) internalError(internal);
    int ns = std::min<int>(S->sampleUsed.load(), kSampleSlots);
    if(samples.size() < 12) for(int i = 0; i < ns; i++) {
      SoloResult r = solo(sp, fromSeq(S->samples[i]), sp.hangLimit * 2 + 30, true);
      std::string t = "[" + sp.name + "] " + r.log; if(t.size() > 1500) t = t.substr(0, 1500) + "...";
      samples.push_back(t);
    }
  }

  for(size_t i = 0; i < gKnown.size() && i < 64; i++)
    if(S->known[i].count.load()) printf("KNOWN-FINDING: property=%s %s\n", c.id.c_str(), gKnown[i].what.c_str());

  // evidence
  if(only.empty()) {
    uint64_t ev = 0, nt = 0, tr = 0, stt = 0, oc = 0, ch = 0; bool ex = true;
    for(auto &s : all) { ev += s.evals; nt += s.nontriv; tr += s.transitions; stt += s.states; oc += s.outcomes; ch += s.choices; ex = ex && s.complete; }
    std::ostringstream j;
    j << "{\n \"property\": " << jstr(c.id) << ",\n \"tier\": " << jstr(gThorough ? "thorough" : "quick") << ",\n \"seed\": " << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1)
      << ",\n \"level\": " << jstr(c.level) << ",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << oc << ",\n  \"nontrivial_executions\": " << nt;
    j << ",\n  \"states\": " << stt << ",\n  \"transitions\": " << tr << ",\n  \"traces_validated_against_impl\": " << ev;
    j << ",\n  \"choice_points\": " << ch << ",\n  \"exhaustive\": " << (ex ? "true" : "false") << ",\n  \"rule\": " << jstr(c.rule) << ",\n  \"spaces\": [";
    bool first = true;
    for(auto &s : all) { j << (first ? "\n" : ",\n") << "   {\"name\": " << jstr(s.name) << ", \"executions\": " << s.evals << ", \"states\": " << s.states << ", \"transitions\": " << s.transitions << ", \"distinct_outcomes\": " << s.outcomes << ", \"pruned\": " << s.pruned << ", \"max_choices\": " << s.maxLen << ", \"complete\": " << (s.complete ? "true" : "false") << ", \"wall_s\": " << s.wall << "}"; first = false; }
    j << "],\n  \"samples\": [";
    first = true; for(auto &s : samples) { j << (first ? "\n   " : ",\n   ") << jstr(s); first = false; }
    if(samples.empty()) j << "\"(violation found before samples were taken)\"";
    j << "]\n },\n \"assumptions\": [";
    first = true; for(auto &s : c.assumptions) { j << (first ? "\n  " : ",\n  ") << jstr(s); first = false; }
    j << "],\n \"wall_s\": " << std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count() << ",\n \"violations\": " << violations << "\n}\n";
    mkdir((verif + "/evidence").c_str(), 0755);
    std::ofstream f(verif + "/evidence/" + c.id + ".json"); f << j.str();
  }
  if(!vline.empty()) { printf("%s\n", vline.c_str()); return 1; }
  printf("OK property=%s\n", c.id.c_str());
  return 0;
}

}
