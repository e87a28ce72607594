//@ sources: *
//@ lib: fakedb nothreads
#include "mc.hh"
#include "fakedb.hh"
#include "journal.hh"
#include "nothreads.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftCommon.hh"
#include "utils/Resilvering.hh"
#include "utils/Macros.hh"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdarg>
#include <cstring>
#include <map>
#include <set>
extern bool gRealThreads;
using namespace quarkdb; using std::string;
static string S(int64_t v) { return std::to_string(v); }
// ---- the file system calls of the code under test: an instant before each, and one of them may fail ----
static std::function<bool(const char *, const string &)> gHook;      // (call, path) -> let it fail
static thread_local int tIn = 0; static bool gAll = false; static pthread_t gMain; static string gBase, gEscape;
static std::map<FILE*, string> gFiles; static std::map<int, string> gFds;
struct In { In() { tIn++; } ~In() { tIn--; } };
static bool inside(const string &p) { return p.empty() || p[0] != '/' || (p.compare(0, gBase.size(), gBase) == 0 && p.find("/../") == p.npos); }
static bool hook(const char *what, const string &path) {
  if(!gHook || tIn || !pthread_equal(pthread_self(), gMain) || path.compare(0, gBase.size(), gBase) != 0 || (!gAll && path.find("/current/") != path.npos)) return false;
  In in; return gHook(what, path);
}
template<class F> static F real(F &f, const char *n) { if(!f) f = (F)dlsym(RTLD_NEXT, n); return f; }
#define REAL(name) static decltype(&name) f = nullptr; real(f, #name)
extern "C" {
int mkdir(const char *p, mode_t m) { REAL(mkdir); if(hook("mkdir", p)) { errno = ENOSPC; return -1; } return f(p, m); }
int rename(const char *a, const char *b) { REAL(rename); if(!gBase.empty() && !tIn && (!inside(a) || !inside(b))) { gEscape = string(a) + " -> " + b; errno = EPERM; return -1; } if(hook("rename", a)) { errno = EIO; return -1; } return f(a, b); }
int unlink(const char *p) { REAL(unlink); if(!gBase.empty() && !tIn && !inside(p)) { gEscape = p; errno = EPERM; return -1; } if(hook("unlink", p)) { errno = EIO; return -1; } return f(p); }
int rmdir(const char *p) { REAL(rmdir); if(!gBase.empty() && !tIn && !inside(p)) { gEscape = p; errno = EPERM; return -1; } if(hook("rmdir", p)) { errno = EIO; return -1; } return f(p); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); if(strpbrk(m, "wa+") && hook("fopen", p)) { errno = EMFILE; return nullptr; } FILE *r = f(p, m); if(r && !tIn && gHook) gFiles[r] = p; return r; }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *o) { REAL(fwrite); if(gHook && !tIn) { auto i = gFiles.find(o); if(i != gFiles.end() && hook("fwrite", i->second)) { errno = ENOSPC; return f(b, s, n / 2, o); } } return f(b, s, n, o); }
int fclose(FILE *o) { REAL(fclose); bool bad = false; if(gHook && !tIn) { auto i = gFiles.find(o); if(i != gFiles.end()) { string p = i->second; gFiles.erase(i); bad = hook("fclose", p); } } int r = f(o); if(bad) { errno = ENOSPC; return EOF; } return r; }
int open(const char *p, int fl, ...) { static int (*f)(const char*, int, ...) = nullptr; real(f, "open"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if((fl & (O_CREAT | O_TRUNC)) && hook("open", p)) { errno = ENOSPC; return -1; } int r = f(p, fl, m); if(r >= 0 && !tIn && gHook) gFds[r] = p; return r; }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open(p, fl, m); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if(gHook && !tIn && pthread_equal(pthread_self(), gMain)) { auto i = gFds.find(fd); if(i != gFds.end() && hook("write", i->second)) { errno = ENOSPC; return -1; } } return f(fd, b, n); }
int close(int fd) { REAL(close); if(gHook && !tIn && pthread_equal(pthread_self(), gMain)) gFds.erase(fd); return f(fd); }
int system(const char *c) {      // only what stays in the scratch directory is carried out
  REAL(system); if(!c || gBase.empty() || tIn) return f(c); std::vector<string> v; string w; char q = 0; bool have = false;
  for(const char *p = c;; p++) { if(!*p || (!q && *p == ' ')) { if(have) v.push_back(w); w.clear(); have = false; if(!*p) break; } else if(!q && (*p == '\'' || *p == '"')) { q = *p; have = true; } else if(*p == q) q = 0; else { w += *p; have = true; } }
  bool ok = v.size() >= 2 && (v[0] == "rm" || v[0] == "mv" || v[0] == "cp"); for(size_t i = 1; ok && i < v.size(); i++) if(v[i][0] != '-') ok = v[i].size() > gBase.size() + 1 && v[i].compare(0, gBase.size() + 1, gBase + "/") == 0 && v[i].find("..") == v[i].npos;
  if(!ok) { gEscape = c; return 1; } if(hook("system", v.back())) return 256; In in; return f(c); }
}
static std::set<string> ls(const string &p) { std::set<string> r; if(DIR *d = opendir(p.c_str())) { while(dirent *e = readdir(d)) { string n = e->d_name; if(n != "." && n != "..") r.insert(n); } closedir(d); } return r; }
static bool isDir(const string &p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
static bool exists(const string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static string slurp(const string &p) { string r; if(FILE *i = fopen(p.c_str(), "rb")) { char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, i)) > 0) r.append(b, k); fclose(i); } return r; }
static void spit(const string &p, const string &c) { FILE *o = fopen(p.c_str(), "wb"); fwrite(c.data(), 1, c.size(), o); fclose(o); }
static void rmTree(const string &p) { In in; if(!isDir(p)) { unlink(p.c_str()); return; } for(auto &n : ls(p)) rmTree(p + "/" + n); rmdir(p.c_str()); }
static void copyTree(const string &a, const string &b) { In in; if(!isDir(a)) { spit(b, slurp(a)); return; } mkdir(b.c_str(), 0755); for(auto &n : ls(a)) if(n != "LOCK") copyTree(a + "/" + n, b + "/" + n); }
static void files(const string &base, const string &rel, std::map<string, string> &out) { for(auto &n : ls(base + "/" + rel)) { string r = rel.empty() ? n : rel + "/" + n; if(isDir(base + "/" + r)) files(base, r, out); else out[r] = slurp(base + "/" + r); } }
// ---- contents ----
static string canon(StateMachine &sm) { std::vector<string> k; sm.keys("*", k); string s = "applied " + S(sm.getLastApplied()); for(auto &e : k) { string v; if(!sm.get(e, v).ok()) v = "?"; s += " " + e + "=" + v; } return s; }
static string canon(RaftJournal &j) { string s = "journal " + j.getClusterID() + " " + S(j.getLogStart()) + ".." + S(j.getLogSize()) + " commit " + S(j.getCommitIndex()) + " term " + S(j.getCurrentTerm()) + " members " + jr::encode([&]() { auto m = j.getMembership(); jr::Memb g; for(auto &e : m.nodes) g.nodes.push_back(e.hostname); for(auto &e : m.observers) g.obs.push_back(e.hostname); return g; }()) + "@" + S(j.getEpoch()); for(LogIndex i = j.getLogStart(); i < j.getLogSize(); i++) { RaftSerializedEntry e; if(!j.fetch(i, e).ok()) s += " missing"; else s += " " + S(mc::hash(e)); } return s; }
static string canon(ShardDirectory &d) { string e, s = canon(*d.getStateMachine()); if(d.hasRaftJournal(e)) s += "; " + canon(*d.getRaftJournal()); return s; }
static string pairCanon(const string &dir) { if(!isDir(dir + "/state-machine") || !isDir(dir + "/raft-journal")) return "incomplete"; string c = mc::scratch() + "/peek"; rmTree(c); copyTree(dir, c); string r; try { StateMachine sm(c + "/state-machine"); r = canon(sm); RaftJournal j(c + "/raft-journal"); r += "; " + canon(j); } catch(FatalException &e) { r = string("unreadable: ") + e.what(); } rmTree(c); return r; }
static std::vector<string> history(const ShardDirectory &d) { std::vector<string> r; for(size_t i = 0; i < d.getResilveringHistory().size(); i++) r.push_back(d.getResilveringHistory().at(i).getID()); return r; }
static string show(const std::vector<string> &v) { string s = "["; for(auto &e : v) s += " " + e; return s + " ]"; }
struct Real { Real() { gMain = pthread_self(); fakedb::wipeAll(); fakedb::gUseReal = true; gRealThreads = true; gBase = mc::scratch(); gEscape.clear(); gHook = nullptr; gFiles.clear(); gFds.clear(); for(auto &n : ls(gBase)) rmTree(gBase + "/" + n); } ~Real() { gHook = nullptr; fakedb::gUseReal = false; gRealThreads = false; string b = gBase; gBase.clear(); for(auto &n : ls(b)) rmTree(b + "/" + n); } };
static const std::vector<RaftServer> &nodes() { static const std::vector<RaftServer> v = {jr::srv("a"), jr::srv("b"), jr::srv("c")}; return v; }
static void write(ShardDirectory &d, const string &v, bool apply) {
  auto *j = d.getRaftJournal(); auto *sm = d.getStateMachine(); RedisRequest r{"SET", "k" + v, v}; LogIndex i = j->getLogSize(); j->append(i, RaftEntry(j->getCurrentTerm(), std::move(r)));
  if(apply) { j->setCommitIndex(i); LogIndex n = sm->getLastApplied() + 1; sm->set("k" + v, v, n); }
}
static ShardDirectory *make(const string &path, LogIndex start = 0, std::unique_ptr<StateMachine> seed = {}) { Status st; return ShardDirectory::create(path, "cluster-1", "shard-1", nodes(), start, FsyncPolicy::kAsync, std::move(seed), st); }
static void donate(const string &dir, std::map<string, string> &out, string &c) {       // what another node would send
  { std::unique_ptr<ShardDirectory> d(make(dir)); for(auto v : {"x", "y", "z"}) write(*d, v, true); write(*d, "w", false); string err; auto s = d->takeSnapshot("donor", err); files(s->getPath(), "", out); c = pairCanon(s->getPath()); } rmTree(dir);
}
static bool resilver(ShardDirectory &d, const string &id, const std::map<string, string> &f, string &err) { if(!d.resilveringStart(id, err)) return false; for(auto &p : f) if(!d.resilveringCopy(id, p.first, p.second, err)) return false; return d.resilveringFinish(id, err); }
// ---- sequences of operations ----
static std::unique_ptr<StateMachine> seedMachine(const string &p, string &c) { { StateMachine sm(p); sm.set("seed", "s", 0); } std::unique_ptr<StateMachine> sm(new StateMachine(p)); c = "applied N seed=s"; return sm; }
static void sequences(mc::Ctx &x, int depth) {
  static const char *names[] = {"reopen", "write", "append", "snapshot", "snapshot kept", "checkpoint", "checkpoint onto existing", "resilver", "unfinished resilvering", "finish unknown", "reset", "reset at 5", "reset from machine at 7", "wipe machine", "create again"};
  Real real; string p = gBase + "/shard", dn; std::map<string, string> df; donate(gBase + "/donor", df, dn); std::unique_ptr<ShardDirectory> d(make(p)); std::vector<string> hist = {"GENESIS"}; string now = canon(*d); std::unique_ptr<ShardSnapshot> kept; string keptIs; int n = 0; bool open = true; string journalFresh0;
  x.check(now.compare(0, 10, "applied 0;") == 0 && now.find("0..1") != now.npos, "create", "created: " + now);
  for(int k = 0;; k++) {
    string got = open ? canon(*d) : now; x.check(got == now, "contents", "the directory holds\n" + got + "\nexpected\n" + now); x.check(history(*d) == hist, "history", "history is " + show(history(*d)) + ", should be " + show(hist)); x.check(slurp(p + "/SHARD-ID") == "shard-1", "id", "shard id"); x.check(gEscape.empty(), "escape", "outside the directory: " + gEscape); if(kept) x.check(pairCanon(kept->getPath()) == keptIs, "kept", "a snapshot changed"); x.check(kept || ls(p + "/temp-snapshots").empty(), "left", "snapshots are left behind");
    x.outcome(now + show(hist)); x.nontrivial(); int done = 0; if(k == depth || x.visited(now + show(hist) + keptIs + S(open), depth - k)) done = 1; if(done) break;
    int op = x.choose(15, "operation"); x.log("  ", names[op]); x.transition(); string err, id = "id-" + S(n++); auto j = [&]() { return now.find(';') == now.npos ? string() : now.substr(now.find(';')); };
    if(op == 0) { if(!kept) d.reset(new ShardDirectory(p)); else { d.reset(); d.reset(new ShardDirectory(p)); } open = x.choose(2, "opened") == 0; }
    else if(op == 1 || op == 2) { write(*d, S(n), op == 1); now = canon(*d); open = true; }
    else if(op == 3 || op == 4) { if(kept) { if(op == 3) { x.check(!d->takeSnapshot("kept", err), "same", "a snapshot is taken over another one"); } else { string sp = kept->getPath(); kept.reset(); keptIs.clear(); x.check(!exists(sp), "released", "a released snapshot is still there"); } open = true; continue; }
      auto s = d->takeSnapshot(op == 4 ? "kept" : id, err); x.check(!!s, "snapshot", err); string c = pairCanon(s->getPath()); x.check(c == now, "snapshot", "the snapshot holds\n" + c + "\nexpected\n" + now); if(op == 4) { kept = std::move(s); keptIs = now; } else { string sp = s->getPath(); s.reset(); x.check(!exists(sp), "released", "a released snapshot is still there"); } open = true; }
    else if(op == 5 || op == 6) { d->getRaftJournal(); string c = gBase + "/cp" + S(n); if(op == 6) { In in; mkdir(c.c_str(), 0755); spit(c + "/mine", "m"); } err = d->checkpoint(c); x.check(err.empty() == (op == 5), "checkpoint", "checkpoint: " + err); if(op == 6) x.check(ls(c) == std::set<string>{"mine"} && slurp(c + "/mine") == "m", "overwritten", "a checkpoint changes an existing directory"); else { ShardDirectory e(c); string got = canon(e); x.check(got == now && history(e) == hist && slurp(c + "/SHARD-ID") == "shard-1", "checkpoint", "the checkpoint holds\n" + got + show(history(e)) + "\nexpected\n" + now + show(hist)); } rmTree(c); open = true; }
    else if(op == 7) { bool ok = resilver(*d, id, df, err); x.check(ok, "resilver", err); string old = pairCanon(p + "/supplanted/" + id); x.check(old == now, "destroyed", "what was in use is now\n" + old + "\ninstead of\n" + now); now = dn; hist.push_back(id); open = true; }
    else if(op == 8) { x.check(d->resilveringStart(id, err), "start", err); int c = 0; for(auto &f : df) if(++c % 2) x.check(d->resilveringCopy(id, f.first, f.second, err), "copy", err); }
    else if(op == 9) { x.check(!d->resilveringFinish("unknown-" + id, err) && !err.empty(), "finish", "a resilvering that never started is finished"); }
    else if(op <= 12) { LogIndex at = op == 10 ? 0 : op == 11 ? 5 : 7; string seedIs; std::unique_ptr<StateMachine> sm; if(op == 12) sm = seedMachine(gBase + "/seed", seedIs); if(x.choose(2, "journal open")) d->getRaftJournal(); d->obliterate("cluster-2", nodes(), at, FsyncPolicy::kAsync, std::move(sm)); string want = "applied " + S(at) + (op == 12 ? " seed=s" : "") + "; journal cluster-2 " + S(at) + ".." + S(at + 1) + " commit " + S(at) + " "; now = canon(*d); x.check(now.compare(0, want.size(), want) == 0, "reset", "after a reset: " + now + ", expected " + want); if(op == 12) x.check(!exists(gBase + "/seed"), "seed", "the seed machine is still in its place"); hist = {op == 12 ? "GENESIS-FROM-EXISTING-SM-AT-INDEX:7" : "GENESIS"}; open = true; }
    else if(op == 13) { string was = j(); d->wipeoutStateMachineContents(); d->getStateMachine(); now = "applied 0" + was; open = true; }
    else { Status st; for(int kind = 0; kind < 2; kind++) { std::unique_ptr<ShardDirectory> e(kind ? ShardDirectory::create(p, "other", "other", nodes(), 0, FsyncPolicy::kAsync, {}, st) : ShardDirectory::create(p, "other", "other", {}, st)); x.check(!e && !st.ok(), "existing", "a shard is created over an existing one"); } }
  }
  kept.reset(); d.reset();
}
// ---- death and failures at every call ----
struct Prepared { string p, old, dn; std::vector<string> hist; std::map<string, string> df; };
static Prepared prepare(int state) {
  Prepared r; r.p = gBase + "/shard"; donate(gBase + "/donor", r.df, r.dn); std::unique_ptr<ShardDirectory> d(make(r.p)); string err; if(state >= 1) { write(*d, "1", true); write(*d, "2", false); } if(state >= 2) resilver(*d, "first", r.df, err); if(state >= 2) write(*d, "3", true); if(state == 3) d->resilveringStart("stale", err); r.old = canon(*d); r.hist = history(*d); return r;
}
static void judge(mc::Ctx &x, const Prepared &r, const string &p, const string &id, const string &when, bool fin, bool again) {
  x.check(slurp(p + "/SHARD-ID") == "shard-1", "id", when + ": shard id"); x.transition();
  string sup = p + "/supplanted/" + id; std::unique_ptr<ShardDirectory> d; try { d.reset(new ShardDirectory(p)); } catch(FatalException &e) { x.check(false, "unreadable", when + ": " + e.what()); }
  auto h = history(*d); bool pre = h.size() >= r.hist.size() && h.size() <= r.hist.size() + 1 && std::equal(r.hist.begin(), r.hist.end(), h.begin()), recorded = h.size() == r.hist.size() + 1 && h.back() == id; x.check(pre && (h.size() == r.hist.size() || recorded), "history", when + ": the history is " + show(h) + ", was " + show(r.hist));
  if(!isDir(p + "/current")) { x.check(!fin && !recorded, "absent", when + ": no directory in use"); x.check(pairCanon(sup) == r.old, "destroyed", when + ": what was in use is now\n" + pairCanon(sup)); string a = pairCanon(p + "/resilvering-arena/" + id); x.check(a == r.dn, "lost", when + ": what was received is now\n" + a); x.outcome("absent"); return; }
  string c = pairCanon(p + "/current"); x.check(c == r.old || c == r.dn, "mixed", when + ": in use is\n" + c + "\nneither\n" + r.old + "\nnor\n" + r.dn); bool isNew = c != r.old || exists(sup); if(isNew) x.check(pairCanon(sup) == r.old, "destroyed", when + ": what was in use is now\n" + pairCanon(sup)); if(recorded) x.check(isNew, "recorded", when + ": recorded but not in use"); if(fin) x.check(isNew && recorded, "finished", when + ": finished, but " + (isNew ? "not recorded" : "not in use")); x.outcome(isNew ? recorded ? "new recorded" : "new" : "old");
  if(again) { string err; x.check(canon(*d) == c, "open", when + ": opened"); bool ok = resilver(*d, "later", r.df, err); x.check(ok && canon(*d) == r.dn && history(*d).back() == "later", "later", when + ": a later resilvering fails: " + err); d.reset(); d.reset(new ShardDirectory(p)); x.check(canon(*d) == r.dn && history(*d).back() == "later" && history(*d).size() == h.size() + 1, "later", when + ": a later resilvering is lost"); }
}
static void crash(mc::Ctx &x) {
  int state = x.choose(4, "state"), what = x.choose(3, "operation"); Real real; Prepared r = prepare(state); string dir = gBase + "/instants"; mkdir(dir.c_str(), 0755); std::vector<string> calls; { 
    std::unique_ptr<ShardDirectory> d(new ShardDirectory(r.p)); canon(*d); gHook = [&](const char *call, const string &path) { copyTree(r.p, dir + "/" + S(calls.size())); calls.push_back(string("before ") + call + " " + path.substr(gBase.size())); return false; }; string err; bool ok; if(what == 0) ok = resilver(*d, "id", r.df, err); else if(what == 1) { auto s = d->takeSnapshot("id", err); ok = !!s; } else { err = d->checkpoint(gBase + "/cp"); ok = err.empty(); } gHook = nullptr; x.check(ok, "fails", err); copyTree(r.p, dir + "/" + S(calls.size())); calls.push_back("at the end"); }
  x.check(gEscape.empty(), "escape", "outside the directory: " + gEscape); x.nontrivial(); for(size_t i = 0; i < calls.size(); i++) { x.log("  ", calls[i]); Prepared q = r; bool end = i + 1 == calls.size(); judge(x, q, dir + "/" + S(i), "id", "died " + calls[i], end && what == 0, x.thorough() || end || i % 8 == 0); rmTree(dir + "/" + S(i)); } x.check(what != 0 || calls.size() > 10, "instants", "only " + S(calls.size()) + " instants");
}
static void faults(mc::Ctx &x) {
  int state = 1 + x.choose(2, "state"); Real real; Prepared r = prepare(state); string keep = gBase + "/prepared"; copyTree(r.p, keep); x.nontrivial(); int total = 1 << 30;
  for(int at = 0; at < total; at++) {
    rmTree(r.p); copyTree(keep, r.p); int n = 0; string where = "nothing fails"; bool ok = false, threw = false, hit = false; string err; { std::unique_ptr<ShardDirectory> d(new ShardDirectory(r.p)); canon(*d); gHook = [&](const char *call, const string &path) { if(n++ != at) return false; hit = true; where = string(call) + " of " + path.substr(gBase.size()) + " fails"; return true; }; try { ok = resilver(*d, "id", r.df, err); } catch(FatalException &) { threw = true; } gHook = nullptr; if(!hit) total = at; }
    x.log("  ", where, ok ? ": success" : threw ? ": abort" : ": failure"); if(ok || hit) x.check(ok || threw || !err.empty(), "silent", where + ": no error"); x.check(hit || ok, "fails", err); judge(x, r, r.p, "id", where, ok, x.thorough() || at % 8 == 0);
  }
}
// ---- snapshots while the node is at work ----
// between any two steps of a snapshot more entries are appended, committed and applied; what was taken must be usable
static void busy(mc::Ctx &x) {
  int what = x.choose(2, "operation"), kinds = x.choose(3, "work"); Real real; string p = gBase + "/shard"; int total = 1 << 30;
  for(int at = 0; at < total; at++) {
    rmTree(p); std::unique_ptr<ShardDirectory> d(make(p)); write(*d, "1", true); write(*d, "2", true); d->getRaftJournal(); int n = 0, wrote = 0; bool hit = false; string err, where = "at the end", got; LogIndex before = d->getStateMachine()->getLastApplied();
    gHook = [&](const char *call, const string &path) { if(string(call) != "mkdir" && string(call) != "rename" && string(call) != "fclose") return false; if(n++ < at) return false; if(!hit) where = string("from ") + call + " " + path.substr(gBase.size()); hit = true; if(wrote < 40 && (kinds != 2 || n - 1 == at)) { In in; auto *j = d->getRaftJournal(); if(kinds == 1) { write(*d, S(10 + wrote++), false); LogIndex c = j->getLogSize() - 1; if(c % 2 == 0) { j->setCommitIndex(c); auto *sm = d->getStateMachine(); while(sm->getLastApplied() < c) { LogIndex i = sm->getLastApplied() + 1; sm->set("k", S(i), i); } } } else for(int i = 0; i < 3; i++) write(*d, S(10 + wrote++), true); } return false; };
    gAll = true; std::unique_ptr<ShardSnapshot> s; string dir; if(what == 0) { s = d->takeSnapshot("id", err); x.check(!!s, "snapshot", err); dir = s->getPath(); } else { string c = gBase + "/cp" + S(at); err = d->checkpoint(c); x.check(err.empty(), "checkpoint", err); dir = c + "/current"; } gHook = nullptr; gAll = false; if(!hit) total = at; x.log("  work ", where, ", ", wrote, " entries"); x.transition(); x.nontrivial();
    string c = gBase + "/peek"; rmTree(c); copyTree(dir, c); { StateMachine sm(c + "/state-machine"); RaftJournal j(c + "/raft-journal"); LogIndex a = sm.getLastApplied(); x.check(a >= before, "old", where + ": the snapshot was taken at " + S(a) + ", and entry " + S(before) + " was applied when it was asked for"); x.check(a <= j.getCommitIndex(), "ahead", where + ": entry " + S(a) + " is applied and the commit index is " + S(j.getCommitIndex()) + ": no node can run on this"); x.check(j.getLogStart() <= a && j.getCommitIndex() < j.getLogSize(), "range", "log range"); for(LogIndex i = j.getLogStart(); i < j.getLogSize(); i++) { RaftSerializedEntry e, f; x.check(j.fetch(i, e).ok() && d->getRaftJournal()->fetch(i, f).ok() && e == f, "entries", where + ": entry " + S(i)); } std::vector<string> k; sm.keys("*", k); if(kinds != 1) x.check((LogIndex)k.size() == a, "partial", where + ": " + S(k.size()) + " of " + S(a) + " writes"); got = S(a) + "/" + S(j.getCommitIndex()); } rmTree(c); x.outcome(got); s.reset(); d.reset(); if(what) rmTree(gBase + "/cp" + S(at));
  }
  x.check(total >= (what ? 3 : 3), "steps", "only " + S(total) + " steps");
}
// ---- received files ----
static void copies(mc::Ctx &x) {
  Real real; std::unique_ptr<ShardDirectory> d(make(gBase + "/shard")); string all; for(int i = 0; i < 256; i++) all += (char)i; std::vector<string> c = {"", string(1, 0), "a", "\n", "\r\n", all, string(1023, 'x'), string(1024, 'y'), string(1025, 0), all + all + string(4096, 'z'), string(1 << 20, 'b') + all}; static const char *fn[] = {"a", "state-machine/000001.sst", "x/y/z w", "raft-journal/CURRENT"}; string err; x.check(d->resilveringStart("id", err), "start", err);
  int f = x.choose(4, "file"), i = x.choose((int)c.size(), "first"), k = x.choose((int)c.size(), "second"); for(int s : {i, k}) { x.check(d->resilveringCopy("id", fn[f], c[s], err), "copy", err); string got = slurp(gBase + "/shard/resilvering-arena/id/" + fn[f]); x.check(got == c[s], "bytes", string(fn[f]) + ": " + S(c[s].size()) + " bytes received, " + S(got.size()) + " stored"); } x.nontrivial(); x.transition(2); x.outcome(S(i) + S(k)); x.check(canon(*d).find("applied 0") == 0, "contents", "contents");
}
static void creation(mc::Ctx &x) {
  Real real; int raft = x.choose(2, "consensus"), seed = x.choose(2, "seed"), start = raft ? x.choose(2, "start") * 5 : 0; string c; std::unique_ptr<StateMachine> sm; if(seed) sm = seedMachine(gBase + "/seed", c); Status st; string p = gBase + "/shard", want = "applied " + S(start) + (seed ? " seed=s" : "") + (raft ? "; journal cluster-1 " + S(start) + ".." + S(start + 1) : "");
  std::unique_ptr<ShardDirectory> d(raft ? ShardDirectory::create(p, "cluster-1", "shard-1", nodes(), start, FsyncPolicy::kAsync, std::move(sm), st) : ShardDirectory::create(p, "cluster-1", "shard-1", std::move(sm), st)); x.check(d && st.ok(), "create", "creation fails"); string got = canon(*d); x.check(got.compare(0, want.size(), want) == 0, "create", "created: " + got + ", expected " + want); d->getStateMachine()->set("n", "1", start ? start + 1 : 0); got = canon(*d); d.reset(); d.reset(new ShardDirectory(p)); x.check(canon(*d) == got, "reopen", "reopened"); x.check(gEscape.empty(), "escape", "outside the directory: " + gEscape); x.transition(); x.nontrivial(); x.outcome(got);
}
static void encoding(mc::Ctx &x) {
  static const char *ids[] = {"a", "GENESIS", "GENESIS-FROM-EXISTING-SM-AT-INDEX:7", "2d1b-4f", "x y"}; static const time_t ts[] = {0, 1, 1700000000, -1}; int n = x.choose(4, "events"); ResilveringHistory h, r; for(int i = 0; i < n; i++) h.append(ResilveringEvent(ids[x.choose(5, "id")], ts[x.choose(n == 3 ? 2 : 4, "time")])); bool ok = ResilveringHistory::deserialize(h.serialize(), r); x.check(ok && r == h && r.size() == (size_t)n, "encoding", "a history does not survive: " + mc::quote(h.serialize())); for(int i = 0; i < n; i++) x.check(r.at(i) == h.at(i) && r.at(i).getID() == h.at(i).getID() && r.at(i).getStartTime() == h.at(i).getStartTime(), "event", "event"); x.transition(); x.nontrivial(); x.outcome(h.serialize());
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C43";
  c.rule = "On real RocksDB directories. Every sequence of 15 operations (reopen, writes, snapshots, checkpoints, resilvering finished or not, resets with and without a seed machine, wiping, creating again) up to depth 3 (thorough 5): contents of state machine and journal, history and shard id as expected, snapshots and supplanted contents complete. A resilvering, snapshot and checkpoint from 4 states: the directory as it is before every file-system call of the shard directory (the node dies there) is reopened and has to hold entirely the old or entirely the new contents, with nothing lost. The same with each call failing in turn. Received files byte for byte for all pairs of 11 contents and 4 names; creation in all variants; a snapshot or checkpoint during which entries are appended and applied between any two file-system steps, whose journal must be as far as its state machine; histories encoded and decoded.";
  c.assumptions = {"completed file-system calls survive the death of the node; buffered data not yet written does not", "RocksDB recovers its own directories"};
  c.spaces.push_back({"sequences", [](mc::Ctx &x) { sequences(x, x.tier(3, 5)); }}); c.spaces.push_back({"crash", crash}); c.spaces.push_back({"faults", faults}); c.spaces.push_back({"busy", busy}); c.spaces.push_back({"files", copies}); c.spaces.push_back({"creation", creation}); c.spaces.push_back({"encoding", encoding});
  return mc::main(argc, argv, c);
}
