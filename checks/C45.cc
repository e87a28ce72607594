//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "raftmodel.hh"
#include "vsched.hh"
#include "reply.hh"
#include "conn.hh"
#include "Formatter.hh"
#include "Shard.hh"
#include "health/HealthIndicator.hh"
#include "storage/ParanoidManifestChecker.hh"
#include "raft/RaftUtils.hh"
#include "utils/Synchronized.hh"
#include <sys/vfs.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
using namespace quarkdb; using rn::S; using std::string; using H = HealthStatus; using Strs = std::vector<string>;
static vsched::Options opts(int p = 0) { vsched::Options o; o.preemptions = p; o.orders = p > 0; o.races = p > 0; o.spin = p ? 60 : 3000; o.maxSteps = 50000000; return o; }
static const char *kName[] = {"GREEN", "YELLOW", "RED"};
static int rank(H h) { return h == H::kGreen ? 0 : h == H::kYellow ? 1 : 2; }
static H hs(int i) { return i == 0 ? H::kGreen : i == 1 ? H::kYellow : H::kRed; }
// the file system as the node sees it
static struct { bool on = false, fail = false; struct statfs s{}; } gFs;
extern "C" int statfs(const char *, struct statfs *o) noexcept { if(gFs.on && gFs.fail) { errno = EIO; return -1; } if(gFs.on) { *o = gFs.s; return 0; } memset(o, 0, sizeof *o); o->f_bsize = 4096; o->f_blocks = 1ull << 30; o->f_bfree = o->f_bavail = 1ull << 29; return 0; }
static void level(int h) { gFs.on = true; gFs.fail = false; gFs.s = {}; gFs.s.f_bsize = 4096; gFs.s.f_blocks = 1ull << 28; gFs.s.f_bfree = gFs.s.f_bavail = h == 0 ? 1ull << 27 : h == 1 ? (3ull << 30) / 4096 : 1000; if(h == 1) gFs.s.f_blocks = 1ull << 22; }
// what a client is told, taken apart
struct Told { int overall = -1; string node, version; Strs lines; bool ok = false; };
static Told told(const resp::Value &v) { Told t; if(v.type != '*') return t; bool list = false; for(auto &e : v.arr) { if(e.type != '+') return t; if(list) t.lines.push_back(e.str); else if(e.str.substr(0, 12) == "NODE-HEALTH ") { for(int i = 0; i < 3; i++) if(e.str.substr(12) == kName[i]) t.overall = i; } else if(e.str.substr(0, 5) == "NODE ") t.node = e.str.substr(5); else if(e.str.substr(0, 8) == "VERSION ") t.version = e.str.substr(8); else if(e.str == "----------") list = true; } t.ok = list && t.overall >= 0; return t; }
static int statusOf(const string &line) { for(int i = 0; i < 3; i++) if(line.substr(0, strlen(kName[i]) + 1) == string(kName[i]) + " ") return i; return -1; }
static void judge(mc::Ctx &x, const string &what, const std::vector<HealthIndicator> &ind, const resp::Value &v) {
  Told t = told(v); x.check(t.ok, "format", what + " is reported as " + v.show()); int worst = 0; for(auto &i : ind) worst = std::max(worst, rank(i.getStatus())); x.check(rank(chooseWorstHealth(ind)) == worst, "worst", what + ": overall " + kName[rank(chooseWorstHealth(ind))] + " instead of " + kName[worst]); x.check(t.overall == worst, "overall", what + " is reported as " + kName[t.overall] + " instead of " + kName[worst]);
  x.check(t.lines.size() == ind.size(), "lines", what + ": " + S(t.lines.size()) + " lines for " + S(ind.size()) + " indicators: " + v.show());
  auto clean = [](string s) { for(auto &c : s) if(c == '\r' || c == '\n') c = ' '; return s; }; std::vector<bool> used(t.lines.size()); for(auto &i : ind) { bool found = false; for(size_t k = 0; k < used.size() && !found; k++) if(!used[k] && statusOf(t.lines[k]) == rank(i.getStatus()) && clean(t.lines[k]).find(clean(i.getDescription())) != string::npos && clean(t.lines[k]).find(clean(i.getMessage())) != string::npos) found = used[k] = true; x.check(found, "missing", what + ": " + kName[rank(i.getStatus())] + " " + i.getDescription() + " is not shown in " + v.show()); }
}
static void summary(mc::Ctx &x) {
  static const char *msg[] = {"fine", "a message | with parts", "two\r\nlines", ""}; int n = x.choose(x.tier(6, 8), "indicators"); std::vector<HealthIndicator> v; string what; for(int i = 0; i < n; i++) { int h = x.choose(3, "status"); v.emplace_back(hs(h), "IND-" + S(i / 2), msg[(h + i) % 4]); what += string(" ") + kName[h]; }
  for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) x.check(rank(chooseWorstHealth(hs(a), hs(b))) == std::max(a, b), "pair", string("of ") + kName[a] + " and " + kName[b] + " the worse is said to be " + kName[rank(chooseWorstHealth(hs(a), hs(b)))]);
  for(int a = 0; a < 3; a++) x.check(healthStatusAsString(hs(a)) == kName[a], "name", "status name"); bool named = x.choose(2, "named"); NodeHealth nh = named ? NodeHealth("1.2.3", "a:1", v) : NodeHealth("1.2.3", v); resp::Value r; x.check(resp::one(Formatter::nodeHealth(nh).val, r), "resp", "not a reply: " + mc::quote(Formatter::nodeHealth(nh).val));
  judge(x, "indicators" + what, v, r); Told t = told(r); x.check(t.node == (named ? "a:1" : "") && t.version == "1.2.3", "who", "node and version of " + r.show()); x.transition(); x.nontrivial(); x.outcome(what);
}
static void replicas(mc::Ctx &x) {
  static const LogIndex sizes[] = {0, 1, 29999, 30000, 30001, 1000000}; LogIndex L = sizes[x.choose(6, "log size")]; int n = x.choose(x.tier(5, 6), "replicas"); ReplicationStatus st; size_t online = 0, good = 0; string what = "log size " + S(L) + ":"; std::vector<int> kinds; RaftInfo info; const Strs names = {"a:1", "b:1", "c:1", "d:1", "e:1"};
  for(int i = 0; i < n; i++) { int k = x.choose(7, "replica"); kinds.push_back(k); LogIndex s[] = {L, -1, L - 30000, L - 29999, L - 1, L, L + 5}; bool on = k > 0; ReplicaStatus r(RaftServer{string(1, 'a' + i), 1}, on, s[k], "v" + S(i)); bool ok = on && s[k] >= 0 && L - s[k] < 30000; online += on; good += ok; what += " " + string(on ? "online " : "offline ") + S(s[k]);
    x.check(r.upToDate(L) == ok, "uptodate", what + ": the last is " + (ok ? "not " : "") + "considered up to date"); string t = r.toString(L); bool so = t.find("ONLINE") != string::npos && t.find("OFFLINE") == string::npos, su = t.find("UP-TO-DATE") != string::npos; x.check(so == on && su == ok && t.find(names[i]) == 0, "shown", what + ": the last is shown as " + t); st.addReplica(r); }
  x.check(st.replicasOnline() == online, "online", what + ": " + S(st.replicasOnline()) + " online"); x.check(st.replicasUpToDate(L) == good, "count", what + ": " + S(st.replicasUpToDate(L)) + " up to date"); bool quorum = n == 1 || (n > 0 && good > (size_t)n / 2); x.check(st.quorumUpToDate(L) == quorum, "quorum", what + ": the quorum is said to be " + (quorum ? "not " : "") + "up to date");
  info.logSize = L; info.replicationStatus = st; info.term = 1; info.logStart = 0; info.commitIndex = info.lastApplied = 0; info.blockedWrites = 0; info.lastStateChange = 0; info.status = RaftStatus::LEADER; info.fsyncPolicy = FsyncPolicy::kAsync; info.membershipEpoch = 0; int h = x.choose(3, "node health"); info.nodeHealthStatus = hs(h); std::map<string, int> seen; size_t healths = 0; for(auto &l : info.toVector()) { if(l.substr(0, 8) == "REPLICA ") { for(int i = 0; i < n; i++) if(l == "REPLICA " + st.replicas[i].toString(L)) seen[names[i]]++; } if(l.substr(0, 12) == "NODE-HEALTH ") { healths++; x.check(l.substr(12) == kName[h], "info", l + " for " + kName[h]); } }
  x.check(healths == 1, "info", "health shown " + S(healths) + " times"); for(int i = 0; i < n; i++) x.check(seen[names[i]] == 1, "list", what + ": " + names[i] + " is shown " + S(seen[names[i]]) + " times");
  for(int i = 0; i < 5; i++) { RaftServer s{string(1, 'a' + i), 1}; bool in = i < n; x.check(st.contains(s) == in, "contains", what + ": contains"); bool threw = false; try { ReplicaStatus r = st.getReplicaStatus(s); x.check(in && r.target == s && r.version == "v" + S(i), "get", what + ": wrong replica"); } catch(FatalException &) { threw = true; } x.check(threw == !in, "get", what + ": an unknown replica is found"); if(!in) continue; bool twice = false; try { st.addReplica(st.replicas[i]); } catch(FatalException &) { twice = true; } x.check(twice, "twice", what + ": a replica is added twice"); ReplicationStatus w = st; w.removeReplica(s); x.check(!w.contains(s) && w.replicas.size() == (size_t)n - 1 && w.replicasUpToDate(L) == good - st.replicas[i].upToDate(L), "remove", what + ": removal"); }
  x.transition(); x.nontrivial(); x.outcome(what);
}
static string smPath() { return rn::dir("n") + "/current/state-machine"; }
static void times(const string &p, time_t sec, long ns) { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600); struct timespec t[2] = {{sec, ns}, {sec, ns}}; futimens(fd, t); close(fd); }
// an empty database, and a real directory for the files that are looked at
static void freshDir() { vsched::Quiet q; gFs.on = false; string d = smPath(); for(auto f : {"MANIFEST-000001", "MANIFEST-000002", "000010.sst", "000011.sst", "x.sst.tmp", "OLD-MANIFEST", "CURRENT"}) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); fakedb::wipeAll(); { StateMachine sm(d); } mkdir(d.c_str(), 0700); }
static void space(mc::Ctx &x) {
  freshDir(); vsched::Quiet q; std::unique_ptr<StateMachine> sm(new StateMachine(smPath())); uint64_t gib = 1ull << 30; int bs = std::vector<int>{1, 4096, 1 << 20}[x.choose(3, "block size")]; static const int64_t kib[] = {0, 100, (1 << 20) - 1024, 1 << 20, (1 << 20) + 1024, 5 * (1 << 20) - 1024, 5 * (1 << 20), 5 * (1 << 20) + 1024, 100 * (1 << 20)}; size_t n = 0;
  for(int64_t k : kib) for(double used : {0.0, 0.5, 8.9, 9.1, 32.0, 32.6, 99.0}) for(uint64_t reserved : {(uint64_t)0, gib, 50 * gib}) {
    gFs.on = true; gFs.fail = false; gFs.s = {}; gFs.s.f_bsize = bs; uint64_t avail = (uint64_t)k * 1024 / bs, u = (uint64_t)((double)std::max<int64_t>(k, 1) * 1024 * used) / bs; gFs.s.f_bavail = avail; gFs.s.f_bfree = avail + reserved / bs; gFs.s.f_blocks = gFs.s.f_bfree + u; uint64_t bytes = avail * bs; int want = 0; auto least = [&](uint64_t lim) { return bytes <= lim; };
    __uint128_t a = (__uint128_t)avail * 100, tot = avail + u; if(least(5 * gib) || (tot && a <= 10 * tot)) want = 1; if(least(gib) || (tot && a <= 3 * tot)) want = 2; auto ind = sm->getHealthIndicators(); size_t hits = 0; for(auto &i : ind) if(i.getDescription() == "SM-FREE-SPACE") { hits++; x.check(rank(i.getStatus()) == want, "space", S(bytes) + " bytes available, " + S(u * bs) + " used, " + S(reserved) + " reserved: " + kName[rank(i.getStatus())] + " instead of " + kName[want]); } x.check(hits == 1, "space-shown", "free space is reported " + S(hits) + " times"); n++; }
  gFs.fail = true; for(auto &i : sm->getHealthIndicators()) if(i.getDescription() == "SM-FREE-SPACE") x.check(i.getStatus() == H::kRed, "statfs", "free space cannot be determined and is reported as " + string(kName[rank(i.getStatus())])); gFs.on = false; sm.reset(); x.transition(n); x.nontrivial(); x.outcome(S(bs));
}
static void manifest(mc::Ctx &x) {
  static const time_t base = 1600000000; static const int diff[] = {-7200, 0, 3599, 3600, 3601, 86400}; string dir = smPath(); freshDir(); long newestM = -1, newestS = -1; string what; for(int i = 0; i < 2; i++) { int k = x.choose(4, "manifest"); if(k < 3) { long t = base + k * 100; times(dir + "/MANIFEST-00000" + S(i + 1), t, 5); newestM = std::max(newestM, t); what += " M" + S(t - base); } } for(int i = 0; i < 2; i++) { int k = x.choose(7, "sst"); if(k < 6) { long t = base + 100 + diff[k]; times(dir + "/00001" + S(i) + ".sst", t, i); newestS = std::max(newestS, t); what += " S" + S(t - base); } } if(x.choose(2, "decoys")) { times(dir + "/x.sst.tmp", base + 1000000, 0); times(dir + "/OLD-MANIFEST", base + 1000000, 0); times(dir + "/CURRENT", base + 1000000, 0); what += " decoys"; }
  bool bad = newestM >= 0 && newestS >= 0 && newestS - newestM >= 3600;
  { ParanoidManifestChecker c(dir); vsched::settle(); x.check(c.getLastStatus().ok() == !bad, "checker", what + (bad ? ": the stale manifest goes unnoticed" : ": taken for a stale manifest")); }
  { StateMachine sm(dir); vsched::settle(); size_t hits = 0; for(auto &i : sm.getHealthIndicators()) if(i.getDescription() == "SM-MANIFEST-TIMEDIFF") { hits++; x.check(i.getStatus() == (bad ? H::kRed : H::kGreen), "indicator", what + ": reported as " + kName[rank(i.getStatus())]); } x.check(hits == 1, "shown", "reported " + S(hits) + " times");
    times(dir + "/MANIFEST-000002", base + 200000, 0); std::this_thread::sleep_for(std::chrono::minutes(6)); vsched::settle(); for(auto &i : sm.getHealthIndicators()) if(i.getDescription() == "SM-MANIFEST-TIMEDIFF") x.check(i.getStatus() == H::kGreen, "stale", what + ": still reported after the manifest was written"); }
  x.transition(); x.nontrivial(); x.outcome(what);
}
// a node in each role, asked over a connection
static void node(mc::Ctx &x) {
  freshDir(); { vsched::Quiet q; rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); } int fs = x.choose(3, "disk"), bad = x.choose(2, "manifest"), role = x.choose(4, "role"); level(fs); times(smPath() + "/MANIFEST-000001", 1600000000, 0); times(smPath() + "/000010.sst", 1600000000 + (bad ? 9000 : 0), 0);
  { rn::Group g("n", jr::srv("a")); g->dispatcher(); vsched::settle(); if(role == 1) g->state()->observed(3, jr::srv("b")); if(role >= 2) { g->state()->observed(3, {}); g->state()->becomeCandidate(3); } if(role == 3) g->state()->ascend(3);
    NodeHealth h = g->dispatcher()->getHealth(); resp::Value v; x.check(resp::one(Formatter::nodeHealth(h).val, v), "resp", "no reply"); judge(x, "node", h.getIndicators(), v); Told t = told(v); int want = std::max(fs, bad ? 2 : 0); bool leaderless = role == 0 || role == 2; if(leaderless) want = 2; std::map<string, int> at; for(auto &i : h.getIndicators()) { x.check(!at.count(i.getDescription()), "twice", i.getDescription() + " is reported twice"); at[i.getDescription()] = rank(i.getStatus()); }
    x.check(t.node == "a:1", "who", "reported for " + t.node); x.check(at.count("SM-FREE-SPACE") && at["SM-FREE-SPACE"] == fs, "disk", "free space"); x.check(at.count("SM-MANIFEST-TIMEDIFF") && at["SM-MANIFEST-TIMEDIFF"] == (bad ? 2 : 0), "manifest", "manifest"); x.check(at.count("PART-OF-QUORUM") && at["PART-OF-QUORUM"] == (leaderless ? 2 : 0), "quorum", "part of quorum"); x.check(t.overall >= want, "better", string("reported as ") + kName[t.overall] + ", a part is " + kName[want]);
    conn::Client c; c.feed(g->dispatcher(), "*1\r\n$9\r\nRAFT_INFO\r\n"); auto r = c.take(); x.check(r.size() == 1 && r[0].type == '*', "info", "no answer to RAFT_INFO"); size_t hits = 0; for(auto &l : r[0].arr) if(l.str.substr(0, 12) == "NODE-HEALTH ") { hits++; x.check(l.str.substr(12) == kName[t.overall], "info", "RAFT_INFO says " + l.str + ", health is " + kName[t.overall]); } x.check(hits == 1, "info", "RAFT_INFO reports health " + S(hits) + " times"); c.drop(); x.outcome(S(fs) + S(bad) + S(role) + kName[t.overall]); }
  gFs.on = false; x.transition(); x.nontrivial();
}
// a leader whose followers behave in different ways
static void leader(mc::Ctx &x) {
  static const char *how[] = {"answers", "answers with errors", "closes connections", "never answers", "answers with errors after 8 s", "closes connections after 8 s", "never answers after 8 s", "is away from 8 s to 20 s"}; freshDir(); { vsched::Quiet q; rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); }
  std::map<string, int> mode{{"b", x.choose(8, "b")}, {"c", x.choose(8, "c")}}; if(mode["b"] > mode["c"]) return; bool busy = x.choose(2, "writes"); std::map<string, LogIndex> has{{"b", 1}, {"c", 1}}; auto bad = [&](const string &h, uint64_t t) { int m = mode[h]; return m == 0 ? 0 : m <= 3 ? m : m <= 6 ? (t >= 8000 ? m - 3 : 0) : t >= 8000 && t < 20000 ? 3 : 0; }; static std::vector<std::promise<qclient::redisReplyPtr>> *limbo; { vsched::Quiet q; limbo = new std::vector<std::promise<qclient::redisReplyPtr>>(); }
  qclient::transport() = [&](const string &host, int, const Strs &req) {
    vsched::Quiet q; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); resp::Value v; v.type = '*'; auto add = [&](const string &s) { resp::Value e; e.type = '$'; e.str = s; v.arr.push_back(e); }; bool vote = req[0] == "RAFT_REQUEST_VOTE" || req[0] == "RAFT_REQUEST_PRE_VOTE"; int b = vote ? 0 : bad(host, vsched::now() / 1000000);
    if(b == 3) { limbo->push_back(std::move(p)); return f; } if(b == 2) { p.set_value(nullptr); return f; } if(b == 1) { v = {}; v.type = '-'; v.str = "ERR unavailable"; p.set_value(reply::make(v)); return f; }
    if(vote) { add(req[1]); add("granted"); } else if(req[0] == "RAFT_HEARTBEAT") { add(req[1]); add("1"); add(""); } else if(req[0] == "RAFT_APPEND_ENTRIES") { RedisRequest r; for(auto &e : req) r.emplace_back(e.data(), e.size()); RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(r), a)) x.check(false, "parse", "append entries"); LogIndex &h = has[host]; add(S(a.term)); bool fits = a.prevIndex < h; if(fits) h = a.prevIndex + 1 + a.entries.size(); add(S(h)); add(fits ? "1" : "0"); add(fits ? "" : "Log entry mismatch"); }
    p.set_value(reply::make(v)); return f; };
  { rn::Group g("n", jr::srv("a")); g->spinup(); int led = 0; string seen;
    while(vsched::now() / 1000000 < 32000) {
      std::this_thread::sleep_for(std::chrono::milliseconds(500)); uint64_t t = vsched::now() / 1000000; auto snap = g->state()->getSnapshot(); NodeHealth h = g->dispatcher()->getHealth(); bool lead = snap->status == RaftStatus::LEADER; if(lead && busy) g->journal()->append(g->journal()->getLogSize(), RaftEntry(snap->term, "SET", "k", "v"), false); if(g->state()->getSnapshot()->term != snap->term) continue;
      vsched::Quiet q; resp::Value v; x.check(resp::one(Formatter::nodeHealth(h).val, v), "resp", "no reply"); judge(x, "node at " + S(t) + " ms", h.getIndicators(), v); Told told_ = told(v); if(!lead) { if(snap->leader.empty()) x.check(told_.overall == 2, "lost", "at " + S(t) + " ms there is no leader, and health is " + kName[told_.overall]); continue; } led++;
      for(string f : {"b", "c"}) { int hits = 0, green = 0; for(auto &i : h.getIndicators()) if(i.getDescription() == "REPLICA" && i.getMessage().substr(0, 2) == f + ":") { hits++; green = i.getStatus() == H::kGreen; } x.check(hits == 1 || t < 4000, "replica", "at " + S(t) + " ms " + f + " is reported " + S(hits) + " times"); uint64_t since = 0; while(since < t && bad(f, t - since - 1)) since += 500; uint64_t fine = 0; while(fine < t && !bad(f, t - fine - 1)) fine += 500; if(since > 7500) x.check(!green, "dead", "at " + S(t) + " ms " + f + ", which " + how[mode[f]] + ", is reported as fine: " + v.show()); if(fine >= 4000 && t > 8000 && !busy) x.check(green, "alive", "at " + S(t) + " ms " + f + ", which " + how[mode[f]] + ", is reported as down: " + v.show()); }
      seen += kName[told_.overall][0]; }
    x.check(led > 0, "setup", "the node never leads"); x.outcome(S(mode["b"]) + S(mode["c"]) + S(busy) + seen); g->spindown(); }
  qclient::transport() = nullptr; { vsched::Quiet q; delete limbo; } x.nontrivial(); x.transition();
}
static void shard(mc::Ctx &x) {
  static string dir; if(dir.empty()) { dir = mc::scratch() + "/sh"; for(auto s : {"", "/current"}) mkdir((dir + s).c_str(), 0755); FILE *f = fopen((dir + "/SHARD-ID").c_str(), "w"); fputs("shard", f); fclose(f); f = fopen((dir + "/RESILVERING-HISTORY").c_str(), "w"); fputs("GENESIS - 1\n", f); fclose(f); }
  int fs = x.choose(3, "disk"), gone = x.choose(2, "bulkload finished");
  vsched::run(x, opts(), [&]() { { vsched::Quiet q; fakedb::wipeAll(); } level(fs); { ShardDirectory sd(dir); Shard sh(&sd, {}, gone ? Mode::bulkload : Mode::standalone, rn::timeouts(), ""); conn::Client c; auto ask = [&](const string &s) { c.feed(&sh, s); auto v = c.take(); x.check(v.size() == 1, "answers", "answered " + S(v.size()) + " times"); return v[0]; }; if(gone) ask("*1\r\n$25\r\nQUARKDB_BULKLOAD_FINALIZE\r\n");
    NodeHealth h = sh.getHealth(); resp::Value v = ask("*1\r\n$14\r\nQUARKDB_HEALTH\r\n"); judge(x, "shard", h.getIndicators(), v); Told t = told(v); x.check(t.overall == (gone ? 2 : fs), "shard", string("disk ") + kName[fs] + (gone ? ", no longer serving" : "") + ": reported as " + kName[t.overall]); c.drop(); } gFs.on = false; x.transition(); x.nontrivial(); x.outcome(S(fs) + S(gone)); });
}
static void concurrent(mc::Ctx &x, int kind) {
  if(kind == 0) { string d; { vsched::Quiet q; d = smPath(); mkdir(d.c_str(), 0700); times(d + "/MANIFEST-000001", 1600000000, 0); times(d + "/000010.sst", 1600009000, 0); } ParanoidManifestChecker c(d); bool was = false; for(int i = 0; i < 2; i++) { Status st = c.getLastStatus(); x.check(!was || !st.ok(), "back", "the stale manifest is forgotten"); x.check(st.ok() || st.getMsg().substr(0, 9) == "9000 sec,", "torn", "half a status: " + st.getMsg()); was = !st.ok(); } vsched::settle(); x.check(!c.getLastStatus().ok(), "unnoticed", "the stale manifest goes unnoticed"); x.outcome(S(was)); }
  else { Synchronized<string> v(string("first value, which is long")); std::thread w([&]() { v.set(string("second value, which is long")); v.set(""); }), w2; if(kind == 2) w2 = std::thread([&]() { v.set(string("third value, which is even longer")); }); string seen; for(int i = 0; i < 2; i++) { string g = v.get(); x.check(g == "" || g == "first value, which is long" || g == "second value, which is long" || g == "third value, which is even longer", "torn", "half a value: " + g); seen += S(g.size()) + " "; } w.join(); if(w2.joinable()) w2.join(); string g = v.get(); x.check(g == "" || (kind == 2 && g[0] == 't'), "lost", "last value: " + g); x.outcome(seen + S(g.size())); }
  x.transition(); x.nontrivial();
}
int main(int argc, char **argv) {
  Link::setConnectionLogging(false);
  mc::Check c; c.id = "C45";
  c.rule = "(a) All lists of up to 5 (thorough 7) indicators: overall equals the worst, and the client's reply shows each once. (b) All lists of up to 4 (thorough 5) replicas of 7 kinds (offline, unknown size, 30000 or 29999 behind, one behind, equal, ahead) against 6 log sizes: counts, quorum, RAFT_INFO, lookup, removal. (c) Disk levels around every threshold through an interposed statfs. (d) All combinations of up to 2 manifests and 2 data files with 6 time differences on disk, and recovery. (e) A real node in 4 roles x disk x manifest: dispatcher, encoded reply and RAFT_INFO agree. (f) A real leader with two followers that answer, fail, hang up or hang from the start or later (8 behaviours each), observed every 0.5 s of virtual time for 32 s: each replica shown once, not fine once silent for 7.5 s. (g) A shard serving or detached. (h) Status read while being replaced, every schedule up to 2 (thorough 3) preemptions, with race detection.";
  c.assumptions = {"the thresholds of disk space, manifest age and lag are those in the code and its comments"};
  c.spaces.push_back({"summary", summary}); c.spaces.push_back({"replicas", replicas});
  c.spaces.push_back({"space", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { space(x); }); }});
  c.spaces.push_back({"manifest", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { manifest(x); }); }});
  c.spaces.push_back({"node", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { node(x); }); }});
  c.spaces.push_back({"leader", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { leader(x); }); }});
  c.spaces.push_back({"shard", shard});
  c.spaces.push_back({"concurrent", [](mc::Ctx &x) { rn::dir("n"); int k = x.choose(3, "what"); vsched::run(x, opts(x.tier(2, 3)), [&]() { concurrent(x, k); }); }});
  return mc::main(argc, argv, c);
}
