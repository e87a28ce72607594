//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "raftnode.hh"
#include "raftmodel.hh"
#include "vsched.hh"
#include "reply.hh"
#include "conn.hh"
#include "Formatter.hh"
#include "Version.hh"
#include "raft/RaftTalker.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftContactDetails.hh"
#include <optional>
#include <sys/mman.h>
using namespace quarkdb; using rn::S; using std::string; using Strs = std::vector<string>;
static vsched::Options opts() { vsched::Options o; o.preemptions = 0; o.orders = false; o.races = false; o.spin = 3000; o.maxSteps = 50000000; return o; }
static string q(const Strs &v) { string s; for(auto &e : v) s += (s.empty() ? "" : " ") + mc::quote(e); return s; }
// ---- the messages, decoded by the book ----
static std::optional<int64_t> num(const string &s) {
  size_t i = !s.empty() && s[0] == '-'; if(i == s.size()) return {}; unsigned __int128 v = 0; for(; i < s.size(); i++) { if(s[i] < '0' || s[i] > '9') return {}; v = v * 10 + (s[i] - '0'); if(v > ((unsigned __int128)1 << 64)) return {}; }
  bool neg = s[0] == '-'; if(v > (unsigned __int128)INT64_MAX + neg) return {}; return neg ? (int64_t)-(__int128)v : (int64_t)v;
}
static std::optional<string> server(const string &s) { size_t c = s.find(':'); if(c == 0 || c == s.npos || s.find(':', c + 1) != s.npos || s.substr(0, c).find_first_of(",|") != s.npos) return {}; auto p = num(s.substr(c + 1)); if(!p || *p < INT_MIN || *p > INT_MAX) return {}; return s.substr(0, c) + ":" + S(*p); }
static string le(int64_t v) { string s; for(int i = 0; i < 8; i++) s += (char)((uint64_t)v >> (8 * i)); return s; }
static int64_t unle(std::string_view s) { uint64_t v = 0; for(int i = 0; i < 8; i++) v |= (uint64_t)(unsigned char)s[i] << (8 * i); return (int64_t)v; }
static string be(int64_t v) { string s = le(v); std::reverse(s.begin(), s.end()); return s; }
static int64_t unbe(std::string_view v) { string s(v.substr(0, 8)); std::reverse(s.begin(), s.end()); return unle(s); }
struct Ent { int64_t term; Strs args; string show() const { return S(term) + " (" + q(args) + ")"; } };
static string encode(const Ent &e) { string s = le(e.term); for(auto &a : e.args) s += le(a.size()) + a; return s; }
static std::optional<Ent> entry(std::string_view s) {
  if(s.size() < 8) return {}; Ent e{unle(s), {}}; s.remove_prefix(8);
  while(!s.empty()) { if(s.size() < 8) return {}; int64_t n = unle(s); s.remove_prefix(8); if(n < 0 || (uint64_t)n > s.size()) return {}; e.args.emplace_back(s.substr(0, n)); s.remove_prefix(n); }
  return e;
}
static std::optional<string> request(const Strs &p) {     // what a request means, if anything
  if(p[0] == "RAFT_HEARTBEAT") { if(p.size() != 3) return {}; auto t = num(p[1]); auto l = server(p[2]); if(!t || !l) return {}; return "heartbeat " + S(*t) + " " + *l; }
  if(p[0] == "RAFT_REQUEST_VOTE" || p[0] == "RAFT_REQUEST_PRE_VOTE") { if(p.size() != 5) return {}; auto t = num(p[1]), i = num(p[3]), lt = num(p[4]); auto c = server(p[2]); if(!t || !i || !lt || !c) return {}; return "vote " + S(*t) + " " + *c + " " + S(*i) + " " + S(*lt); }
  if(p.size() < 3 || p[2].size() != 40) return {}; auto l = server(p[1]); if(!l) return {}; std::string_view h(p[2]); if(unbe(h.substr(32)) != (int64_t)p.size() - 3) return {};
  string s = "append " + *l; for(int i = 0; i < 4; i++) s += " " + S(unbe(h.substr(8 * i))); for(size_t i = 3; i < p.size(); i++) { auto e = entry(p[i]); if(!e || e->args.empty()) return {}; s += " " + e->show(); } return s;
}
static RedisRequest toReq(const Strs &p) { RedisRequest r; for(auto &e : p) r.emplace_back(e.data(), e.size()); return r; }
static Ent ent(const RaftEntry &e) { Ent r{e.term, {}}; for(size_t i = 0; i < e.request.size(); i++) r.args.emplace_back(e.request[i]); return r; }
static std::optional<string> parsed(const Strs &p) {      // what the code makes of it
  RedisRequest r = toReq(p);
  if(p[0] == "RAFT_HEARTBEAT") { RaftHeartbeatRequest h; if(!RaftParser::heartbeat(r, h)) return {}; return "heartbeat " + S(h.term) + " " + h.leader.toString(); }
  if(p[0] == "RAFT_APPEND_ENTRIES") { RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(r), a)) return {}; string s = "append " + a.leader.toString() + " " + S(a.term) + " " + S(a.prevIndex) + " " + S(a.prevTerm) + " " + S(a.commitIndex); for(auto &e : a.entries) s += " " + ent(e).show(); return s; }
  RaftVoteRequest v; if(!RaftParser::voteRequest(r, v)) return {}; return "vote " + S(v.term) + " " + v.candidate.toString() + " " + S(v.lastIndex) + " " + S(v.lastTerm);
}
// every change of one part: parts missing, doubled, added; in each part every character removed, inserted, changed
static std::vector<string> twists(const string &s) {
  static const string alpha = string("\0", 1) + "0a:-+ ,|\xff"; std::vector<string> v; std::vector<size_t> at; for(size_t i = 0; i <= s.size(); i++) if(s.size() < 70 || i < 48 || i + 12 > s.size()) at.push_back(i);
  for(size_t i : at) { v.push_back(s.substr(0, i)); for(char c : alpha) { string t = s; t.insert(i, 1, c); v.push_back(t); if(i < s.size() && s[i] != c) { t = s; t[i] = c; v.push_back(t); } } if(i < s.size()) { string t = s; t.erase(i, 1); v.push_back(t); t = s; t[i] ^= 1; v.push_back(t); } }
  v.push_back(s + s); return v;
}
static std::vector<Strs> mutants(const Strs &p) {
  std::vector<Strs> v; for(size_t i = 1; i < p.size(); i++) { Strs t = p; t.erase(t.begin() + i); v.push_back(t); t = p; t.insert(t.begin() + i, p[i]); v.push_back(t); for(size_t k = i + 1; k < p.size(); k++) { t = p; std::swap(t[i], t[k]); v.push_back(t); } for(auto &w : twists(p[i])) { t = p; t[i] = w; v.push_back(t); } }
  for(size_t n = 1; n < p.size(); n++) v.push_back(Strs(p.begin(), p.begin() + n)); Strs t = p; t.push_back("x"); v.push_back(t); t.back() = "1"; v.push_back(t); t.back() = encode({1, {"SET", "k", "v"}}); v.push_back(t); return v;
}
static const std::vector<int64_t> kNums = {0, 1, 77, -1, INT64_MAX, INT64_MIN};
static const Strs kServers = {"a:1", "host-1.example.org:65535", "b:-3"}, kArgs = {"", "a", "SET", string("\0", 1), "\r\n", string(8, '\xff'), string(300, 'x')};
static RaftServer srvOf(const string &s) { RaftServer r; size_t c = s.find(':'); r.hostname = s.substr(0, c); r.port = atoi(s.c_str() + c + 1); return r; }
static Strs sent;      // the last request that went out
static void capture() { qclient::transport() = [](const string &, int, const Strs &req) { sent = req; std::promise<qclient::redisReplyPtr> p; p.set_value(nullptr); return p.get_future(); }; }
static void judge(mc::Ctx &x, const Strs &p, const string &meaning) {
  x.check(request(p).value_or("") == meaning, "encode", "sent as " + q(p) + "\nshould mean " + meaning + "\nmeans " + request(p).value_or("nothing"));
  size_t n = 0; auto one = [&](const Strs &m) { auto want = request(m), got = parsed(m); n++; x.check(want == got, want ? got ? "decode" : "refused" : "accepted", q(m) + "\nmeans " + want.value_or("nothing") + "\nis understood as " + got.value_or("nothing")); };
  one(p); for(auto &m : mutants(p)) one(m); x.transition(n); x.nontrivial(); x.outcome(meaning);
}
static void requests(mc::Ctx &x) {
  capture(); RaftContactDetails cd("cl", rn::timeouts(), ""); RaftTalker t(jr::srv("b"), cd, "x"); int kind = x.choose(4, "kind"); int64_t term = kNums[x.choose(6, "term")]; string who = kServers[x.choose(3, "server")];
  if(kind == 0) { t.heartbeat(term, srvOf(who)); judge(x, sent, "heartbeat " + S(term) + " " + who); return; }
  int64_t i = kNums[x.choose(6, "index")], lt = kNums[x.choose(6, "last term")];
  if(kind <= 2) { RaftVoteRequest v; v.term = term; v.candidate = srvOf(who); v.lastIndex = i; v.lastTerm = lt; t.requestVote(v, kind == 2); x.check(sent[0] == (kind == 2 ? "RAFT_REQUEST_PRE_VOTE" : "RAFT_REQUEST_VOTE"), "command", "sent " + sent[0]); judge(x, sent, "vote " + S(term) + " " + who + " " + S(i) + " " + S(lt)); return; }
  if(lt > term) return; int64_t c = kNums[x.choose(3, "commit index")]; int n = x.choose(3, "entries"); if(!x.thorough() && n && (i == -1 || i == 0 || lt == 1 || lt == -1)) return; std::vector<Ent> es; std::vector<RaftSerializedEntry> ser; string m = "append " + who + " " + S(term) + " " + S(i) + " " + S(lt) + " " + S(c);
  for(int k = 0; k < n; k++) { Ent e{k ? term : std::min<int64_t>(term, 1), {kArgs[(k * 3 + 2 + (i & 3)) % kArgs.size()]}}; if(k == 0) e.args.push_back(kArgs[x.choose(x.tier(3, (int)kArgs.size()), "argument") * 2 % kArgs.size()]); RaftEntry r(e.term, toReq(e.args)); ser.push_back(r.serialize()); m += " " + e.show(); }
  t.appendEntries(term, srvOf(who), i, lt, c, ser); judge(x, sent, m);
}
// data that ends where memory ends
struct Edge { char *base; Edge() { base = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + 4096, 4096, PROT_NONE); } std::string_view put(const string &s) { char *p = base + 4096 - s.size(); memcpy(p, s.data(), s.size()); return {p, s.size()}; } };
static void entries(mc::Ctx &x) {
  static Edge edge; Ent e{kNums[x.choose(6, "term")], {}}; int n = x.choose(x.tier(4, 5), "arguments"); for(int i = 0; i < n; i++) e.args.push_back(kArgs[x.choose((int)kArgs.size(), "argument")]);
  RaftEntry r(e.term, toReq(e.args)); string s = r.serialize(); auto back = entry(s); x.check(s == encode(e) || (back && back->show() == e.show()), "encode", e.show() + " is encoded as " + mc::quote(s)); x.check(RaftEntry::fetchTerm(edge.put(s)) == e.term, "term", "term of " + e.show()); size_t k = 0;
  auto one = [&](const string &m) { RaftEntry d; d.term = 99; d.request.emplace_back("old", 3); auto want = entry(m); bool ok = RaftEntry::deserialize(d, edge.put(m)); k++; x.check(ok == !!want, ok ? "accepted" : "refused", mc::quote(m) + (ok ? " is accepted" : " is refused")); if(ok) x.check(ent(d).show() == want->show(), "decode", mc::quote(m) + " is decoded as " + ent(d).show() + " instead of " + want->show()); };
  one(s); for(auto &m : twists(s)) one(m); size_t at = 8; static const std::vector<int64_t> lens = {-1, INT64_MIN, INT64_MAX, INT64_MAX - 7, 1ll << 32, 1, 0, 2, 9};
  for(auto &a : e.args) { for(int64_t l : lens) one(s.substr(0, at) + le(l) + s.substr(at + 8)); for(int d : {-1, 1, 8, -8}) one(s.substr(0, at) + le(a.size() + d) + s.substr(at + 8)); at += 8 + a.size(); } x.transition(k); x.nontrivial(); x.outcome(e.show());
}
// ---- replies ----
static std::optional<string> means(int kind, const resp::Value *v);
static std::optional<string> fetched(const resp::Value &v) { if(v.type != '*' || v.arr.size() != 2 || v.arr[0].type != '$' || v.arr[1].type != '*') return {}; auto &t = v.arr[0].str; if(t.substr(0, 6) != "TERM: ") return {}; auto n = num(t.substr(6)); if(!n) return {}; Ent e{*n, {}}; for(auto &a : v.arr[1].arr) { if(a.type != '$') return {}; e.args.push_back(a.str); } return e.show(); }
static std::optional<string> means(int kind, const resp::Value *v) {
  if(!v) return {}; if(kind == 3) return fetched(*v); if(v->type != '*') return {}; if(kind == 4) { string s; for(auto &e : v->arr) { auto m = fetched(e); if(!m) return {}; s += *m + "; "; } return s; }
  auto &a = v->arr; if(a.size() != (size_t)(kind == 0 ? 4 : kind == 1 ? 3 : 2)) return {}; for(auto &e : a) if(e.type != '$') return {}; auto t = num(a[0].str); if(!t) return {}; auto flag = [&](const string &s) { return s == "0" || s == "1"; };
  if(kind == 0) { auto l = num(a[1].str); if(!l || !flag(a[2].str)) return {}; return S(*t) + " " + S(*l) + " " + a[2].str + " " + a[3].str; } if(kind == 1) { if(!flag(a[1].str)) return {}; return S(*t) + " " + a[1].str + " " + a[2].str; }
  if(a[1].str != "granted" && a[1].str != "refused" && a[1].str != "veto") return {}; return S(*t) + " " + a[1].str;
}
static std::optional<string> understood(int kind, const resp::Value *v) {
  qclient::redisReplyPtr r = v ? reply::make(*v) : nullptr;
  if(kind == 0) { RaftAppendEntriesResponse a; if(!RaftParser::appendEntriesResponse(r, a)) return {}; return S(a.term) + " " + S(a.logSize) + " " + S(a.outcome) + " " + a.err; }
  if(kind == 1) { RaftHeartbeatResponse h; if(!RaftParser::heartbeatResponse(r, h)) return {}; return S(h.term) + " " + S(h.nodeRecognizedAsLeader) + " " + h.err; }
  if(kind == 2) { RaftVoteResponse b; if(!RaftParser::voteResponse(r, b)) return {}; return S(b.term) + " " + (b.vote == RaftVote::GRANTED ? "granted" : b.vote == RaftVote::REFUSED ? "refused" : "veto"); }
  if(kind == 3) { RaftEntry e; e.request.emplace_back("old", 3); if(!RaftParser::fetchResponse(r.get(), e)) return {}; return ent(e).show(); }
  std::vector<RaftEntry> es(1); if(!RaftParser::fetchLastResponse(r, es)) return {}; string s; for(auto &e : es) s += ent(e).show() + "; "; return s;
}
static resp::Value val(char t, const string &s = "") { resp::Value v; v.type = t; v.str = s; return v; }
static void twist(const resp::Value &v, const std::function<void(const resp::Value&)> &f, int depth = 0) {       // every change of one part of a reply
  for(char t : {'_', ':', '+', '-', '$', '*'}) if(t != v.type) f(val(t, t == ':' ? "1" : t == '_' || t == '*' ? "" : v.type == '$' ? v.str : "1")); if(v.type == '$') { for(auto &s : twists(v.str)) f(val('$', s)); for(auto s : {"0", "1", "2", "01", "true", "GRANTED", "granted", "refused", "veto", "TERM:1", "TERM: ", "TERM: 5"}) f(val('$', s)); }
  if(v.type == '*' && depth < 4) { for(size_t i = 0; i < v.arr.size(); i++) { resp::Value w = v; w.arr.erase(w.arr.begin() + i); f(w); w = v; w.arr.insert(w.arr.begin() + i, v.arr[i]); f(w); for(size_t k = i + 1; k < v.arr.size(); k++) { w = v; std::swap(w.arr[i], w.arr[k]); f(w); } twist(v.arr[i], [&](const resp::Value &e) { resp::Value u = v; u.arr[i] = e; f(u); }, depth + 1); } for(char t : {'$', '_', ':', '*', '+'}) { resp::Value w = v; w.arr.push_back(val(t, "1")); f(w); } }
}
static std::vector<resp::Value> replies(mc::Ctx &x, int kind, string &m) {
  std::vector<string> parts; string raw; int64_t t = kNums[x.choose(6, "term")]; auto text = [&]() { return Strs{"", "some error", string("\r\n\0x", 4)}[x.choose(3, "text")]; };
  if(kind == 0) { RaftAppendEntriesResponse a(t, kNums[x.choose(6, "log size")], x.choose(2, "outcome"), text()); m = S(t) + " " + S(a.logSize) + " " + S(a.outcome) + " " + a.err; raw = Formatter::vector(a.toVector()).val; }
  if(kind == 1) { RaftHeartbeatResponse h{t, x.choose(2, "recognised") == 1, text()}; m = S(t) + " " + S(h.nodeRecognizedAsLeader) + " " + h.err; raw = Formatter::vector(h.toVector()).val; }
  if(kind == 2) { int k = x.choose(3, "vote"); RaftVoteResponse b; b.term = t; b.vote = k == 0 ? RaftVote::GRANTED : k == 1 ? RaftVote::REFUSED : RaftVote::VETO; m = S(t) + (k == 0 ? " granted" : k == 1 ? " refused" : " veto"); raw = Formatter::vector(b.toVector()).val; }
  auto one = [&](int64_t term) { Ent e{term, {}}; int n = x.choose(kind == 3 ? x.tier(3, 4) : 3, "arguments"); for(int i = 0; i < n; i++) e.args.push_back(kArgs[x.choose((int)kArgs.size() - (kind == 4), "argument")]); return e; };
  if(kind == 3) { Ent e = one(t); m = e.show(); raw = Formatter::raftEntry(RaftEntry(t, toReq(e.args)), true).val; }
  if(kind == 4) { std::vector<RaftEntry> es; int n = x.choose(3, "entries"); if(!x.thorough() && n == 2 && t != 77) return {}; for(int i = 0; i < n; i++) { Ent e = one(i ? 3 : t); m += e.show() + "; "; es.emplace_back(e.term, toReq(e.args)); } raw = Formatter::raftEntries(es, true).val; }
  resp::Value v; x.check(resp::one(raw, v), "resp", "sent as " + mc::quote(raw)); return {v};
}
static void answers(mc::Ctx &x) {
  int kind = x.choose(5, "kind"); string m; auto vs = replies(x, kind, m); if(vs.empty()) return; resp::Value v = vs[0]; x.check(means(kind, &v).value_or("") == m, "encode", "sent as " + v.show() + "\nshould mean " + m); size_t n = 0;
  auto one = [&](const resp::Value *w) { auto want = means(kind, w), got = understood(kind, w); n++; x.check(want == got, want ? got ? "decode" : "refused" : "accepted", (w ? w->show() : "no reply") + "\nmeans " + want.value_or("nothing") + "\nis understood as " + got.value_or("nothing")); };
  one(&v); one(nullptr); twist(v, [&](const resp::Value &w) { one(&w); }); x.transition(n); x.nontrivial(); x.outcome(S(kind) + " " + m);
}
// ---- a node that receives them ----
static string wire(const Strs &p) { string s = "*" + S(p.size()) + "\r\n"; for(auto &e : p) s += "$" + S(e.size()) + "\r\n" + e + "\r\n"; return s; }
static void node(mc::Ctx &x) {
  { vsched::Quiet qq; fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); RaftJournal j(rn::journalPath("n")); j.setCurrentTerm(2, RaftServer()); for(int i = 1; i < 4; i++) j.append(i, RaftEntry(1, "SET", "k" + S(i), "v")); j.setCommitIndex(2); }
  rn::Group g("n", jr::srv("a")); g->dispatcher(); vsched::settle(); auto look = [&]() { return rm::show(*g->state()->getSnapshot()) + "\n" + jr::observe(*g->journal()) + "\n" + S(g->stateMachine()->getLastApplied()); }; string before = look();
  std::vector<Strs> base = {{"RAFT_HEARTBEAT", "3", "b:1"}, {"RAFT_REQUEST_VOTE", "3", "b:1", "9", "2"}, {"RAFT_REQUEST_PRE_VOTE", "3", "b:1", "9", "2"}, {"RAFT_APPEND_ENTRIES", "b:1", be(3) + be(3) + be(1) + be(3) + be(0)}, {"RAFT_APPEND_ENTRIES", "b:1", be(3) + be(2) + be(1) + be(4) + be(2), encode({2, {"SET", "k", "v"}}), encode({3, {"SET", "k", "w"}})}}; Strs b = base[x.choose(5, "message")];
  conn::Client c; int auth = x.choose(4, "handshake"); const Strs shakes[] = {{}, {"RAFT_HANDSHAKE", VERSION_FULL_STRING, "other", rn::timeouts().toString()}, {"RAFT_HANDSHAKE", VERSION_FULL_STRING, jr::kCluster, "1:2:3"}, {"RAFT_HANDSHAKE", VERSION_FULL_STRING, jr::kCluster, rn::timeouts().toString()}};
  auto ask = [&](const Strs &p) { c.feed(g->dispatcher(), wire(p)); bool bad = false; auto v = c.take(&bad); x.check(!bad && v.size() == 1, "replies", q(p) + " is answered " + S(v.size()) + " times"); return v[0]; };
  if(auth) { resp::Value v = ask(shakes[auth]); x.check((v.type == '+') == (auth == 3), "handshake", "handshake " + q(shakes[auth]) + " is answered " + v.show()); } size_t n = 0;
  if(auth < 3) { resp::Value v = ask(b); x.check(v.type == '-', "auth", q(b) + " without a handshake is answered " + v.show()); n++; }
  for(auto &m : mutants(b)) { bool empty = false; for(auto &e : m) empty |= e.empty(); if(empty || request(m)) continue; resp::Value v = ask(m); x.check(v.type == '-', "malformed", q(m) + " is answered " + v.show()); n++; }
  vsched::settle(); string after = look(); x.check(after == before, "effect", "malformed or unauthorised messages turned\n" + before + "\ninto\n" + after);
  if(auth == 3) { resp::Value v = ask(b); int k = b[0] == "RAFT_HEARTBEAT" ? 1 : b[0] == "RAFT_APPEND_ENTRIES" ? 0 : 2; auto m = means(k, &v); string want = k == 0 ? b.size() == 3 ? "3 4 1 " : "3 5 1 " : k == 1 ? "3 1 " : b[0] == "RAFT_REQUEST_VOTE" ? "3 granted" : "2 granted"; x.check(m && *m == want, "answer", q(b) + " is answered " + v.show() + ", expected " + want); } x.transition(n); x.nontrivial(); x.outcome(S(auth) + b[0] + S(b.size())); c.drop();
}
// ---- a leader that receives unexpected replies ----
static void leader(mc::Ctx &x) {
  { vsched::Quiet qq; fakedb::wipeAll(); rn::format("n", {jr::srv("a"), jr::srv("b"), jr::srv("c")}); } int which = x.choose(2, "replies to"), variant = x.choose(12, "variant"), first = x.choose(4, "from"); bool always = x.choose(2, "always"); int seen = 0; string cmd = which == 0 ? "RAFT_APPEND_ENTRIES" : "RAFT_HEARTBEAT"; std::map<string, LogIndex> has{{"b", 1}, {"c", 1}}; LogIndex bAcked = 0;
  qclient::transport() = [&](const string &host, int, const Strs &req) {
    vsched::Quiet qq; std::promise<qclient::redisReplyPtr> p; auto f = p.get_future(); resp::Value v = val('*'); auto add = [&](const string &s) { v.arr.push_back(val('$', s)); }; bool ok = true;
    if(req[0] == "RAFT_REQUEST_VOTE" || req[0] == "RAFT_REQUEST_PRE_VOTE") { add(req[1]); add("granted"); } else if(req[0] == "RAFT_HEARTBEAT") { add(req[1]); add("1"); add(""); }
    else if(req[0] == "RAFT_APPEND_ENTRIES") { RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(toReq(req), a)) x.check(false, "parse", "append entries"); LogIndex &h = has[host]; add(S(a.term)); bool fits = a.prevIndex < h; if(fits) h = a.prevIndex + 1 + a.entries.size(); add(S(h)); add(fits ? "1" : "0"); add(fits ? "" : "Log entry mismatch"); } else ok = false;
    bool spoil = host == "b" && req[0] == cmd && seen++ >= first && (always || seen == first + 1);
    if(spoil) switch(variant) { case 0: v = val('_'); break; case 1: v = val(':', "7"); break; case 2: v = val('+', "OK"); break; case 3: v = val('-', "ERR"); break; case 4: v = val('-', "ERR unavailable"); break; case 5: v = val('*'); break; case 6: v.arr.pop_back(); break; case 7: v.arr.push_back(val('$', "x")); break; case 8: v.arr[0] = val(':', "99"); break; case 9: v.arr[0].str = "99x"; break; case 10: for(auto &e : v.arr) e = val('*'); break; case 11: v = val('$', ""); break; }
    else if(req[0] == "RAFT_APPEND_ENTRIES" && host == "b") bAcked++;
    if(ok) p.set_value(reply::make(v)); else p.set_value(nullptr); return f; };
  { rn::Group g("n", jr::srv("a")); g->spinup(); LogIndex end = 0; int added = 0; RaftTerm term = -1;
    while(vsched::now() / 1000000 < 12000) { std::this_thread::sleep_for(std::chrono::milliseconds(250)); auto s = g->state()->getSnapshot(); if(s->status != RaftStatus::LEADER) continue; if(term == -1) term = s->term; x.check(s->term == term, "deposed", "a malformed reply led to term " + S(s->term)); if(added < 12) { added++; end = g->journal()->getLogSize(); g->journal()->append(end, RaftEntry(s->term, "SET", "k", "v"), false); } }
    x.check(added == 12, "setup", "the node does not lead"); x.check(g->journal()->getCommitIndex() == end, "stuck", "commit index " + S(g->journal()->getCommitIndex()) + ", should be " + S(end)); if(!always) x.check(has["b"] == end + 1, "lost", "b is no longer served: it holds " + S(has["b"]) + " entries of " + S(end + 1)); g->spindown(); }
  qclient::transport() = nullptr; x.nontrivial(); x.transition(); x.outcome(S(which) + " " + S(variant) + " " + S(first) + S(always));
}
int main(int argc, char **argv) {
  Link::setConnectionLogging(false);
  mc::Check c; c.id = "C25";
  c.rule = "(a) Every heartbeat, vote, pre-vote and append-entries request over small alphabets of terms, servers, indexes and entries as the real RaftTalker sends it, and every change of one part of it (parts removed, doubled, swapped, added; at every position a character removed, inserted or changed), decoded by the real RaftParser and compared with an independent decoder. (b) Every log entry with up to 3 (thorough 4) arguments over 7 strings, with every truncation, character change and length field change, read from memory that ends where the data ends. (c) The same for the 5 kinds of replies, incl. every change of the type of a part. (d) Every malformed variant of 5 messages sent to a real node over a connection with no, a refused and an accepted handshake: an error each, and nothing changes. (e) A real leader whose follower answers append-entries or heartbeats with 12 unexpected replies, once or always, at 4 moments.";
  c.assumptions = {"numbers are decimal digits with an optional minus sign"};
  c.spaces.push_back({"requests", requests}); c.spaces.push_back({"entries", entries}); c.spaces.push_back({"replies", answers});
  c.spaces.push_back({"node", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { node(x); }); }});
  c.spaces.push_back({"leader", [](mc::Ctx &x) { rn::dir("n"); vsched::run(x, opts(), [&]() { leader(x); }); }});
  return mc::main(argc, argv, c);
}
