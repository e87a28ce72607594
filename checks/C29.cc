//@ sources: *
//@ lib: fakedb vsched
//@ flags: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "mc.hh"
#include "vsched.hh"
#include "fakedb.hh"
#include "conn.hh"
#include "Commands.hh"
#include "Configuration.hh"
#include "QuarkDBNode.hh"
#include "Shard.hh"
#include "ShardDirectory.hh"
#include "Timekeeper.hh"
#include "Utils.hh"
#include "utils/Macros.hh"
#include <sys/stat.h>
#include <set>
using namespace quarkdb;
static std::string S(long n) { return std::to_string(n); }
static const std::string kPw = std::string("correct horse battery staple 123") + std::string(1, '\0') + "tail";      // 37 bytes, one of them zero
static vsched::Options opts() { vsched::Options o; o.preemptions = 0; o.races = false; o.orders = false; return o; }
static std::string rnd(int k, size_t n = 64) { std::string s(n, 0); for(size_t i = 0; i < n; i++) s[i] = (char)(1 + (i * 7 + k * 31) % 255); return s; }
// only authentication; everything else answers whether it would be served
struct Gate : public Dispatcher {
  AuthenticationDispatcher auth; Gate(const std::string &p) : auth(p) {}
  LinkStatus dispatch(Connection *c, RedisRequest &r) override { if(r.getCommandType() == CommandType::AUTHENTICATION) return auth.dispatch(c, r); return c->authorization ? c->ok() : c->noauth("no"); }
  LinkStatus dispatch(Connection *c, Transaction &t) override { return c->raw(Formatter::multiply(c->authorization ? Formatter::ok() : Formatter::noauth("no"), t.expectedResponses())); }
  void notifyDisconnect(Connection *) override {}
};
struct Side { std::unique_ptr<conn::Client> c; bool authorised = false; std::vector<std::string> issued; bool live = false; uint64_t at = 0; };
static resp::Value send(mc::Ctx &x, Side &s, Dispatcher &d, const std::vector<std::string> &cmd) { int rc = s.c->feed(&d, resp::encode(cmd)); auto v = s.c->take(); x.check(rc == 1 && v.size() == 1, "reply", cmd[0] + ": " + S(v.size()) + " replies"); return v[0]; }
static void steps(mc::Ctx &x, int depth) {
  Gate g(kPw); Side s[2]; for(auto &e : s) e.c.reset(new conn::Client("elsewhere", false)); static const uint64_t sec = 1000000000ull; std::set<std::string> all;
  for(int d = 0; d < depth; d++) {
    int op = x.choose(19, "step"); if(op == 18) return; x.transition();
    if(op >= 16) { vsched::advance(op == 16 ? 59 * sec : 2 * sec); x.log("  time passes"); }
    else {
      int who = op >= 13 ? 1 : 0; Side &a = s[who]; bool ok = false; std::string what; resp::Value r;
      auto validate = [&](const std::string &sig, bool right) { bool good = right && a.live && vsched::now() <= a.at + 60 * sec; ok = good; a.live = false; r = send(x, a, g, {"HMAC-AUTH-VALIDATE-CHALLENGE", sig}); };
      auto sign = [&](const std::string &str, const std::string &key) { return Authenticator::generateSignature(str, key); };
      std::string last = a.issued.empty() ? rnd(9, 140) : a.issued.back();
      switch(op) {
        case 0: what = "right password"; ok = true; r = send(x, a, g, {"AUTH", kPw}); break;
        case 1: what = "password cut at the zero byte"; r = send(x, a, g, {"AUTH", kPw.substr(0, 32)}); break;
        case 2: what = "password and more"; r = send(x, a, g, {"AUTH", kPw + "x"}); break;
        case 3: what = "password and argument"; r = send(x, a, g, {"AUTH", kPw, kPw}); break;
        case 4: case 13: what = "challenge"; { std::string mine = rnd(1); r = send(x, a, g, {"HMAC-AUTH-GENERATE-CHALLENGE", mine}); x.check(r.type == '$' && r.str.size() > 128 && r.str.compare(0, 64, mine) == 0, "challenge", "challenge " + r.show()); x.check(all.insert(r.str.substr(r.str.size() - 64)).second, "reused-randomness", "the same random bytes were used in two challenges"); a.issued.push_back(r.str); a.live = true; a.at = vsched::now(); } break;
        case 5: what = "challenge with 63 bytes"; r = send(x, a, g, {"HMAC-AUTH-GENERATE-CHALLENGE", rnd(1, 63)}); x.check(r.type == '-', "challenge", "accepted 63 bytes"); break;
        case 6: what = "challenge with 65 bytes"; r = send(x, a, g, {"HMAC-AUTH-GENERATE-CHALLENGE", rnd(1, 65)}); x.check(r.type == '-', "challenge", "accepted 65 bytes"); break;
        case 7: case 14: what = "right signature"; validate(sign(last, kPw), !a.issued.empty()); break;
        case 8: what = "signature with the wrong key"; validate(sign(last, kPw.substr(0, 32)), false); break;
        case 9: what = "truncated signature"; validate(sign(last, kPw).substr(0, 31), false); break;
        case 10: what = "signature of the previous challenge"; validate(sign(a.issued.size() > 1 ? a.issued[a.issued.size() - 2] : rnd(8, 140), kPw), false); break;
        case 11: what = "signature of the other connection's challenge"; validate(sign(s[1].issued.empty() ? rnd(7, 140) : s[1].issued.back(), kPw), false); break;
        case 12: what = "signature with an argument too many"; r = send(x, a, g, {"HMAC-AUTH-VALIDATE-CHALLENGE", sign(last, kPw), "x"}); break;
        case 15: what = "signature of the other connection's challenge"; validate(sign(s[0].issued.empty() ? rnd(7, 140) : s[0].issued.back(), kPw), false); break;
      }
      a.authorised = ok; x.log("  connection ", who, ": ", what, " -> ", r.type, " ", ok);
      if(op != 4 && op != 13) x.check((r.type == '+') == ok, ok ? "refused" : "accepted", "connection " + S(who) + ": " + what + " was answered " + r.show());
      if(ok) x.nontrivial();
    }
    for(int w = 0; w < 2; w++) { x.check(s[w].c->c->authorization == s[w].authorised, s[w].authorised ? "not-authorised" : "authorised", "connection " + S(w) + (s[w].authorised ? " is not" : " is") + " authorised"); bool served = send(x, s[w], g, {"GET", "x"}).type == '+'; x.check(served == s[w].authorised, "served", "connection " + S(w) + " requests are " + (served ? "served" : "refused")); }
    x.outcome(S(op) + S(s[0].authorised) + S(s[1].authorised));
  }
}
static const std::string &dir() {      // a shard directory, made once per process
  static std::string d; if(d.empty()) { d = mc::scratch() + "/shard"; mkdir(d.c_str(), 0755); mkdir((d + "/current").c_str(), 0755); FILE *f = fopen((d + "/SHARD-ID").c_str(), "w"); fputs("shard", f); fclose(f); f = fopen((d + "/RESILVERING-HISTORY").c_str(), "w"); fputs("GENESIS - 1\n", f); fclose(f); } return d;
}
// a whole node: who is served what
static void node(mc::Ctx &x, int depth) {
  fakedb::wipeAll(); dir();
  int pw = x.choose(2, "password"), req = x.choose(2, "require for localhost"); static const char *hosts[] = {"elsewhere", "localhost", "127.0.0.1", "127.0.0.1.evil.org", "localhost.evil", "::1"}; if(!pw && req) return; int h = x.choose(6, "host"); bool local = h == 1 || h == 2 || h == 5;
  std::string text = "xrd.port 1\nxrd.protocol redis:1 x\nredis.mode standalone\nredis.database " + dir() + "\n"; static const std::string key(32, 'k'); if(pw) text += "redis.password " + key + "\n"; text += std::string("redis.require_password_for_localhost ") + (req ? "true" : "false") + "\n";
  Configuration cfg; x.check(Configuration::fromString(text, cfg), "configuration", "configuration refused");
  ShardDirectory sd(dir(), cfg); QuarkDBNode n(cfg, RaftTimeouts(std::chrono::milliseconds(1), std::chrono::milliseconds(2), std::chrono::milliseconds(1)), &sd);
  Side s; s.c.reset(new conn::Client(hosts[h], false)); bool open = !pw || (local && !req), authorised = false; bool queued = false; std::string store = fakedb::canon(fakedb::contents(dir() + "/current/state-machine"));
  for(int d = 0; d < depth; d++) {
    int op = x.choose(9, "request"); x.transition(); bool served = open || authorised; std::string bytes; std::vector<bool> want; // per reply: served
    auto one = [&](const std::vector<std::string> &c) { bytes += resp::encode(c); };
    switch(op) {
      case 0: one({"SET", "a", "b"}); break;
      case 1: one({"GET", "a"}); break;
      case 2: one({"SET", "a", "b"}); one({"SET", "c", "d"}); break;
      case 3: one({"MULTI"}); one({"SET", "a", "b"}); one({"EXEC"}); break;
      case 4: { Transaction t; RedisRequest r{"SET", "a", "b"}; t.push_back(std::move(r)); one({"TX_READWRITE", t.serialize(), "real"}); break; }
      case 5: one({"AUTH", key}); break;
      case 6: one({"AUTH", std::string(32, 'j')}); break;
      case 7: one({"SET", "a", "b"}); one({"AUTH", key}); one({"SET", "e", "f"}); break;
      case 8: one({"SUBSCRIBE", "ch"}); break;
    }
    int rc = s.c->feed(&n, bytes); auto v = s.c->take(); std::string got; for(auto &e : v) got += e.show() + " "; x.log("  ", op, " -> ", got);
    auto refused = [&](size_t i) { return v[i].type == '-' && v[i].str.compare(0, 6, "NOAUTH") == 0; };
    std::string now = fakedb::canon(fakedb::contents(dir() + "/current/state-machine")); size_t expect = op == 2 ? 2 : op == 3 || op == 7 ? 3 : 1;
    x.check(rc == 1 && v.size() == expect, "replies", "request " + S(op) + " -> " + got);
    if(op == 5) { x.check((v[0].type == '+') == (pw == 1), "auth", "AUTH with the right password -> " + got); authorised = pw; }
    else if(op == 6) { x.check(v[0].type == '-', "auth", "AUTH with a wrong password -> " + got); authorised = false; }
    else if(op == 7) { x.check(refused(0) == !served && (v[1].type == '+') == (pw == 1) && !refused(2), "auth", "SET, AUTH, SET -> " + got); authorised = pw; }
    else { x.check(refused(v.size() - 1) == !served, served ? "refused" : "served", std::string("a connection from ") + hosts[h] + (served ? " which may be served is refused: " : " which must not be served is served: ") + got); if(op == 2) x.check(refused(0) == !served, "served", got); }
    if(!served && op != 7) x.check(now == store, "effect", "a refused request changed the store: " + got);
    store = now; if(!served) x.nontrivial(); x.outcome(S(op) + S(served) + got);
  }
}
// every command the server knows, unauthenticated
static void every(mc::Ctx &x) {
  fakedb::wipeAll(); dir(); static std::vector<std::string> names; if(names.empty()) for(auto &e : redis_cmd_map) if(e.second.second != CommandType::AUTHENTICATION) names.push_back(e.first);
  std::string text = "xrd.port 1\nxrd.protocol redis:1 x\nredis.mode standalone\nredis.database " + dir() + "\nredis.password " + std::string(32, 'k') + "\n"; Configuration cfg; x.check(Configuration::fromString(text, cfg), "configuration", "refused");
  std::string name = names[x.choose((int)names.size(), "command")]; int args = x.choose(4, "arguments"); bool before = x.choose(2, "after MULTI"); std::vector<std::string> c = {name}; for(int i = 0; i < args; i++) c.push_back(mc::scratch() + "/none");
  ShardDirectory sd(dir(), cfg); QuarkDBNode n(cfg, RaftTimeouts(std::chrono::milliseconds(1), std::chrono::milliseconds(2), std::chrono::milliseconds(1)), &sd); Side s; s.c.reset(new conn::Client("elsewhere", false));
  std::string store = fakedb::canon(fakedb::contents(dir() + "/current/state-machine")); x.transition(); std::string bytes = (before ? resp::encode({"MULTI"}) : "") + resp::encode(c) + (before ? resp::encode({"EXEC"}) : "");
  int rc = s.c->feed(&n, bytes); auto v = s.c->take(); std::string got; for(auto &e : v) got += e.show() + " "; x.log("  ", name, " -> ", got);
  x.check(store == fakedb::canon(fakedb::contents(dir() + "/current/state-machine")), "effect", name + " had an effect without authentication");
  bool harmless = name == "multi" || name == "exec" || name == "discard" || redis_cmd_map[name].first == RedisCommand::TX_READWRITE || redis_cmd_map[name].first == RedisCommand::TX_READONLY;   // handled by the connection itself
  for(auto &e : v) { bool fine = e.type == '-' || (e.type == '+' && (e.str == "OK" || e.str == "QUEUED") && (before || harmless)) || (e.type == '*' && e.arr.empty() && (before || harmless)); x.check(fine, "served", name + " answered without authentication: " + e.show()); }
  if(!before && !harmless) x.check(rc == 1 && v.size() == 1 && v[0].str.compare(0, 6, "NOAUTH") == 0, "served", name + " -> " + got);
  x.nontrivial(); x.outcome(name + got); struct stat st; x.check(stat((mc::scratch() + "/none").c_str(), &st) != 0, "effect", name + " created a directory");
}
// passwords the server starts with, and what authentication grants without one
static void secrets(mc::Ctx &x) {
  int len = x.choose(70, "length"); bool threw = false; std::string p(len, 'p'); x.transition();
  try { AuthenticationDispatcher a(p); if(p.empty()) {
    bool auth = x.choose(2, "flag"); std::unique_ptr<Authenticator> none; int k = x.choose(3, "command"); RedisRequest r; if(k == 0) r = {"AUTH", "x"}; else if(k == 1) r = {"HMAC-AUTH-GENERATE-CHALLENGE", rnd(1)}; else r = {"HMAC-AUTH-VALIDATE-CHALLENGE", std::string(32, 'x')};
    auto reply = a.dispatch(r, auth, none).val; x.check(reply[0] == '-', "no-password", "authentication without a password -> " + reply); } } catch(FatalException&) { threw = true; }
  x.check(threw == (len > 0 && len < 32), "length", "a password of " + S(len) + " bytes is " + (threw ? "refused" : "accepted")); x.nontrivial(); x.outcome(S(threw));
  bool threw2 = false; try { Authenticator a(p); } catch(FatalException&) { threw2 = true; } x.check(threw2 == (len > 0 && len < 32), "length", "authenticator");
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C29"; Link::setConnectionLogging(false);
  c.rule = "All sequences of up to 4 (thorough 5) authentication steps out of 18 over two real connections under virtual time: right, truncated and extended passwords, challenges of right and wrong size, signatures that are right, truncated, of another key, stale, of the other connection, replayed, and time passing around the one-minute limit; after each step both authorisation flags and whether a request is served are compared with the rule. A whole node on an in-memory store with and without password, with and without the localhost exception, from 6 hosts, all sequences of up to 3 (thorough 4) requests; every command the server knows with 0-3 arguments unauthenticated, plain and inside MULTI; passwords of all lengths up to 69. Non-trivial: authorisation was granted, or a request had to be refused.";
  c.assumptions = {"HMAC-SHA256 and the random generator of OpenSSL are trusted"};
  c.spaces.push_back({"steps", [](mc::Ctx &x) { vsched::run(x, opts(), [&]() { steps(x, x.tier(4, 5)); }); }});
  c.spaces.push_back({"node", [](mc::Ctx &x) { dir(); vsched::run(x, opts(), [&]() { node(x, x.tier(3, 4)); }); }});
  c.spaces.push_back({"every-command", [](mc::Ctx &x) { dir(); vsched::run(x, opts(), [&]() { every(x); }); }});
  c.spaces.push_back({"secrets", [](mc::Ctx &x) { vsched::run(x, opts(), [&]() { secrets(x); }); }});
  return mc::main(argc, argv, c);
}
