//@ sources: Configuration.cc ConfigurationReader.cc FileUtils.cc Utils.cc StringUtils.cc DirectoryIterator.cc
//@ flags: -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS
#include "mc.hh"
#include "Configuration.hh"
#include "config/ConfigurationReader.hh"
#include "utils/FileUtils.hh"
#include "Utils.hh"
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
using namespace quarkdb;
typedef std::vector<std::pair<std::string, std::string>> Lines;     // option, value ("" none)
struct Want { bool ok = true; std::string mode, db, self, trace = "info", cert, key, pw, pwf; bool wal = true, req = false; };
static Want judge(const Lines &l) {
  Want w; std::map<std::string, std::string> v;
  for(auto &e : l) {
    std::string k = e.first; if(k.compare(0, 6, "redis.")) continue;
    static const char *known[] = {"mode", "database", "myself", "trace", "certificate", "certificate_key", "write_ahead_log", "password_file", "password", "require_password_for_localhost"};
    bool ok = false; for(auto n : known) if(k.substr(6) == n) ok = true;
    if(!ok || e.second.empty()) { w.ok = false; return w; }
    v[k.substr(6)] = e.second;
    auto in = [&](const char *key, std::initializer_list<const char*> vals) { if(k.substr(6) != key) return; for(auto a : vals) if(e.second == a) return; w.ok = false; };
    in("mode", {"standalone", "raft", "bulkload"}); in("trace", {"off", "error", "warn", "warning", "info", "debug", "all"}); in("write_ahead_log", {"true", "false"}); in("require_password_for_localhost", {"true", "false"}); in("myself", {"server1:7776", "h:1"});
  }
  if(!w.ok) return w;
  w.mode = v["mode"]; w.db = v["database"]; w.self = v["myself"]; if(v.count("trace")) w.trace = v["trace"]; w.cert = v["certificate"]; w.key = v["certificate_key"]; w.pw = v["password"]; w.pwf = v["password_file"];
  w.wal = v["write_ahead_log"] != "false"; w.req = v["require_password_for_localhost"] == "true";
  w.ok = !w.mode.empty() && !w.db.empty() && w.db.back() != '/' && (w.mode == "raft") == !w.self.empty() && w.cert.empty() == w.key.empty() && (w.pw.empty() || w.pwf.empty()) && !(w.req && w.pw.empty() && w.pwf.empty());
  return w;
}
static std::string traceName(TraceLevel t) { switch(t) { case TraceLevel::off: return "off"; case TraceLevel::error: return "error"; case TraceLevel::warning: return "warning"; case TraceLevel::info: return "info"; case TraceLevel::debug: return "debug"; } return "?"; }
static void verify(mc::Ctx &x, const Lines &l, const std::string &text) {
  Want w = judge(l); Configuration c; x.transition(); bool ok = Configuration::fromString(text, c);
  if(ok != w.ok) x.fail(ok ? "accepted" : "refused", std::string(ok ? "accepted: " : "refused: ") + mc::quote(text));
  if(!ok) { x.outcome("refused"); return; }
  x.nontrivial(); std::string t = w.trace == "warn" ? "warning" : w.trace == "all" ? "debug" : w.trace, m = w.mode;
  bool same = (c.getMode() == Mode::standalone) == (m == "standalone") && (c.getMode() == Mode::raft) == (m == "raft") && (c.getMode() == Mode::bulkload) == (m == "bulkload") && c.getDatabase() == w.db && traceName(c.getTraceLevel()) == t && c.getCertificatePath() == w.cert && c.getCertificateKeyPath() == w.key && c.getPassword() == w.pw && c.getPasswordFilePath() == w.pwf && c.getWriteAheadLog() == w.wal && c.getRequirePasswordForLocalhost() == w.req && (w.self.empty() ? c.getMyself().hostname.empty() : c.getMyself().toString() == w.self);
  x.check(same, "values", "the values read back differ: " + mc::quote(text)); x.outcome(mc::quote(text).substr(0, 40));
}
static std::string join(const Lines &l, int style) {
  std::string s; static const char *sep[] = {" ", "\t \t", "   ", " "}, *end[] = {"\n", " \n\n", "\n  ", "\r\n"}, *head[] = {"", "\n\n", "  ", " \r\n"};
  s = head[style]; for(size_t i = 0; i < l.size(); i++) { s += l[i].first; if(!l[i].second.empty()) s += sep[style] + l[i].second; if(i + 1 < l.size() || style != 2) s += end[style]; }
  return s;
}
struct Key { const char *name; std::vector<std::string> vals; };   // "-" absent, "" present without value
static void combos(mc::Ctx &x, const std::vector<Key> &ks, bool shuffle) {
  Lines l; for(auto &k : ks) { auto &v = k.vals[x.choose((int)k.vals.size(), k.name)]; if(v != "-") l.push_back({k.name, v}); }
  if(!shuffle) { verify(x, l, join(l, 0)); return; }
  int rot = l.empty() ? 0 : x.choose((int)l.size(), "rotation"); Lines r(l.begin() + rot, l.end()); r.insert(r.end(), l.begin(), l.begin() + rot); if(x.choose(2, "reversed")) std::reverse(r.begin(), r.end());
  static const Lines foreign = {{"if", "exec xrootd"}, {"#", "redis.mode bad"}, {"#redis.blah", "x"}, {"fi", ""}, {"xrd.protocol", "redis:7776 libXrdQuarkDB.so redis.trace"}, {"x", ""}, {"redis", "x"}, {"Redis.mode", "x"}};
  int f = x.choose((int)foreign.size() + 1, "foreign line"); if(f) r.insert(r.begin() + x.choose((int)r.size() + 1, "position"), foreign[f - 1]);
  verify(x, r, join(r, x.choose(4, "spacing")));
}
static void passwordFile(mc::Ctx &x) {
  int hi = x.choose(8, "owner"), mid = x.choose(8, "group"), lo = x.choose(8, "others"); mode_t m = hi * 64 + mid * 8 + lo; bool safe = m == 0400; x.transition();
  for(int sp = 0; sp < 8; sp++) x.check(areFilePermissionsSecure(m) == safe && areFilePermissionsSecure(m | S_IFREG) == safe, "permissions", "mode " + std::to_string(m));
  if(!safe && m % 5) return;
  static std::vector<std::string> cs = {"", "\n", " \t\r\n", "pickles", "pickles\n  \n", " two words ", std::string(1023, 'a'), std::string(1024, 'b'), std::string(1025, 'c') + "\n", std::string(2048, 'd'), std::string("a\0b", 3), "\n\nlead"};
  for(auto &s : cs) {
    std::string p = mc::scratch() + "/pw"; unlink(p.c_str()); int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if(write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); fchmod(fd, m); close(fd);
    std::string want = s; while(!want.empty() && isspace((unsigned char)want.back())) want.pop_back();
    Configuration c; if(!Configuration::fromString("redis.mode standalone\nredis.database /a\nredis.password_file " + p + "\n", c)) x.fail("refused", "password file configuration");
    std::string got; bool threw = false; try { got = c.extractPasswordOrDie(); } catch(FatalException&) { threw = true; } bool bad = !safe || want.empty(); x.transition();
    x.check(threw == bad, "password-file", "password file with mode " + std::to_string(m) + " holding " + mc::quote(s.substr(0, 20)) + (threw ? " refused" : " accepted")); if(!threw) { x.nontrivial(); x.check(got == want, "password", "password " + mc::quote(got.substr(0, 20)) + " from " + mc::quote(s.substr(0, 20))); }
    std::string all; x.check(readFile(p, all) && all == s, "read-file", "reading a file of " + std::to_string(s.size()) + " bytes"); unlink(p.c_str()); x.outcome(std::to_string(m) + got.substr(0, 9));
  }
}
// short texts over an alphabet of pieces, against a line-based reader
static void texts(mc::Ctx &x, int len) {
  static const std::vector<std::string> pieces = {" ", "\n", "redis.mode", "standalone", "redis.database", "/a", "redis.trace", "off", "\t", "#"};
  std::string t; int n = 0; for(; n < len; n++) { int k = x.choose((int)pieces.size() + 1, "piece"); if(k == (int)pieces.size()) break; t += pieces[k]; }
  static const char *tail[] = {"\nredis.mode standalone\nredis.database /x\n", ""}; t += tail[x.choose(2, "tail")];
  Lines l; size_t pos = 0; while(pos <= t.size()) { size_t e = t.find('\n', pos); std::string line = t.substr(pos, e == std::string::npos ? e : e - pos); std::vector<std::string> w; std::string cur; for(char ch : line + " ") { if(isspace((unsigned char)ch)) { if(!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; } if(!w.empty()) l.push_back({w[0], w.size() > 1 ? w[1] : ""}); if(e == std::string::npos) break; pos = e + 1; }
  verify(x, l, t); std::string p = mc::scratch() + "/cf"; if(n % 3 == 2) return; FILE *f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); Configuration c; x.check(Configuration::fromFile(p, c) == judge(l).ok, "from-file", "file with " + mc::quote(t)); unlink(p.c_str()); x.check(!Configuration::fromFile(p, c), "from-file", "a missing file is accepted");
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C42";
  std::vector<Key> all = {{"redis.mode", {"-", "standalone", "raft", "bulkload", "Raft"}}, {"redis.database", {"-", "/a/b", "/a/b/", "/"}}, {"redis.myself", {"-", "server1:7776", "server1", "server1:x"}}, {"redis.trace", {"-", "debug", "wrong"}}, {"redis.certificate", {"-", "/c"}}, {"redis.certificate_key", {"-", "/k"}}, {"redis.write_ahead_log", {"-", "false", "yes"}}, {"redis.password_file", {"-", "/p"}}, {"redis.password", {"-", "hunter2"}}, {"redis.require_password_for_localhost", {"-", "true", "1"}}};
  std::vector<Key> few = {{"redis.mode", {"-", "standalone", "raft", ""}}, {"redis.database", {"/a/b", "", "b"}}, {"redis.myself", {"-", "h:1"}}, {"redis.certificate", {"-", "/c", ""}}, {"redis.certificate_key", {"-", "/k"}}, {"redis.password", {"-", "x", ""}}};
  std::vector<Key> odd = {{"redis.mode", {"standalone", "-"}}, {"redis.database", {"/a"}}};
  c.rule = "All combinations of absent, valid, invalid and contradictory values for all ten options (about 100,000); all orders by rotation and reversal, foreign lines at every place, four spacings and missing values for six options; every misspelling of every option by a prefix, a suffix or one character; every value of the enumerated options; all texts of up to 5 (thorough 6) pieces; all 512 permission modes and 12 contents of password files. Reference: a line-based judge. Non-trivial: a configuration or password was accepted and its values compared.";
  c.spaces.push_back({"combinations", [=](mc::Ctx &x) { combos(x, all, false); }});
  c.spaces.push_back({"layouts", [=](mc::Ctx &x) { combos(x, few, true); }});
  c.spaces.push_back({"misspelt", [=](mc::Ctx &x) {
    static const Lines base = {{"redis.mode", "standalone"}, {"redis.database", "/a"}, {"redis.trace", "off"}, {"redis.certificate", "/c"}, {"redis.certificate_key", "/k"}, {"redis.write_ahead_log", "true"}, {"redis.password_file", "/p"}, {"redis.require_password_for_localhost", "true"}, {"redis.password", "x"}, {"redis.myself", "h:1"}};
    int k = x.choose(10, "option"); std::string n = base[k].first; int how = x.choose(5, "change"), at = x.choose((int)n.size() + 1, "position"); std::string bad = n;
    if(how == 0) bad = n.substr(0, at); else if(how == 1) bad.insert(at, "x"); else if(how == 2) { if(at == (int)n.size()) return; bad[at] = toupper(bad[at]); } else if(how == 3) { if(at == (int)n.size()) return; bad.erase(at, 1); } else { if(at) return; bad += bad; }
    Lines l = base; l[k].first = bad; if(k != 9) l.pop_back(); if(k != 6) l.erase(l.begin() + 8); if(k == 6) l.erase(l.begin() + 7); if(k == 9) l[0].second = "raft"; if(bad.empty()) l.erase(l.begin() + k);
    verify(x, l, join(l, 0)); Lines o = odd.empty() ? l : Lines{{"redis.mode", "standalone"}, {"redis.database", "/a"}, {bad, base[k].second}}; if(bad.empty()) o.pop_back(); verify(x, o, join(o, 0)); }});
  c.spaces.push_back({"values", [=](mc::Ctx &x) {
    static const char *opt[] = {"redis.mode", "redis.trace", "redis.write_ahead_log", "redis.require_password_for_localhost"}; static const char *v[] = {"standalone", "raft", "bulkload", "off", "error", "warn", "warning", "info", "debug", "all", "true", "false", "TRUE", "1", "0", "stand", "standalonex", "ra", "raftx", "warnin", "o", "tru", "truee"};
    int o = x.choose(4, "option"); std::string val = v[x.choose(23, "value")]; Lines l = {{"redis.database", "/a"}, {"redis.password", "p"}}; if(o) l.push_back({"redis.mode", "standalone"}); else if(val == "raft") l.push_back({"redis.myself", "h:1"}); l.push_back({opt[o], val}); verify(x, l, join(l, 1));
    Lines d = l; d.push_back({opt[o], o == 0 ? "bulkload" : o == 1 ? "off" : "true"}); verify(x, d, join(d, 0)); }});
  c.spaces.push_back({"texts", [](mc::Ctx &x) { texts(x, x.tier(5, 6)); }});
  c.spaces.push_back({"password-files", passwordFile});
  return mc::main(argc, argv, c);
}
