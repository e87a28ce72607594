//@ sources: Utils.cc StringUtils.cc
//@ flags: -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "mc.hh"
#include "Utils.hh"
#include "utils/IntToBinaryString.hh"
#include "utils/ParseUtils.hh"
#include "raft/RaftCommon.hh"
#include "raft/RaftMembers.hh"
#include <algorithm>
#include <climits>
#include <cstring>
#include <set>
using namespace quarkdb;
static std::string esc(const std::string &s) { return mc::quote(s); }
// exactly an optional minus and digits, the value fitting
static bool decimal(const std::string &s, __int128 lo, __int128 hi, int64_t &out) {
  size_t i = 0; bool neg = false; if(i < s.size() && s[i] == '-') { neg = true; i++; }
  if(i == s.size()) return false;
  __int128 v = 0;
  for(; i < s.size(); i++) { if(s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if(v > ((__int128)1 << 70)) v = (__int128)1 << 70; }
  if(neg) v = -v;
  if(v < lo || v > hi) return false;
  out = (int64_t)v; return true;
}
static void checkParse(mc::Ctx &x, const std::string &s) {
  char *p = new char[s.size()]; memcpy(p, s.data(), s.size()); int64_t got = 77, want = 0;
  bool ok = ParseUtils::parseInt64(std::string_view(p, s.size()), got); delete[] p; x.transition();
  bool exp = decimal(s, INT64_MIN, INT64_MAX, want); if(exp) x.nontrivial();
  if(ok != exp || (ok && got != want)) x.fail("decimal", esc(s) + " parsed as " + (ok ? std::to_string(got) : "an error") + ", expected " + (exp ? std::to_string(want) : "an error"));
}
static std::vector<uint64_t> values() {
  std::set<uint64_t> s;
  for(int k = 0; k < 64; k++) for(int d = -2; d <= 2; d++) { uint64_t v = ((uint64_t)1 << k) + d; s.insert(v); s.insert(0 - v); }
  for(int b = 0; b < 8; b++) for(int c = 0; c < 256; c++) s.insert((uint64_t)c << (8 * b));
  for(uint64_t v = 0; v < 70000; v += 37) s.insert(v);
  return {s.begin(), s.end()};
}
static void binary(mc::Ctx &x) {
  static std::vector<uint64_t> vs = values(); int part = x.choose(64, "part");
  for(size_t i = part; i < vs.size(); i += 64) {
    uint64_t a = vs[i]; std::string u = unsignedIntToBinaryString(a), s = intToBinaryString((int64_t)a);
    std::string want; for(int k = 7; k >= 0; k--) want += (char)(a >> (8 * k));
    if(u != want || s != want) x.fail("encode", "encoding of " + std::to_string(a));
    char buf[8]; unsignedIntToBinaryString(a, buf); if(std::string(buf, 8) != want) x.fail("encode", "buffer encoding of " + std::to_string(a));
    intToBinaryString((int64_t)a, buf); if(std::string(buf, 8) != want) x.fail("encode", "buffer encoding of " + std::to_string(a));
    std::string_view v(u); if(binaryStringToUnsignedInt(v) != a || binaryStringToInt(v) != (int64_t)a || binaryStringToUnsignedInt(u.data()) != a || binaryStringToInt(u.data()) != (int64_t)a) x.fail("decode", "decoding of " + std::to_string(a));
    std::ostringstream ss; append_int_to_string((int64_t)a, ss); if(ss.str().size() != 8 || fetch_int_from_string(ss.str().data()) != (int64_t)a) x.fail("raw", "raw integer " + std::to_string(a));
    for(uint64_t b : vs) { std::string w = unsignedIntToBinaryString(b); x.transition(); if((u < w) != (a < b) || (u == w) != (a == b)) x.fail("order", std::to_string(a) + " and " + std::to_string(b)); }
    checkParse(x, std::to_string((int64_t)a)); checkParse(x, std::to_string(a)); x.outcome(u);
  }
}
static void words(mc::Ctx &x, const std::string &alpha, int head, int rest, const std::function<void(const std::string&)> &f) {
  std::string p; for(int i = 0; i < head; i++) { int k = x.choose((int)alpha.size() + 1, "character"); if(k == (int)alpha.size()) { f(p); return; } p += alpha[k]; }
  std::function<void(int)> rec = [&](int left) { f(p); if(left) for(char c : alpha) { p += c; rec(left - 1); p.pop_back(); } };
  rec(rest);
}
static void bounds(mc::Ctx &x) {
  static const char *base[] = {"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "9999999999999999999", "1000000000000000000", "99999999999999999999999999", "4294967296", "2147483647"};
  std::string s = base[x.choose(9, "base")]; int at = x.choose((int)s.size() + 1, "position");
  static const char *ins[] = {"", "0", "9", "-", "+", " ", "x", "."}; std::string i = ins[x.choose(8, "inserted")]; bool neg = x.choose(2, "negative"), zeros = x.choose(2, "zeros");
  for(int rep = 0; rep < 10; rep++) { std::string t = s; if(at < (int)t.size()) t[at] = '0' + rep; t.insert(at, i); if(zeros) t = "000" + t; if(neg) t = "-" + t; checkParse(x, t); x.outcome(t); }
}
// server addresses and lists of them
static bool serverOK(const std::string &s, RaftServer &r) {
  if(std::count(s.begin(), s.end(), ':') != 1) return false;
  size_t c = s.find(':'); int64_t port; if(!decimal(s.substr(c + 1), INT_MIN, INT_MAX, port)) return false;
  r = RaftServer(s.substr(0, c), (int)port); return true;
}
static std::vector<std::string> cut(const std::string &s, char sep) { std::vector<std::string> v(1); for(char c : s) if(c == sep) v.emplace_back(); else v.back() += c; return v; }
static bool sound(const RaftServer &r) { return !r.hostname.empty() && r.hostname.find_first_of(",|:") == std::string::npos; }
static void serverText(mc::Ctx &x, const std::string &s) {
  RaftServer want, got; bool exp = serverOK(s, want) && sound(want), ok = parseServer(s, got); x.transition();
  // what is accepted must be a plain host:port and survive printing
  if(ok && !serverOK(s, want)) x.fail("server", "accepted " + esc(s));
  if(exp && !ok) x.fail("server", "refused " + esc(s));
  if(ok) { x.nontrivial(); RaftServer again; if(got != want) x.fail("server", esc(s) + " parsed as " + got.toString()); std::vector<RaftServer> l{got}, m; if(!parseServer(got.toString(), again) || again != got || !parseServers(serializeNodes(l), m) || m != l) x.fail("server-roundtrip", esc(s) + " is accepted as a server but does not survive printing"); }
}
static void serverLists(mc::Ctx &x, const std::string &s) {
  std::vector<RaftServer> want, got; bool exp = true; for(auto &p : cut(s, ',')) { RaftServer r; if(!serverOK(p, r) || !sound(r)) { exp = false; break; } for(auto &o : want) if(o == r) exp = false; want.push_back(r); }
  bool ok = parseServers(s, got); x.transition();
  if(ok != exp || (ok && got != want)) x.fail("servers", "list " + esc(s) + (ok ? " accepted" : " refused"));
  if(ok) { x.nontrivial(); std::vector<RaftServer> again; if(!parseServers(serializeNodes(got), again) || again != got) x.fail("servers-roundtrip", "list " + esc(s)); }
}
static void integers(mc::Ctx &x, const std::string &s, const std::string &sep) {
  std::vector<int64_t> want, got; bool exp = true; std::vector<std::string> parts; size_t pos = 0;
  while(true) { size_t e = s.find(sep, pos); parts.push_back(s.substr(pos, e == std::string::npos ? e : e - pos)); if(e == std::string::npos) break; pos = e + sep.size(); }
  for(auto &p : parts) { int64_t v; if(!decimal(p, INT64_MIN, INT64_MAX, v)) { exp = false; break; } want.push_back(v); }
  bool ok = ParseUtils::parseIntegerList(s, sep, got); x.transition(); if(ok) x.nontrivial();
  if(ok != exp || (ok && got != want)) x.fail("integer-list", esc(s) + " separated by " + esc(sep) + (ok ? " accepted" : " refused"));
  if(ParseUtils::split(s, sep) != parts || split(s, sep) != parts) x.fail("split", "splitting " + esc(s) + " at " + esc(sep));
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C35";
  c.rule = "All texts up to length 6 (thorough 8) over digits, signs, space and a letter; every single-character change of the numbers next to the limits; all server texts up to length 6 and lists up to length 7; ~5,600 boundary integers encoded, decoded and compared pairwise. Reference: 128-bit arithmetic and direct grammar.";
  c.spaces.push_back({"decimal", [](mc::Ctx &x) { words(x, "0159-+ x", 2, x.tier(4, 6), [&](const std::string &s) { checkParse(x, s); }); }});
  c.spaces.push_back({"limits", bounds});
  c.spaces.push_back({"binary", binary});
  c.spaces.push_back({"servers", [](mc::Ctx &x) { words(x, "a1:,|-", 2, x.tier(4, 5), [&](const std::string &s) { serverText(x, s); }); }});
  c.spaces.push_back({"server-lists", [](mc::Ctx &x) { words(x, "ab1:,", 2, x.tier(6, 8), [&](const std::string &s) { serverLists(x, s); }); }});
  c.spaces.push_back({"integer-lists", [](mc::Ctx &x) { std::string sep = x.choose(2, "separator") ? ":" : "::"; words(x, "1-:0,", 2, x.tier(5, 6), [&](const std::string &s) { integers(x, s, sep); }); }});
  c.spaces.push_back({"ports", [](mc::Ctx &x) { static const char *p[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "65536", "0", "-1", "00080", "99999999999999999999", "7777 ", " 7777", "+1", "0x10", ""}; std::string port = p[x.choose(15, "port")]; static const char *h[] = {"host.cern.ch", "a", "[::1", "a b", ""}; std::string host = h[x.choose(5, "host")]; serverText(x, host + ":" + port); serverLists(x, host + ":" + port + ",other:1"); serverLists(x, "other:1," + host + ":" + port); x.outcome(host + port); }});
  return mc::main(argc, argv, c);
}
