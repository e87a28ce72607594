//@ sources: Utils.cc
//@ flags: -fsanitize=address
#include "mc.hh"
#include "../deps/StringMatchLen.h"
#include "storage/PatternMatching.hh"
#include <algorithm>
#include <bitset>
#include <cstring>
#include <map>
#include <vector>
using namespace quarkdb;
// reference: the pattern is turned into tokens first, and matched by dynamic programming
struct Tok { int kind; std::bitset<256> set; };   // 0 one of set, 1 star
static std::vector<Tok> tokens(const std::string &p) {
  std::vector<Tok> v; size_t n = p.size();
  for(size_t i = 0; i < n;) {
    Tok t{0, {}}; unsigned char c = p[i];
    if(c == '*') { t.kind = 1; i++; }
    else if(c == '?') { t.set.set(); i++; }
    else if(c == '[') {
      i++; bool neg = i < n && p[i] == '^'; if(neg) i++;
      while(i < n) {
        if(p[i] == '\\' && i + 1 < n) { t.set.set((unsigned char)p[i + 1]); i += 2; }
        else if(p[i] == ']') break;
        else if(i + 2 < n && p[i + 1] == '-') { int a = p[i], b = p[i + 2]; if(a > b) std::swap(a, b); for(int k = a; k <= b; k++) t.set.set((unsigned char)k); i += 3; }
        else { t.set.set((unsigned char)p[i]); i++; }
      }
      if(i < n) i++;
      if(neg) t.set.flip();
    }
    else { if(c == '\\' && i + 1 < n) i++; t.set.set((unsigned char)p[i]); i++; }
    v.push_back(t);
  }
  return v;
}
static bool matches(const std::vector<Tok> &p, const std::string &s) {
  std::vector<char> at(s.size() + 1, 0); at[0] = 1;
  for(auto &t : p) {
    std::vector<char> nx(s.size() + 1, 0);
    if(t.kind == 1) { bool on = false; for(size_t i = 0; i <= s.size(); i++) { on = on || at[i]; nx[i] = on; } }
    else for(size_t i = 0; i < s.size(); i++) if(at[i] && t.set[(unsigned char)s[i]]) nx[i + 1] = 1;
    at = nx;
  }
  return at[s.size()];
}
static std::vector<std::string> words(const std::string &alpha, int len) {
  std::vector<std::string> v{""}; size_t from = 0;
  for(int l = 0; l < len; l++) { size_t to = v.size(); for(size_t i = from; i < to; i++) for(char c : alpha) v.push_back(v[i] + c); from = to; }
  return v;
}
// Strings held in buffers of exactly their size, or followed by a byte that must not matter
static void one(mc::Ctx &x, const std::string &pat, const std::vector<std::string> &subjects) {
  auto toks = tokens(pat); std::string prefix = extractPatternPrefix(pat); bool some = false;
  for(int guard = 0; guard < 3; guard++) {
    static const char *tail[] = {"", "*", "]"};
    std::string t = tail[guard]; char *p = new char[pat.size() + t.size()]; memcpy(p, pat.data(), pat.size()); memcpy(p + pat.size(), t.data(), t.size());
    for(auto &s : subjects) {
      if(guard && s.size() > 2) continue;
      std::string st = guard == 1 ? "a" : guard == 2 ? "b" : ""; char *q = new char[s.size() + st.size()]; memcpy(q, s.data(), s.size()); memcpy(q + s.size(), st.data(), st.size());
      int got = stringmatchlen(p, pat.size(), q, s.size(), 0); delete[] q; x.transition();
      bool want = matches(toks, s); some = some || want;
      if((got != 0) != want || got < 0 || got > 1) x.fail("match", "pattern " + mc::quote(pat) + " and subject " + mc::quote(s) + ": got " + std::to_string(got) + ", expected " + std::to_string(want));
      if(want && s.compare(0, prefix.size(), prefix) != 0) x.fail("prefix", "pattern " + mc::quote(pat) + " matches " + mc::quote(s) + " which does not start with " + mc::quote(prefix));
    }
    delete[] p;
  }
  if(some) x.nontrivial(); x.outcome(prefix + (some ? "+" : "-"));
}
static void space(mc::Ctx &x, const std::string &alpha, int head, int rest, const std::string &sub, int sublen) {
  static std::map<std::string, std::vector<std::string>> cache; auto &subjects = cache[sub + std::to_string(sublen)]; if(subjects.empty()) subjects = words(sub, sublen);
  auto &tails = cache["T" + alpha + std::to_string(rest)]; if(tails.empty()) tails = words(alpha, rest);
  std::string p; for(int i = 0; i < head; i++) { int k = x.choose((int)alpha.size() + 1, "character"); if(k == (int)alpha.size()) { one(x, p, subjects); return; } p += alpha[k]; }
  for(auto &t : tails) one(x, p + t, subjects);
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C33";
  c.rule = "Every pattern up to length 5 (thorough 6) over 10 characters (letters, * ? [ ] ^ - \\ ), every pattern of stars and letters up to length 8, classes up to 6 characters, against every subject up to length 3-6 over the relevant letters; both held in exactly-sized heap buffers under AddressSanitizer and in buffers followed by misleading bytes; result compared with tokenisation and dynamic programming written from the redis glob rules.";
  c.spaces.push_back({"general", [](mc::Ctx &x) { space(x, "abA*?[]^-\\", 3, x.tier(2, 3), "abA-\\]", 3); }});
  c.spaces.push_back({"stars", [](mc::Ctx &x) { space(x, "ab*?", 4, x.tier(3, 5), "ab", 6); }});
  c.spaces.push_back({"classes", [](mc::Ctx &x) {
    static std::vector<std::string> in = words("acz-^]\\", 5), subs = words("abcz-]^\\", 2); int part = x.choose(64, "part"); const char *pre[] = {"", "*", "a"}; const char *post[] = {"", "]", "]*", "]b"};
    std::string a = pre[x.choose(3, "before")], b = post[x.choose(4, "after")];
    for(size_t i = part; i < in.size(); i += 64) { if(!x.thorough() && in[i].size() > 4) continue; one(x, a + "[" + in[i] + b, subs); }
  }});
  c.spaces.push_back({"binary", [](mc::Ctx &x) {
    std::vector<std::string> subs; for(int k = 0; k < 256; k++) { subs.push_back(std::string(1, (char)k)); subs.push_back("a" + std::string(1, (char)k)); }
    int k = x.choose(256, "byte"); std::string b(1, (char)k);
    for(auto &p : {b, "?" + b, "\\" + b, "[" + b + "]", "[^" + b + "]", "*" + b, "[" + b + "-z]", "[a-" + b + "]", "[\\" + b + "x]"}) one(x, p, subs);
  }});
  return mc::main(argc, argv, c);
}
