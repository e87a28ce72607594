// Reference model of the data commands: plain maps, sets and lists.
#ifndef KVMODEL_HH
#define KVMODEL_HH
#include "resp.hh"
#include <cstdint>
#include <climits>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace model {
using Cmd = std::vector<std::string>;
using resp::Value;

// Independent glob matcher: recursive, by the documented redis rules.
inline bool glob(const std::string &p, size_t i, const std::string &s, size_t j) {
  if(i == p.size()) return j == s.size();
  char c = p[i];
  if(c == '*') { for(size_t k = j; k <= s.size(); k++) if(glob(p, i + 1, s, k)) return true; return false; }
  if(j == s.size()) return false;
  if(c == '?') return glob(p, i + 1, s, j + 1);
  if(c == '\\' && i + 1 < p.size()) return s[j] == p[i + 1] && glob(p, i + 2, s, j + 1);
  if(c == '[') {
    size_t k = i + 1; bool neg = k < p.size() && p[k] == '^'; if(neg) k++;
    bool m = false;
    while(k < p.size() && p[k] != ']') {
      if(p[k] == '\\' && k + 1 < p.size()) { if(p[k + 1] == s[j]) m = true; k += 2; }
      else if(k + 2 < p.size() && p[k + 1] == '-') {
        unsigned char a = p[k], b = p[k + 2]; if(a > b) std::swap(a, b);
        if((unsigned char)s[j] >= a && (unsigned char)s[j] <= b) m = true;
        k += 3;
      }
      else { if(p[k] == s[j]) m = true; k++; }
    }
    if(k < p.size()) k++;       // past ]; an unterminated class ends with the pattern
    return m != neg && glob(p, k, s, j + 1);
  }
  return c == s[j] && glob(p, i + 1, s, j + 1);
}
inline bool glob(const std::string &p, const std::string &s) { return glob(p, 0, s, 0); }

struct Val {
  char type;      // s h S d l v L
  std::string s;                                              // string, lease holder
  std::map<std::string, std::string> h;                       // hash, versioned hash
  std::set<std::string> set;
  std::deque<std::string> d;
  std::map<std::string, std::pair<std::string, std::string>> lh;   // field -> (hint, value)
  uint64_t version = 0, deadline = 0;
  size_t size() const {
    switch(type) { case 's': case 'L': return s.size(); case 'h': case 'v': return h.size(); case 'S': return set.size(); case 'd': return d.size(); default: return lh.size(); }
  }
};
inline const char *typeName(char t) {
  switch(t) { case 's': return "string"; case 'h': return "hash"; case 'S': return "set"; case 'd': return "deque"; case 'l': return "locality hash"; case 'L': return "lease"; case 'v': return "versioned hash"; }
  return "none";
}
inline bool toInt(const std::string &s, int64_t &v) {     // a decimal number that fits
  if(s.empty()) return false;
  size_t i = 0; bool neg = false; if(s[0] == '-') { neg = true; i = 1; } else if(s[0] == '+') i = 1;
  if(i == s.size()) return false;
  __int128 x = 0;
  for(; i < s.size(); i++) { if(!isdigit((unsigned char)s[i])) return false; x = x * 10 + (s[i] - '0'); if(x > ((__int128)1 << 64)) return false; }
  if(neg) x = -x;
  if(x > INT64_MAX || x < INT64_MIN) return false;
  v = (int64_t)x; return true;
}
inline uint64_t fromTs(const std::string &s) { uint64_t v = 0; for(unsigned char c : s) v = v << 8 | c; return v; }

class Store {
public:
  std::map<std::string, Val> keys;
  std::map<std::string, std::string> config;
  uint64_t clock = 0;
  // versioned hashes touched in the current transaction
  std::set<std::string> bumped;
  void beginTx() { bumped.clear(); }

  static std::string canonName(std::string s) { for(char &c : s) { c = tolower((unsigned char)c); if(c == '-') c = '_'; } return s; }
  Val *find(const std::string &k) { auto it = keys.find(k); return it == keys.end() ? nullptr : &it->second; }
  // nullptr in *v with ok when absent
  bool typed(const std::string &k, char t, Val *&v) { v = find(k); return !v || v->type == t; }
  Val &make(const std::string &k, char t) { auto &v = keys[k]; v.type = t; return v; }
  void drop(const std::string &k) { auto it = keys.find(k); if(it != keys.end() && it->second.type != 'v' && it->second.size() == 0) keys.erase(it); }
  static Value wrongType() { return resp::error("WRONGTYPE"); }
  static Value err() { return resp::error("ERR"); }
  void bump(const std::string &k, Val &v) { if(bumped.insert(k).second) v.version++; }
  void advance(uint64_t t) {
    if(t <= clock) return;
    for(auto it = keys.begin(); it != keys.end();) { if(it->second.type == 'L' && it->second.deadline <= t) it = keys.erase(it); else ++it; }
    clock = t;
  }

  Value exec(const Cmd &c) {
    std::string n = canonName(c[0]); size_t z = c.size(); Val *v = nullptr, *w = nullptr;
    #define NEED(cond) do { if(!(cond)) return err(); } while(0)
    #define TYPED(key, t, var) do { if(!typed(key, t, var)) return wrongType(); } while(0)
    if(n == "set") { NEED(z == 3); TYPED(c[1], 's', v); make(c[1], 's').s = c[2]; return resp::status("OK"); }
    if(n == "get") { NEED(z == 2); TYPED(c[1], 's', v); return v ? resp::str(v->s) : resp::nil(); }
    if(n == "exists") { NEED(z >= 2); int k = 0; for(size_t i = 1; i < z; i++) k += !!find(c[i]); return resp::integer(k); }
    if(n == "del") { NEED(z >= 2); int k = 0; for(size_t i = 1; i < z; i++) { k += (int)keys.erase(c[i]); if(bumped.erase(c[i])) {} } return resp::integer(k); }
    if(n == "type") { NEED(z == 2); v = find(c[1]); return resp::status(v ? typeName(v->type) : "none"); }
    if(n == "keys") { NEED(z == 2); std::vector<std::string> r; for(auto &k : keys) if(glob(c[1], k.first)) r.push_back(k.first); return resp::array(r); }
    if(n == "flushall") { NEED(z == 1); keys.clear(); bumped.clear(); return resp::status("OK"); }
    if(n == "config_set") { NEED(z == 3); config[c[1]] = c[2]; return resp::status("OK"); }
    if(n == "config_get") { NEED(z == 2); auto it = config.find(c[1]); return it == config.end() ? resp::nil() : resp::str(it->second); }
    if(n == "config_getall") { NEED(z == 1); std::vector<std::string> r; for(auto &k : config) { r.push_back(k.first); r.push_back(k.second); } return resp::array(r); }
    // hashes
    if(n == "hset" || n == "hsetnx") {
      NEED(z == 4); TYPED(c[1], 'h', v);
      if(v && v->h.count(c[2])) { if(n == "hset") v->h[c[2]] = c[3]; return resp::integer(0); }
      make(c[1], 'h').h[c[2]] = c[3]; return resp::integer(1);
    }
    if(n == "hmset") { NEED(z >= 4 && z % 2 == 0); TYPED(c[1], 'h', v); auto &x = make(c[1], 'h'); for(size_t i = 2; i < z; i += 2) x.h[c[i]] = c[i + 1]; return resp::status("OK"); }
    if(n == "hget") { NEED(z == 3); TYPED(c[1], 'h', v); return v && v->h.count(c[2]) ? resp::str(v->h[c[2]]) : resp::nil(); }
    if(n == "hexists") { NEED(z == 3); TYPED(c[1], 'h', v); return resp::integer(v && v->h.count(c[2])); }
    if(n == "hlen") { NEED(z == 2); TYPED(c[1], 'h', v); return resp::integer(v ? v->h.size() : 0); }
    if(n == "hkeys" || n == "hvals" || n == "hgetall") {
      NEED(z == 2); TYPED(c[1], 'h', v); std::vector<std::string> r;
      if(v) for(auto &k : v->h) { if(n != "hvals") r.push_back(k.first); if(n != "hkeys") r.push_back(k.second); }
      return resp::array(r);
    }
    if(n == "hdel") { NEED(z >= 3); TYPED(c[1], 'h', v); int k = 0; if(v) { for(size_t i = 2; i < z; i++) k += (int)v->h.erase(c[i]); drop(c[1]); } return resp::integer(k); }
    if(n == "hincrby") { NEED(z == 4); int64_t r; Value e = incr(c[1], c[2], c[3], r); return e.type == '-' ? e : resp::integer(r); }
    if(n == "hincrbymulti") {
      NEED(z >= 4 && (z - 1) % 3 == 0); int64_t sum = 0; bool bad = false;
      for(size_t i = 1; i < z; i += 3) { int64_t r = 0; Value e = incr(c[i], c[i + 1], c[i + 2], r); if(e.type != '-') sum += r; else bad = true; }
      if(bad) { Value any; any.type = '?'; return any; }      // the reply is not specified then, the effect is
      return resp::integer(sum);
    }
    if(n == "hincrbyfloat") {
      NEED(z == 4); double by, cur = 0; if(!dbl(c[3], by)) return err();
      TYPED(c[1], 'h', v); if(v && v->h.count(c[2]) && !dbl(v->h[c[2]], cur)) return err();
      std::string r = std::to_string(cur + by); make(c[1], 'h').h[c[2]] = r; return resp::str(r);
    }
    if(n == "hclone") {
      NEED(z == 3); TYPED(c[2], 'h', w); if(w) return err(); TYPED(c[1], 'h', v);
      if(v) { auto copy = v->h; make(c[2], 'h').h = copy; } return resp::status("OK");
    }
    // sets
    if(n == "sadd") { NEED(z >= 3); TYPED(c[1], 'S', v); auto &x = make(c[1], 'S'); int k = 0; for(size_t i = 2; i < z; i++) k += x.set.insert(c[i]).second; return resp::integer(k); }
    if(n == "srem") { NEED(z >= 3); TYPED(c[1], 'S', v); int k = 0; if(v) { for(size_t i = 2; i < z; i++) k += (int)v->set.erase(c[i]); drop(c[1]); } return resp::integer(k); }
    if(n == "sismember") { NEED(z == 3); TYPED(c[1], 'S', v); return resp::integer(v && v->set.count(c[2])); }
    if(n == "scard") { NEED(z == 2); TYPED(c[1], 'S', v); return resp::integer(v ? v->set.size() : 0); }
    if(n == "smembers") { NEED(z == 2); TYPED(c[1], 'S', v); std::vector<std::string> r; if(v) r.assign(v->set.begin(), v->set.end()); return resp::array(r); }
    if(n == "smove") {
      NEED(z == 4); TYPED(c[1], 'S', v); TYPED(c[2], 'S', w);
      if(!v || !v->set.count(c[3])) return resp::integer(0);
      if(c[1] == c[2]) return resp::integer(1);
      v->set.erase(c[3]); drop(c[1]); make(c[2], 'S').set.insert(c[3]); return resp::integer(1);
    }
    // deques
    if(n == "deque_push_back" || n == "deque_push_front") {
      NEED(z >= 3); TYPED(c[1], 'd', v); auto &x = make(c[1], 'd');
      for(size_t i = 2; i < z; i++) { if(n == "deque_push_back") x.d.push_back(c[i]); else x.d.push_front(c[i]); }
      return resp::integer(x.d.size());
    }
    if(n == "deque_pop_front" || n == "deque_pop_back") {
      NEED(z == 2); TYPED(c[1], 'd', v); if(!v) return resp::nil();
      std::string r; if(n == "deque_pop_front") { r = v->d.front(); v->d.pop_front(); } else { r = v->d.back(); v->d.pop_back(); }
      drop(c[1]); return resp::str(r);
    }
    if(n == "deque_trim_front" || n == "deque_clear") {
      int64_t keep = 0; NEED(z == (n == "deque_clear" ? 2u : 3u));
      if(n == "deque_trim_front" && (!toInt(c[2], keep) || keep < 0)) return err();
      TYPED(c[1], 'd', v); int64_t k = 0;
      if(v) { while((int64_t)v->d.size() > keep) { v->d.pop_front(); k++; } drop(c[1]); }
      return resp::integer(k);
    }
    if(n == "deque_len") { NEED(z == 2); TYPED(c[1], 'd', v); return resp::integer(v ? v->d.size() : 0); }
    // whole-deque scan, as one page
    if(n == "deque_scan_back") { NEED(z == 3 && c[2] == "0"); TYPED(c[1], 'd', v); Value r; r.type = '*'; r.arr.push_back(resp::str("0")); r.arr.push_back(resp::array(v ? std::vector<std::string>(v->d.begin(), v->d.end()) : std::vector<std::string>())); return r; }
    // locality hashes
    if(n == "lhset") { NEED(z == 5); TYPED(c[1], 'l', v); return resp::integer(lhput(c[1], c[2], c[3], c[4])); }
    if(n == "lhmset") { NEED(z >= 5 && (z - 2) % 3 == 0); TYPED(c[1], 'l', v); for(size_t i = 2; i < z; i += 3) lhput(c[1], c[i], c[i + 1], c[i + 2]); return resp::status("OK"); }
    if(n == "lhget") { NEED(z == 3 || z == 4); TYPED(c[1], 'l', v); return v && v->lh.count(c[2]) ? resp::str(v->lh[c[2]].second) : resp::nil(); }
    if(n == "lhlen") { NEED(z == 2); TYPED(c[1], 'l', v); return resp::integer(v ? v->lh.size() : 0); }
    if(n == "lhdel") { NEED(z >= 3); TYPED(c[1], 'l', v); int k = 0; if(v) { for(size_t i = 2; i < z; i++) k += (int)v->lh.erase(c[i]); drop(c[1]); } return resp::integer(k); }
    if(n == "lhlocdel") {
      NEED(z == 4); TYPED(c[1], 'l', v);
      if(v && v->lh.count(c[2]) && v->lh[c[2]].first == c[3]) { v->lh.erase(c[2]); drop(c[1]); return resp::integer(1); }
      return resp::integer(0);
    }
    if(n == "lhscan") {   // whole hash as one page, ordered by (hint, field)
      NEED(z >= 3 && c[2] == "0"); std::string pat; if(z == 5 && canonName(c[3]) == "matchloc") pat = c[4]; else if(z == 5) { int64_t one; NEED(canonName(c[3]) == "count" && toInt(c[4], one) && one >= 1); } else NEED(z == 3);
      TYPED(c[1], 'l', v); std::map<std::pair<std::string, std::string>, std::string> o;
      if(v) for(auto &f : v->lh) if(pat.empty() || glob(pat, f.second.first)) o[{f.second.first, f.first}] = f.second.second;
      Value items; items.type = '*'; for(auto &k : o) { items.arr.push_back(resp::str(k.first.first)); items.arr.push_back(resp::str(k.first.second)); items.arr.push_back(resp::str(k.second)); }
      Value r; r.type = '*'; r.arr.push_back(resp::str("0")); r.arr.push_back(items); return r;
    }
    if(n == "lhget_with_fallback") {
      NEED(z == 4 || z == 5); TYPED(c[1], 'l', v); if(v && v->lh.count(c[2])) return resp::str(v->lh[c[2]].second);
      TYPED(c[z - 1], 'h', w); return w && w->h.count(c[2]) ? resp::str(w->h[c[2]]) : resp::nil();
    }
    if(n == "lhset_and_del_fallback") {
      NEED(z == 6); TYPED(c[1], 'l', v); int k = lhput(c[1], c[2], c[3], c[4]);
      if(typed(c[5], 'h', w) && w) { w->h.erase(c[2]); drop(c[5]); }
      return resp::integer(k);
    }
    if(n == "lhdel_with_fallback") {
      NEED(z == 4);
      if(typed(c[1], 'l', v) && v && v->lh.erase(c[2])) { drop(c[1]); return resp::integer(1); }
      TYPED(c[3], 'h', w); int k = 0; if(w) { k = (int)w->h.erase(c[2]); drop(c[3]); } return resp::integer(k);
    }
    if(n == "convert_hash_field_to_lhash") {
      NEED(z == 6); if(typed(c[3], 'l', w) && w && w->lh.count(c[4])) return err();
      TYPED(c[1], 'h', v); if(!v || !v->h.count(c[2])) return err();
      if(!typed(c[3], 'l', w)) return wrongType();
      std::string val = v->h[c[2]]; lhput(c[3], c[4], c[5], val); v = find(c[1]); v->h.erase(c[2]); drop(c[1]); return resp::status("OK");
    }
    // versioned hashes
    if(n == "vhset") { NEED(z == 4); TYPED(c[1], 'v', v); auto &x = make(c[1], 'v'); bump(c[1], x); x.h[c[2]] = c[3]; return resp::integer(x.version); }
    if(n == "vhdel") {
      NEED(z >= 3); TYPED(c[1], 'v', v); if(!v) return resp::integer(0);
      int k = 0; for(size_t i = 2; i < z; i++) k += (int)v->h.erase(c[i]);
      if(k) bump(c[1], *v); return resp::integer(v->version);
    }
    if(n == "vhlen") { NEED(z == 2); TYPED(c[1], 'v', v); return resp::integer(v ? v->h.size() : 0); }
    if(n == "vhgetall") {
      NEED(z == 2); TYPED(c[1], 'v', v); Value r; r.type = '*'; r.arr.push_back(resp::integer(v ? v->version : 0));
      std::vector<std::string> o; if(v) for(auto &k : v->h) { o.push_back(k.first); o.push_back(k.second); } r.arr.push_back(resp::array(o)); return r;
    }
    // leases (timestamped)
    if(n == "timestamped_lease_acquire") {
      NEED(z == 5); int64_t dur; if(!toInt(c[3], dur) || dur < 1) return err();
      advance(fromTs(c[4])); TYPED(c[1], 'L', v);
      if(v && v->s != c[2]) return resp::error("ERR lease held by '" + v->s + "', time remaining " + std::to_string(v->deadline - fromTs(c[4])) + " ms");
      bool had = v; auto &x = make(c[1], 'L'); x.s = c[2]; x.deadline = clock + dur; return resp::status(had ? "RENEWED" : "ACQUIRED");
    }
    if(n == "timestamped_lease_get") {
      NEED(z == 3); advance(fromTs(c[2])); TYPED(c[1], 'L', v); if(!v) return resp::nil();
      Value r; r.type = '*'; r.arr.push_back(resp::status("HOLDER: " + v->s)); r.arr.push_back(resp::status("REMAINING: " + std::to_string(v->deadline - fromTs(c[2])) + " ms")); return r;
    }
    if(n == "timestamped_lease_release") { NEED(z == 3); advance(fromTs(c[2])); TYPED(c[1], 'L', v); if(!v) return resp::nil(); keys.erase(c[1]); return resp::status("OK"); }
    return err();
    #undef NEED
    #undef TYPED
  }
private:
  static bool dbl(const std::string &s, double &d) { if(s.empty() || isspace((unsigned char)s[0])) return false; char *e; d = strtod(s.c_str(), &e); return *e == 0 && e == s.c_str() + s.size(); }
  Value incr(const std::string &k, const std::string &f, const std::string &by, int64_t &r) {
    int64_t b, cur = 0; Val *v; if(!toInt(by, b)) return err(); if(!typed(k, 'h', v)) return wrongType();
    if(v && v->h.count(f) && !toInt(v->h[f], cur)) return err();
    if(__builtin_add_overflow(cur, b, &r)) return err();
    make(k, 'h').h[f] = std::to_string(r); return resp::status("OK");
  }
  int lhput(const std::string &k, const std::string &f, const std::string &hint, const std::string &val) {
    auto &x = make(k, 'l'); bool had = x.lh.count(f); x.lh[f] = {hint, val}; return !had;
  }
};

// Equality of an actual reply with the expected one: errors by class, unordered collections as such.
inline void normalise(const std::string &cmd, Value &v) {
  std::string n = Store::canonName(cmd);
  if(v.type != '*') return;
  auto pairs = [](std::vector<Value> &a) {
    std::vector<std::pair<std::string, std::string>> p; if(a.size() % 2) return;
    for(size_t i = 0; i < a.size(); i += 2) p.push_back({a[i].show(), a[i + 1].show()});
    std::vector<size_t> idx(p.size()); for(size_t i = 0; i < idx.size(); i++) idx[i] = i;
    std::stable_sort(idx.begin(), idx.end(), [&](size_t x, size_t y) { return p[x] < p[y]; });
    std::vector<Value> o; for(size_t i : idx) { o.push_back(a[2 * i]); o.push_back(a[2 * i + 1]); } a = o;
  };
  if(n == "keys" || n == "hkeys" || n == "hvals" || n == "smembers") std::sort(v.arr.begin(), v.arr.end(), [](const Value &a, const Value &b) { return a.show() < b.show(); });
  if(n == "hgetall" || n == "config_getall") pairs(v.arr);
  if(n == "vhgetall" && v.arr.size() == 2 && v.arr[1].type == '*') pairs(v.arr[1].arr);
  if(n == "lhscan" && v.arr.size() == 2 && v.arr[1].type == '*') {
    auto &a = v.arr[1].arr; if(a.size() % 3) return; std::vector<std::vector<Value>> t; for(size_t i = 0; i < a.size(); i += 3) t.push_back({a[i], a[i + 1], a[i + 2]});
    std::sort(t.begin(), t.end(), [](const std::vector<Value> &x, const std::vector<Value> &y) { return x[0].show() + x[1].show() < y[0].show() + y[1].show(); });
    a.clear(); for(auto &x : t) for(auto &y : x) a.push_back(y);
  }
}
inline bool same(const std::string &cmd, Value actual, Value expected) {
  if(expected.type == '?') return true;
  if(expected.type == '-') {
    if(actual.type != '-') return false;
    if(expected.str == "WRONGTYPE") return actual.str.find("WRONGTYPE") != std::string::npos;
    if(expected.str == "ERR") return true;
    return actual.str == expected.str;
  }
  normalise(cmd, actual); normalise(cmd, expected);
  return actual == expected;
}
}
#endif
