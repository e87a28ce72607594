// A small strict parser for the redis protocol, written from the protocol description.
#ifndef RESP_HH
#define RESP_HH
#include <algorithm>
#include <string>
#include <string_view>
#include <vector>
namespace resp {
struct Value {
  char type = 0;              // + - : $ * > ; '_' is a null
  std::string str;            // + - $ ; digits for :
  std::vector<Value> arr;
  bool operator==(const Value &o) const { return type == o.type && str == o.str && arr == o.arr; }
  std::string show() const {
    if(type == '*' || type == '>') { std::string s(1, type); s += "["; for(size_t i = 0; i < arr.size(); i++) s += (i ? ", " : "") + arr[i].show(); return s + "]"; }
    if(type == '_') return "nil";
    std::string s(1, type); s += "'";
    for(unsigned char c : str) { if(c < 32 || c > 126 || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); s += b; } else s += c; }
    return s + "'";
  }
};
inline bool num(std::string_view s, long long &n) {
  if(s.empty() || s.size() > 20) return false;
  bool neg = s[0] == '-'; size_t i = neg; if(i == s.size()) return false;
  unsigned long long v = 0;
  for(; i < s.size(); i++) { if(s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
  n = neg ? (long long)(0 - v) : (long long)v; return true;
}
// Parses one value starting at pos. Returns 1 ok, 0 incomplete, -1 malformed.
inline int parse(std::string_view s, size_t &pos, Value &v, int depth = 0) {
  if(pos >= s.size()) return 0;
  size_t e = s.find("\r\n", pos);
  if(e == std::string_view::npos) return 0;
  char t = s[pos]; std::string_view line = s.substr(pos + 1, e - pos - 1);
  v = Value(); v.type = t;
  if(t == '+' || t == '-') { if(line.find('\n') != line.npos || line.find('\r') != line.npos) return -1; v.str = line; pos = e + 2; return 1; }
  long long n;
  if(!num(line, n)) return -1;
  if(t == ':') { v.str = line; pos = e + 2; return 1; }
  if(t == '$') {
    if(n == -1) { v.type = '_'; pos = e + 2; return 1; }
    if(n < 0) return -1;
    if(s.size() < e + 2 + n + 2) return 0;
    v.str = s.substr(e + 2, n);
    if(s.substr(e + 2 + n, 2) != "\r\n") return -1;
    pos = e + 2 + n + 2; return 1;
  }
  if(t == '*' || t == '>') {
    if(n == -1) { v.type = '_'; pos = e + 2; return 1; }
    if(n < 0 || depth > 8) return -1;
    pos = e + 2;
    for(long long i = 0; i < n; i++) { Value c; int r = parse(s, pos, c, depth + 1); if(r != 1) return r; v.arr.push_back(std::move(c)); }
    return 1;
  }
  return -1;
}
inline bool parseAll(std::string_view s, std::vector<Value> &out) {
  size_t pos = 0; while(pos < s.size()) { Value v; if(parse(s, pos, v) != 1) return false; out.push_back(std::move(v)); } return true;
}
inline bool one(std::string_view s, Value &v) { size_t pos = 0; return parse(s, pos, v) == 1 && pos == s.size(); }
inline Value status(std::string s) { Value v; v.type = '+'; v.str = s; return v; }
inline Value error(std::string s) { Value v; v.type = '-'; v.str = s; return v; }
inline Value integer(long long n) { Value v; v.type = ':'; v.str = std::to_string(n); return v; }
inline Value str(std::string_view s) { Value v; v.type = '$'; v.str = std::string(s); return v; }
inline Value nil() { Value v; v.type = '_'; return v; }
inline Value array(const std::vector<std::string> &a) { Value v; v.type = '*'; for(auto &s : a) v.arr.push_back(str(s)); return v; }
inline std::string encode(const std::vector<std::string> &cmd) {
  std::string s = "*" + std::to_string(cmd.size()) + "\r\n";
  for(auto &a : cmd) s += "$" + std::to_string(a.size()) + "\r\n" + a + "\r\n";
  return s;
}
}
#endif
