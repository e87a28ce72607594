// Replies as the client library hands them out, built from bytes or values.
#ifndef REPLY_HH
#define REPLY_HH
#include "resp.hh"
#include <qclient/QClient.hh>
#include <memory>
#include <string>
#include <vector>
namespace reply {
struct Node { redisReply r{}; std::string s; std::vector<std::unique_ptr<Node>> kids; std::vector<redisReply*> ptr; };
inline void build(Node &n, const resp::Value &v) {
  switch(v.type) {
    case '+': n.r.type = REDIS_REPLY_STATUS; break; case '-': n.r.type = REDIS_REPLY_ERROR; break; case '$': n.r.type = REDIS_REPLY_STRING; break;
    case ':': n.r.type = REDIS_REPLY_INTEGER; n.r.integer = atoll(v.str.c_str()); break; case '*': n.r.type = REDIS_REPLY_ARRAY; break; default: n.r.type = REDIS_REPLY_NIL;
  }
  if(v.type == '+' || v.type == '-' || v.type == '$') { n.s = v.str; n.r.str = &n.s[0]; n.r.len = n.s.size(); }
  if(v.type == '*') { for(auto &e : v.arr) { n.kids.emplace_back(new Node()); build(*n.kids.back(), e); n.ptr.push_back(&n.kids.back()->r); } n.r.elements = n.ptr.size(); n.r.element = n.ptr.data(); }
}
inline qclient::redisReplyPtr make(const resp::Value &v) { auto n = std::make_shared<Node>(); build(*n, v); return qclient::redisReplyPtr(n, &n->r); }
}
#endif
