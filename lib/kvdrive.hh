// Breadth of command sequences against the reference model, with state deduplication.
#ifndef KVDRIVE_HH
#define KVDRIVE_HH
#include "kv.hh"
#include "kvmodel.hh"
namespace kv {
struct Alphabet {
  std::vector<Cmd> ops;          // state-changing commands (and anything whose reply matters mid-sequence)
  std::vector<Cmd> probes;       // read commands compared in every new state
  bool reopen = false;           // closing and reopening the store is one of the operations
};
inline std::string modelCanon(const model::Store &m) {
  std::string o; auto add = [&](const std::string &s) { o += std::to_string(s.size()) + ":" + s; };
  for(auto &k : m.keys) { add(k.first); o += k.second.type; add(k.second.s); for(auto &f : k.second.h) { add(f.first); add(f.second); } o += '/'; for(auto &f : k.second.set) add(f); o += '/'; for(auto &f : k.second.d) add(f); o += '/'; for(auto &f : k.second.lh) { add(f.first); add(f.second.first); add(f.second.second); } o += std::to_string(k.second.version) + "," + std::to_string(k.second.deadline) + ";"; }
  o += '|'; for(auto &k : m.config) { add(k.first); add(k.second); } o += std::to_string(m.clock); return o;
}
inline std::string sigOf(const Cmd &c) { return model::Store::canonName(c[0]); }
// One command on both; reports a difference.
inline void step(mc::Ctx &ctx, World &w, model::Store &m, const Cmd &c, const char *kind) {
  m.beginTx();
  std::string raw = w.exec(c); resp::Value got, want = m.exec(c);
  if(!resp::one(raw, got)) ctx.fail(std::string("malformed-reply:") + sigOf(c), show(c) + " -> malformed reply " + mc::quote(raw));
  ctx.log("  ", kind, " ", show(c), " -> ", got.show());
  if(!model::same(c[0], got, want)) ctx.fail(std::string(kind) + ":" + sigOf(c), std::string(kind) + " " + show(c) + ": got " + got.show() + ", expected " + want.show());
}
inline void runSequence(mc::Ctx &ctx, const Alphabet &a, int depth) {
  fakedb::wipeAll();
  World w; model::Store m;
  ctx.visited(mc::mix(1, mc::hash(w.canon())), depth);
  int n = (int)a.ops.size() + a.reopen;
  for(int d = depth; d > 0; d--) {
    int i = ctx.choose(n, "op");
    ctx.transition();
    if(i == (int)a.ops.size()) { ctx.log("  reopen"); w.close(); w.open(); }
    else step(ctx, w, m, a.ops[i], "op");
    uint64_t h = mc::mix(mc::hash(w.canon()), mc::hash(modelCanon(m)));
    if(ctx.visited(h, d - 1)) ctx.abandon();
    if(!m.keys.empty()) ctx.nontrivial();
    for(auto &p : a.probes) step(ctx, w, m, p, "read");
    ctx.outcome(modelCanon(m));
  }
}
}
#endif
