//@ sources: Utils.cc
//@ flags: -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS
#include "mc.hh"
#include "Utils.hh"
#include "utils/Macros.hh"
#include "utils/SmartBuffer.hh"
#include "utils/StaticBuffer.hh"
#include "memory/RingAllocator.hh"
#include <memory>
using namespace quarkdb;
static char fresh() { static unsigned k = 0; k = k * 7 + 13; return (char)(k ^ (k >> 8)); }
template<class B> static std::string bytes(B &b) { std::string s; for(size_t i = 0; i < b.size(); i++) s += b[i]; return s; }
// ---- resizable buffers
template<int N> static void smart(mc::Ctx &x, int depth) {
  static const size_t sizes[] = {0, 1, N - 1, N, N + 1, 2 * N, 2 * N + 1, 64, 65};
  std::unique_ptr<SmartBuffer<N>> b; int start = x.choose(10, "initial size");
  if(start == 9) b.reset(new SmartBuffer<N>()); else b.reset(new SmartBuffer<N>(sizes[start]));
  std::string want; std::string history;
  auto fill = [&](size_t from) { want.resize(from); for(size_t i = from; i < b->size(); i++) { char c = fresh(); (*b)[i] = c; want += c; } };
  x.check(b->size() == (start == 9 ? (size_t)N : sizes[start]), "size", "initial size"); fill(0);
  for(int d = 0; d < depth; d++) {
    int op = x.choose(28, "operation"); if(op == 27) return;
    size_t n = sizes[op % 9]; int kind = op / 9; bool threw = false, illegal = kind == 1 ? n > want.size() : kind == 2 ? n < want.size() : false; x.transition();
    x.log("  ", kind == 0 ? "resize " : kind == 1 ? "shrink " : "expand ", n);
    try { if(kind == 0) b->resize(n); else if(kind == 1) b->shrink(n); else b->expand(n); } catch(FatalException &e) { threw = true; }
    x.check(threw == illegal, "refusal", "size change to " + std::to_string(n) + " from " + std::to_string(want.size()));
    if(!threw) {
      x.nontrivial(); x.check(b->size() == n, "size", "size is " + std::to_string(b->size()) + " after asking for " + std::to_string(n));
      size_t keep = kind == 0 ? 0 : std::min(n, want.size()); std::string got = bytes(*b).substr(0, keep);
      x.check(got == want.substr(0, keep), "contents", "contents changed when going from " + std::to_string(want.size()) + " to " + std::to_string(n)); fill(keep);
    }
    x.check(b->toView() == want && b->toString() == want && bytes(*b) == want && std::string(b->data(), b->size()) == want, "contents", "the bytes written are not those read");
    history += std::to_string(op) + ","; x.outcome(std::to_string(n) + (threw ? "!" : ""));
  }
}
static void fixed(mc::Ctx &x) {
  StaticBuffer<8> b; for(size_t i = 0; i < 8; i++) b[i] = fresh(); std::string want = bytes(b);
  for(int d = 0; d < 3; d++) { size_t n = x.choose(10, "size"); bool threw = false; x.transition(); try { b.shrink(n); } catch(FatalException&) { threw = true; } x.check(threw == (n > 8), "refusal", "shrink to " + std::to_string(n)); if(!threw) { x.nontrivial(); x.check(b.size() == n && b.toView() == want.substr(0, n), "contents", "after shrinking"); x.outcome(std::to_string(n)); } }
}
// ---- pinned buffers: each points to a span of a shared block of bytes
struct Ref { std::shared_ptr<std::string> block; size_t off = 0, len = 0; std::unique_ptr<PinnedBuffer> b; bool inside = false; std::string show() const { return b ? block->substr(off, len) : "-"; } };
static void pinned(mc::Ctx &x, int depth) {
  auto region = MemoryRegion::Construct(12); std::shared_ptr<std::string> mem(new std::string(12, 0)); size_t used = 0; bool dropped = false; Ref r[3];
  std::weak_ptr<MemoryRegion> watch = region; std::string shape;
  auto verify = [&]() {
    for(int i = 0; i < 3; i++) if(r[i].b) {
      std::string w = r[i].show(); PinnedBuffer &b = *r[i].b; const PinnedBuffer &cb = b;
      x.check(b.size() == r[i].len && b.empty() == (r[i].len == 0) && std::string(b.sv()) == w && b == w && std::string(cb.data(), cb.size()) == w && std::string(std::string_view(b)) == w && bytes(b) == w, "contents", "buffer " + std::to_string(i) + " holds " + mc::quote(b.sv()) + ", expected " + mc::quote(w));
      for(int j = 0; j < 3; j++) if(r[j].b) x.check((b == *r[j].b) == (w == r[j].show()), "equality", "buffers " + std::to_string(i) + " and " + std::to_string(j));
      x.check(b.usingInternalBuffer() == !r[i].inside, "kind", "storage kind");
    }
    long refs = !dropped; for(auto &q : r) if(q.b && q.inside) refs++;
    x.check(watch.use_count() == refs, "references", "the region has " + std::to_string(watch.use_count()) + " users, expected " + std::to_string(refs));
    if(!dropped) x.check(region->size() == 12 && region->bytesConsumed() == used && region->bytesFree() == 12 - used && region->refcount() == refs, "accounting", "region accounting");
  };
  for(int d = 0; d < depth; d++) {
    int op = x.choose(25, "operation"); if(op == 24) return;
    int i = x.choose(op == 23 ? 1 : 3, "buffer"); Ref &q = r[i]; x.transition(); x.log("  operation ", op, " buffer ", i);
    if(op < 5) {                                        // allocate
      static const size_t n[] = {0, 1, 5, 12, 13}; if(dropped) x.abandon();
      auto o = region->allocate(n[op]); bool fits = used + n[op] <= 12; x.check(o.has_value() == fits, "allocation", "allocating " + std::to_string(n[op]) + " with " + std::to_string(used) + " used");
      if(fits) { q.b.reset(new PinnedBuffer(*o)); q.block = mem; q.off = used; q.len = n[op]; q.inside = true; used += n[op]; x.nontrivial(); }
    }
    else if(op < 8) { static const char *s[] = {"", "abc", "0123456789012345678"}; std::string *tmp = new std::string(s[op - 5]); q.b.reset(new PinnedBuffer(std::string_view(*tmp))); q.block.reset(new std::string(*tmp)); tmp->assign("XXXXXXXXXXXXXXXXXXXXXXX"); delete tmp; q.off = 0; q.len = q.block->size(); q.inside = false; }
    else if(op < 10) { size_t n = op == 8 ? 2 : 20; q.b.reset(new PinnedBuffer(n)); q.block.reset(new std::string(n, 0)); q.off = 0; q.len = n; q.inside = false; for(size_t k = 0; k < n; k++) { char c = fresh(); (*q.b)[k] = c; (*q.block)[k] = c; } }
    else if(op < 12) {                                   // write every byte, through either accessor
      if(!q.b) x.abandon(); for(size_t k = 0; k < q.len; k++) { char c = fresh(); if(op == 10) (*q.b)[k] = c; else q.b->data()[k] = c; (*q.block)[q.off + k] = c; } }
    else if(op < 15) { size_t n = op == 12 ? 0 : op == 13 ? 1 : q.len; if(!q.b || n > q.len) x.abandon(); q.b->remove_suffix(n); q.len -= n; if(!q.inside) q.block->resize(q.off + q.len); }
    else if(op < 19) {                                   // slice into the next buffer
      if(!q.b) x.abandon(); Ref &t = r[(i + 1) % 3]; size_t s = op == 15 ? 0 : op == 16 ? std::min<size_t>(1, q.len) : op == 17 ? q.len : q.len / 2, n = op == 16 ? std::min<size_t>(2, q.len - s) : q.len - s;
      PinnedBuffer sl = q.b->substr(s, n); std::shared_ptr<std::string> blk = q.inside ? q.block : std::make_shared<std::string>(q.block->substr(q.off + s, n)); bool in = q.inside; size_t off = in ? q.off + s : 0;
      t.b.reset(new PinnedBuffer(sl)); t.block = blk; t.off = off; t.len = n; t.inside = in; x.nontrivial(); }
    else if(op == 19) { if(!q.b) x.abandon(); Ref &t = r[(i + 1) % 3]; t.b.reset(new PinnedBuffer(*q.b)); t.block = q.inside ? q.block : std::make_shared<std::string>(*q.block); t.off = q.off; t.len = q.len; t.inside = q.inside; }
    else if(op == 20) { if(!q.b) x.abandon(); Ref &t = r[(i + 1) % 3]; if(!t.b) t.b.reset(new PinnedBuffer()); *t.b = std::move(*q.b); t.block = q.block; t.off = q.off; t.len = q.len; t.inside = q.inside; q.b.reset(); }
    else if(op == 21) { if(!q.b) x.abandon(); q.b.reset(); }
    else if(op == 22) { if(!q.b) x.abandon(); std::string &in = q.b->getInternalBuffer(); if(!q.inside) { x.check(in == q.show(), "internal", "internal buffer"); in += "zz"; q.block->append("zz"); q.len += 2; } }
    else { if(dropped) x.abandon(); dropped = true; region.reset(); }
    verify();
    shape += std::to_string(op) + (char)('a' + i); std::string st; for(auto &u : r) st += u.b ? std::to_string(u.off) + "," + std::to_string(u.len) + (u.inside ? "i" : "o") + " " : "- "; st += std::to_string(used) + (dropped ? "d" : ""); x.outcome(st);
    // contents are fresh bytes: only which bytes are shared matters from here on
    for(int a = 0; a < 3; a++) for(int b = a + 1; b < 3; b++) if(r[a].b && r[b].b) st += r[a].block == r[b].block ? "=" : "/";
    if(x.visited(st, depth - d - 1)) x.abandon();
  }
}
static void reset(mc::Ctx &x) {                          // recycling a region nobody refers to
  auto region = MemoryRegion::Construct(8); int rounds = 1 + x.choose(3, "rounds");
  for(int k = 0; k < rounds; k++) {
    size_t used = 0; std::vector<PinnedBuffer> v; std::vector<std::string> w;
    for(int i = 0; i < 4; i++) { size_t n = x.choose(5, "bytes"); x.transition(); auto o = region->allocate(n); x.check(o.has_value() == (used + n <= 8), "allocation", "allocating " + std::to_string(n)); if(!o) continue; used += n; std::string s; for(size_t j = 0; j < n; j++) { char c = fresh(); (*o)[j] = c; s += c; } v.push_back(*o); w.push_back(s); }
    for(size_t i = 0; i < v.size(); i++) x.check(v[i] == w[i], "overlap", "an allocation was overwritten by another"); x.nontrivial(); x.outcome(std::to_string(used));
    x.check(region->bytesConsumed() == used, "accounting", "bytes consumed"); v.clear(); region->resetAllocations(); x.check(region->bytesConsumed() == 0, "accounting", "after resetting");
    if(k >= 1) return;
  }
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C39";
  c.rule = "Every sequence of size changes (9 sizes around the static and heap capacities, legal or not) of the real SmartBuffer up to depth 3 (thorough 4-5), of StaticBuffer up to depth 3, every sequence of allocations, copies, slices, moves, writes, suffix removals and drops of three PinnedBuffers sharing a region up to depth 4 (thorough 6), and every refill of a recycled region; each byte is compared with plain strings after every step under AddressSanitizer and UndefinedBehaviorSanitizer. Non-trivial: a size change, allocation or slice took place.";
  c.spaces.push_back({"smart", [](mc::Ctx &x) { smart<8>(x, x.tier(3, 4)); }});
  c.spaces.push_back({"smart-small", [](mc::Ctx &x) { smart<2>(x, x.tier(3, 5)); }});
  c.spaces.push_back({"static", fixed});
  c.spaces.push_back({"pinned", [](mc::Ctx &x) { pinned(x, x.tier(4, 6)); }});
  c.spaces.push_back({"recycle", reset});
  return mc::main(argc, argv, c);
}
