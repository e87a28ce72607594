//@ sources: *
//@ lib: fakedb nothreads
#include "kvdrive.hh"
#include "conn.hh"
using kv::Cmd; using Tx = std::vector<Cmd>;
using FieldMap = std::map<std::string, std::string>;
struct Announcement { std::string key; uint64_t version; FieldMap before, after; };
static std::string show(const FieldMap &m) { std::string s = "{"; for(auto &f : m) s += f.first + "=" + f.second + " "; return s + "}"; }

static void history(mc::Ctx &x, const std::vector<Tx> &txs, int depth) {
  fakedb::wipeAll();
  kv::World w; model::Store m; conn::Client sub;
  bool late = x.choose(2, "publish-late");
  for(std::string k : {"k", "q"}) { auto r = kv::req({"SUBSCRIBE", "__vhash@" + k}); w.pub->dispatch(sub.c.get(), r); }
  sub.c->flush(); sub.take();
  std::vector<Announcement> expect; uint64_t eh = late;
  auto collect = [&]() {
    w.pump(); bool bad = false; sub.c->flush(); auto got = sub.take(&bad);
    x.check(!bad, "malformed-message", "a malformed message was published");
    x.check(got.size() == expect.size(), "announcements", std::to_string(got.size()) + " revisions announced, expected " + std::to_string(expect.size()));
    // revisions of one key in order; of different keys of one transaction in any order
    std::vector<bool> used(expect.size());
    for(auto &g : got) {
      x.log("  announced ", g.show());
      x.check((g.type == '*' || g.type == '>') && g.arr.size() == 3, "message", "unexpected message " + g.show());
      std::string key = g.arr[1].str.substr(std::min<size_t>(8, g.arr[1].str.size())); resp::Value rev;
      x.check(resp::one(g.arr[2].str, rev) && rev.type == '*' && rev.arr.size() == 2 && rev.arr[1].type == '*' && rev.arr[1].arr.size() % 2 == 0, "revision", "malformed revision " + g.show());
      size_t i = 0; while(i < expect.size() && (used[i] || expect[i].key != key)) i++;
      x.check(i < expect.size(), "announcements", "revision of '" + key + "' announced although it was not changed"); used[i] = true;
      x.check(rev.arr[0].str == std::to_string(expect[i].version), "revision-version", "revision of '" + key + "' announced as " + rev.arr[0].str + ", expected " + std::to_string(expect[i].version));
      FieldMap f = expect[i].before; auto &a = rev.arr[1].arr;
      for(size_t j = 0; j + 1 < a.size(); j += 2) { if(a[j + 1].str.empty()) f.erase(a[j].str); else f[a[j].str] = a[j + 1].str; }
      x.check(f == expect[i].after, "revision-contents", "applying the announced revision " + rev.show() + " gives " + show(f) + ", the hash holds " + show(expect[i].after));
    }
    expect.clear(); eh = late;
  };
  std::map<std::pair<std::string, uint64_t>, FieldMap> seen;
  for(int d = depth; d > 0; d--) {
    const Tx &t = txs[x.choose((int)txs.size(), "tx")]; x.transition();
    model::Store before = m; m.beginTx(); std::vector<resp::Value> want; for(auto &c : t) want.push_back(m.exec(c));
    std::string raw;
    { quarkdb::Transaction tx; for(auto &c : t) tx.push_back(kv::req(c)); tx.setPhantom(t.size() == 1); raw = w.disp->dispatch(tx, 0).val; }
    resp::Value got; x.check(resp::one(raw, got), "malformed-reply", "malformed reply " + mc::quote(raw));
    std::vector<resp::Value> gots; if(t.size() == 1) gots.push_back(got); else gots = got.arr;
    x.check(gots.size() == want.size(), "reply-count", "wrong number of replies " + got.show());
    for(size_t i = 0; i < t.size(); i++) { x.log("  tx ", kv::show(t[i]), " -> ", gots[i].show()); if(!model::same(t[i][0], gots[i], want[i])) x.fail("reply:" + kv::sigOf(t[i]), kv::show(t[i]) + ": got " + gots[i].show() + ", expected " + want[i].show()); }
    for(auto &k : m.bumped) {
      Announcement a; a.key = k; a.version = m.keys[k].version; a.after = m.keys[k].h;
      bool deleted = false; for(auto &c : t) if((c[0] == "DEL" && c[1] == k) || c[0] == "FLUSHALL") deleted = true;
      if(!deleted && before.keys.count(k) && before.keys[k].type == 'v') a.before = before.keys[k].h;
      expect.push_back(a); eh = mc::mix(eh, mc::hash(k + std::to_string(a.version) + show(a.after)));
    }
    uint64_t h = mc::mix(mc::mix(mc::hash(w.canon()), mc::hash(kv::modelCanon(m))), eh);
    if(!late) collect();
    for(std::string k : {"k", "q"}) { kv::step(x, w, m, {"VHGETALL", k}, "read"); kv::step(x, w, m, {"VHLEN", k}, "read"); kv::step(x, w, m, {"TYPE", k}, "read"); }
    if(x.visited(h, d - 1)) { if(late) collect(); x.abandon(); }
    x.nontrivial(); x.outcome(kv::modelCanon(m));
  }
  if(late) collect();
}
int main(int argc, char **argv) {
  mc::Check c; c.id = "C03";
  c.rule = "Every sequence of transactions of the alphabet up to the stated length, with the revisions published after each transaction or only at the end; replies, contents, versions and the announced revisions are compared with a map carrying a version that grows by one per changing transaction. Every execution changes hashes.";
  c.assumptions = {"a version identifies contents only while the key is not deleted as a whole", "RocksDB is replaced by an in-memory ordered store", "revisions of an entry applied from a previous term are not announced; only announced ones are judged"};
  std::vector<Tx> txs; std::string b("\0#", 2);
  for(std::string k : {"k", "q"}) {
    txs.push_back({{"VHSET", k, "f", "1"}}); txs.push_back({{"VHSET", k, "f", "2"}}); txs.push_back({{"VHSET", k, b, "long value which is not stored in place"}});
    txs.push_back({{"VHDEL", k, "f"}}); txs.push_back({{"VHDEL", k, "f", b, "f", "zz"}}); txs.push_back({{"DEL", k}});
    txs.push_back({{"VHSET", k, "f", "3"}, {"VHSET", k, "g", "4"}}); txs.push_back({{"VHSET", k, "f", "3"}, {"VHDEL", k, "f"}}); txs.push_back({{"VHDEL", k, "f"}, {"VHSET", k, "f", "5"}, {"VHGETALL", k}});
  }
  txs.push_back({{"VHSET", "k", "f", "6"}, {"VHSET", "q", "f", "7"}, {"VHDEL", "k", "zz"}});
  txs.push_back({{"VHSET", "k", "f", "8"}, {"DEL", "k"}}); txs.push_back({{"VHSET", "k", "f", "8"}, {"DEL", "k"}, {"VHSET", "k", "g", "9"}});
  txs.push_back({{"VHDEL", "k", "f"}, {"FLUSHALL"}, {"VHSET", "k", "g", "9"}, {"VHSET", "k", "h", "9"}}); txs.push_back({{"FLUSHALL"}});
  txs.push_back({{"SET", "q", "str"}}); txs.push_back({{"HSET", "k", "f", "x"}}); txs.push_back({{"VHSET", "k", "f"}}); txs.push_back({{"VHDEL", "k"}});
  c.spaces.push_back({"transactions", [txs](mc::Ctx &x) { history(x, txs, x.tier(4, 6)); }});
  std::vector<Tx> few = {{{"VHSET", "k", "f", "1"}}, {{"VHSET", "k", "g", "2"}}, {{"VHDEL", "k", "f"}}, {{"VHSET", "k", "f", "3"}, {"VHSET", "k", "h", "4"}}, {{"DEL", "k"}}};
  c.spaces.push_back({"one-key-deep", [few](mc::Ctx &x) { history(x, few, x.tier(7, 9)); }});
  return mc::main(argc, argv, c);
}
