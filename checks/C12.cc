//@ sources: *
//@ lib: fakedb nothreads
#include "journal.hh"
using namespace jr;
static std::string where() { return mc::scratch() + "/journal"; }
static void histories(mc::Ctx &x, const std::vector<Op> &ops, int depth, int prelude) {
  fakedb::wipeAll(); LogIndex start = prelude == 2 ? 250 : 0; Model m({"a", "b", "c"}, start, FsyncPolicy::kSyncImportantUpdates);
  std::unique_ptr<RaftJournal> j(new RaftJournal(where(), kCluster, {srv("a"), srv("b"), srv("c")}, start, FsyncPolicy::kSyncImportantUpdates)); bool imp;
  auto prep = [&](int kind, int a = 0, int b = 0) { perform(x, j, where(), m, Op{"prelude", kind, a, b}, imp); };
  if(prelude == 1) { prep(TERM, 1, 1); prep(MARKER); prep(APPEND); prep(COMMIT, 0); prep(TERM, 1, 0); prep(APPEND); prep(TERM, 1, 0); prep(APPEND); prep(APPEND); prep(COMMIT, 1); prep(TRIM, 1); }
  if(prelude == 2) { for(int i = 0; i < 8; i++) { prep(TERM, 1, 0); prep(APPEND); } prep(COMMIT, 1); }
  examine(x, *j, m); x.nontrivial();
  for(int d = 0; d < depth; d++) {
    int i = x.choose((int)ops.size() + 1, "operation"); if(i == (int)ops.size()) return;
    fakedb::Map before = fakedb::contents(where()); Outcome o = perform(x, j, where(), m, ops[i], imp); if(o == SKIP) x.abandon(); x.transition();
    x.log("  ", ops[i].name, o == REFUSED ? " refused" : "");
    if(o == REFUSED) x.check(fakedb::contents(where()) == before, "refused-wrote", "a refused operation changed the stored journal");
    x.outcome(m.canon()); std::string got = observe(*j); x.check(got == m.canon(), "state", "journal holds:\n" + got + "\nexpected:\n" + m.canon());
    if(x.visited(fakedb::canon(fakedb::contents(where())) + m.canon() + std::to_string(m.floor) + got, depth - d - 1)) x.abandon();
    examine(x, *j, m);
  }
}
static std::vector<Op> some(std::initializer_list<int> kinds) { std::vector<Op> v; for(auto &o : alphabet()) for(int k : kinds) if(o.kind == k) v.push_back(o); return v; }
int main(int argc, char **argv) {
  mc::Check c; c.id = "C12";
  c.rule = "Every sequence of journal operations (36 kinds, legal and illegal: terms and votes, appends at any end and term, markers, memberships of this and another cluster, commit, truncate, trim, reopen) up to depth 4 (thorough 6) from a fresh journal, from one with a trimmed, partly committed multi-term log, and around an index byte boundary; deeper over the subset without memberships; after every step all getters, fetches, iterators, scans, matches and comparisons are compared with a list, and refused operations must leave the storage unchanged.";
  c.assumptions = {"a membership change is only built upon one committed in the cluster", "RocksDB behaves as an ordered map (in-memory replacement)"};
  c.spaces.push_back({"fresh", [](mc::Ctx &x) { histories(x, alphabet(), x.tier(4, 6), 0); }});
  c.spaces.push_back({"grown", [](mc::Ctx &x) { histories(x, alphabet(), x.tier(4, 5), 1); }});
  c.spaces.push_back({"index-boundary", [](mc::Ctx &x) { histories(x, some({APPEND, COMMIT, TRUNC, TRIM, REOPEN}), x.tier(4, 6), 2); }});
  c.spaces.push_back({"log-only", [](mc::Ctx &x) { histories(x, some({TERM, APPEND, COMMIT, TRUNC, TRIM, REOPEN}), x.tier(5, 8), 0); }});
  c.spaces.push_back({"members", [](mc::Ctx &x) { histories(x, some({RAWMEMB, ADDOBS, PROMOTE, DEMOTE, REMOVE, COMMIT, TRUNC, REOPEN}), x.tier(5, 7), 0); }});
  return mc::main(argc, argv, c);
}
