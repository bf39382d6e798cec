// B01: the match search.  The tables of a BlockHash only ever hold numbers of blocks that were added (or -1), every access
// stays inside the tables and the data, and every match offered by FindBestMatch is a stretch of equal bytes, through the
// candidate block, inside the data searched.  E01 relies on this contract.
#include "contracts.hpp"
using namespace lin;

static const std::string NS = "open_vcdiff::";
static const std::string BH = NS + "BlockHash";
static const std::string RH = NS + "RollingHash<";
namespace {
struct BSpec : Spec {
  std::string key;
  int N = 16;
  bool find = false, tableModel = true;
  long reports = 0;
  L G(State& s, const std::string& k) { auto it = s.ghost.find(k); if (it == s.ghost.end()) throw Broken{"ghost " + k}; return it->second.e; }
  static void put(std::vector<Outcome>& out, State&& t, const Value& v) { Outcome o; o.st = std::move(t); o.ret = v; out.push_back(std::move(o)); }
  void ob(Interp& in, State& s, const std::string& rule, bool ok, const std::string& d = "") { in.oblige(s, "B01", rule, ok, d, key); }
  bool eqKnown(Interp& in, State& s) { (void)in; return s.ghost.count("vq") && s.n.entailsEQ(lin::sub(G(s, "vq"), G(s, "vtp"))); }
  // The last block of a chain is looked up for the first block of a chain only, and that entry is never -1: what is stored
  // in that table is never -1, and a block that becomes the first of a chain gets an entry.
  void onStore(Interp& in, State& s, const Value& p, const Value& v, int nbytes) override {
    if (!s.ghost.count("tabH") || p.k != VPtr || nbytes != 4) return;
    if (p.obj == s.ghost["tabH"].obj) {
      L v0 = in.S(s, v);
      bool has = s.ghost.count("lv") && s.n.entailsEQ(lin::sub(G(s, "lv"), mulc(v0, 4)));
      s.ghost["hv"] = vint(v0, 64); s.ghost["!head"] = vcst(has ? 0 : 1, 32);
    } else if (p.obj == s.ghost["tabL"].obj) {
      if (s.ghost.count("hv") && s.n.entailsEQ(lin::sub(p.e, mulc(G(s, "hv"), 4)))) s.ghost["!head"] = vcst(0, 32);
      s.ghost["lv"] = vint(p.e, 64);
    }
  }
  void onCall(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a) override {
    const std::string& q = in.qname(F);
    if (q == BH + "::AddAllBlocksThroughIndex" && fresh && !s.ghost.count("tabH")) fresh(s);
    (void)a;
  }
  void onReturn(Interp& in, State& s, const llvm::Function* F, const std::vector<Value>&, const Value&) override {
    if (in.qname(F) != BH + "::AddBlock" || !s.ghost.count("tabH")) return;
    i128 k = 0;
    auto it = s.ghost.find("!head");
    bool ok = it == s.ghost.end() || (isConst(it->second.e, &k) && k == 0);
    ob(in, s, "a block that starts a chain has a last block", ok);
    s.ghost.erase("hv"); s.ghost.erase("lv"); s.ghost["!head"] = vcst(0, 32);
  }
  // a stretch of the target (x) and of the data searched (y) that was found equal
  void segment(State& s, const std::string& g, const Value& a, const Value& b, L n, bool before) {
    Value x = a, y = b;
    if (x.k != VPtr || y.k != VPtr) return;
    if (x.obj != s.ghost["tg"].obj || y.obj != s.ghost["src"].obj) std::swap(x, y);
    if (x.obj != s.ghost["tg"].obj || y.obj != s.ghost["src"].obj) return;
    s.ghost[g + "x"] = vint(before ? lin::sub(x.e, n) : x.e, 64); s.ghost[g + "y"] = vint(before ? lin::sub(y.e, n) : y.e, 64); s.ghost[g + "n"] = vint(n, 64);
  }
  std::function<void(State&)> fresh;
  i64 lastAt = -1;
  void templates(Interp& in, State& s, std::vector<L>& v) override {
    if (!s.ghost.count("tabH") || find) return;
    L u = s.ghost.count("end") ? G(s, "end") : G(s, "SZ");
    auto e = [&](L x) { v.push_back(addc(lin::sub(u, mulc(x, N)), -1)); v.push_back(addc(lin::sub(G(s, "NB"), x), -1)); };
    for (auto* k : {"tabH", "tabL", "tabN"}) { const Obj* o = s.ghost.count(k) ? in.get(s, s.ghost[k].obj) : nullptr; e(o && o->summ >= 0 ? atom(o->summ) : cst(pow2(40))); }
    const Obj* o = in.get(s, s.ghost["h"].obj);
    auto it = o->cells.find(lastAt);
    e(it != o->cells.end() && it->second.k == VInt ? in.S(s, it->second) : cst(pow2(40)));
  }
  std::string shapeTag(Interp& in, State& s) override { return find && eqKnown(in, s) ? "E" : ""; }
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    const std::string& q = in.qname(F);
    if (q.compare(0, RH.size(), RH) == 0 && q.substr(q.rfind("::") + 2) == "Hash" && a.size() >= 1) {
      in.extModels.insert("RollingHash::Hash (reads one block, any value; see R01)");
      in.access(s, a.back(), cst(N), false, "hashed block");
      put(out, std::move(s), vint(atom(newAtom("hash", 0, pow2(32) - 1)), 32));
      return true;
    }
    if (q == NS + "CheckFatalError") throw PathEnd();      // an internal error was reported
    if (tableModel && q == BH + "::CalcTableSize" && a.size() == 1) {
      put(out, std::move(s), vint(atom(newAtom("table size", 1, pow2(30))), 64));
      return true;
    }
    if ((q == "memcmp" || q == "bcmp") && find && a.size() == 3) {
      L n = in.U(s, a[2]);
      in.access(s, a[0], n, false, "memcmp"); in.access(s, a[1], n, false, "memcmp");
      State same = s;
      { int r = newAtom("cmp", -pow2(31), pow2(31) - 1); s.n.assumeNE(atom(r)); put(out, std::move(s), vint(atom(r), 32)); }
      for (auto* k : {"x", "y", "n"}) same.ghost[std::string("b2") + k] = same.ghost[std::string("b1") + k];
      segment(same, "b1", a[0], a[1], n, false);
      i128 cnt = 0;
      isConst(G(same, "!new"), &cnt);
      same.ghost["!new"] = vcst(cnt < 2 ? cnt + 1 : 2, 32);
      put(out, std::move(same), vcst(0, 32));
      return true;
    }
    if (find && (q == BH + "::MatchingBytesToLeft" || q == BH + "::MatchingBytesToRight") && a.size() == 3 && s.ghost.count("cand")) {
      bool left = q == BH + "::MatchingBytesToLeft";
      in.extModels.insert("BlockHash::MatchingBytesToLeft/Right (decided separately: 0..max bytes, all of them equal)");
      L max = in.S(s, a[2]);
      if (!in.test(s, Constraint::GE, max, "bytes to compare")) { put(out, std::move(s), vcst(0, 32)); return true; }
      for (int k = 0; k < 2; ++k) {
        if (a[k].k != VPtr || a[k].obj < 0) { ob(in, s, "the bytes compared exist", false, "unknown pointer"); continue; }
        in.access(s, vptr(a[k].obj, left ? lin::sub(a[k].e, max) : a[k].e), max, false, "bytes compared");
      }
      int r = newAtom("bytes matching", 0, pow2(31) - 1);
      L n = atom(r);
      s.n.assumeGE(lin::sub(max, n));
      segment(s, left ? "l" : "r", a[0], a[1], n, left);
      put(out, std::move(s), vint(n, 32));
      return true;
    }
    if (find && q == BH + "::Match::ReplaceIfBetterMatch" && a.size() == 4) {
      ++reports;
      L n = in.U(s, a[1]), src = lin::sub(in.S(s, a[2]), G(s, "start")), tgt = in.S(s, a[3]), co = G(s, "cand"), size = G(s, "size");
      std::string d = "size " + str(s.n.norm(n)) + " source " + str(s.n.norm(src)) + " target " + str(s.n.norm(tgt));
      ob(in, s, "a match covers the candidate block", s.n.entailsGE(tgt) && s.n.entailsGE(lin::sub(co, tgt)) && s.n.entailsGE(lin::sub(lin::add(tgt, n), addc(co, N))), d);
      ob(in, s, "a match does not reach past the target data", s.n.entailsGE(lin::sub(size, lin::add(tgt, n))), d);
      ob(in, s, "a match lies inside the data searched", s.n.entailsGE(src) && s.n.entailsGE(lin::sub(G(s, "SZ"), lin::add(src, n))), d);
      ob(in, s, "a match goes through a block that was added", s.n.entailsGE(addc(lin::sub(G(s, "ub"), lin::add(src, lin::sub(co, tgt))), -1)), d);
      // the stretches compared cover the match
      L at = lin::add(tgt, s.ghost["tg"].e), end = lin::add(at, n), diag = lin::sub(lin::add(src, s.ghost["src"].e), at);
      std::set<std::string> used;
      for (bool more = true; more && !s.n.entailsGE(lin::sub(at, end));) {
        more = false;
        for (std::string g : {"l", "b1", "b2", "r"}) {
          if (used.count(g)) continue;
          L x = G(s, g + "x"), y = G(s, g + "y"), len = G(s, g + "n");
          if (s.ghost["tg"].obj == s.ghost["src"].obj && !s.n.entailsEQ(lin::sub(lin::sub(y, x), diag))) std::swap(x, y);
          if (!s.n.entailsEQ(lin::sub(lin::sub(y, x), diag)) || !s.n.entailsGE(lin::sub(at, x)) || !s.n.entailsGE(lin::sub(lin::add(x, len), at))) continue;
          used.insert(g); at = lin::add(x, len); more = true;
        }
      }
      ob(in, s, "the bytes of a match are equal", s.n.entailsGE(lin::sub(at, end)), d + " compared up to " + str(s.n.norm(at)));
      i128 cnt = 0;
      isConst(G(s, "!new"), &cnt);
      s.ghost["!new"] = vcst(cnt > 0 ? cnt - 1 : 0, 32);
      put(out, std::move(s), Value());
      return true;
    }
    return false;
  }
};
struct Blocks {
  Ctx& c; Interp& in; BSpec& sp;
  L SZ = 0, NB = 0;
  Value h;
  i64 lastAt = -1;
  // a BlockHash for arbitrary data, constructed and initialised
  std::vector<State> made(bool target, bool populate) {
    State s;
    Value size = c.sym(s, "source size", 64, 0, pow2(31) - 1), start = c.sym(s, "starting offset", 32, 0, target ? pow2(31) - 1 : 0);
    s.n.assumeGE(lin::sub(cst(pow2(31) - 1), lin::add(size.e, start.e)));
    SZ = size.e;
    L rest;
    divmod(in, s, SZ, cst(sp.N), &NB, &rest, "blocks");
    Value d = in.mkInput(s, "data", size.e);
    h = c.obj(s, "BlockHash", typeSize(in, BH));
    s.ghost["h"] = h; s.ghost["src"] = d; s.ghost["SZ"] = vint(SZ, 64); s.ghost["NB"] = vint(NB, 64); s.ghost["start"] = vint(start.e, 64);
    std::vector<State> r2;
    for (auto& o : c.call(fnArgs(in, BH + "::BlockHash", 4), {h, d, size, start}, s))
      for (auto& o2 : c.call(fnArgs(in, BH + "::Init", 2), {h, vcst(populate, 1)}, o.st)) {
        i128 v;
        sp.ob(in, o2.st, "initialisation succeeds", constRet(o2.st, o2.ret, &v) && (v & 1), "");
        r2.push_back(o2.st);
      }
    return r2;
  }
  // every entry of the tables: a block below the limit or -1
  void tables(State& s, L ub, const std::string& when) {
    int seen = 0;
    for (int id : storage(s)) {
      ++seen;
      if (s.ghost.count("tabL") && s.ghost["tabL"].obj == id && s.n.entailsEQ(ub)) continue;   // no blocks: not read
      i128 lo = s.ghost.count("tabL") && s.ghost["tabL"].obj == id ? 0 : -1;
      State t = s;
      const Obj* o = in.get(t, id);
      int i = newAtom("index", 0, pow2(31));
      t.n.assumeGE(addc(lin::sub(o->size, mulc(atom(i), 4)), -4));
      for (auto& u : c.act(t, [&](State& w) { w.ghost["e"] = in.loadW(w, vptr(id, mulc(atom(i), 4)), 4, false); })) {
        if (u.dead() || !u.n.feasible()) continue;
        State w = u;
        if (w.ghost["e"].k != VInt) { sp.ob(in, w, "the tables hold numbers of added blocks only", false, "unknown entry " + when); continue; }
        L e = in.S(w, w.ghost["e"]);
        sp.ob(in, w, "the tables hold numbers of added blocks only", w.n.entailsGE(addc(e, -lo)) && w.n.entailsGE(addc(lin::sub(w.ghost["NB"].e, e), -1)) && w.n.entailsGE(addc(lin::sub(ub, mulc(e, sp.N)), -1)), "entry " + str(w.n.norm(e)) + " " + when);
      }
    }
    c.counts["tables"] += seen;
  }
  std::vector<int> storage(State& s) {
    std::vector<int> ids;
    for (auto& x : s.heap) if (x.second->alive && x.second->name == "vector<int> storage") ids.push_back(x.first);
    return ids;
  }
  // tables with arbitrary entries of that kind, below each of the limits
  void arbitraryTables(State& s, const std::vector<L>& limits) {
    auto* o = in.get(s, h.obj);
    std::vector<int> vec;
    std::vector<std::pair<i64, std::string>> m;
    for (auto& x : members(in, BH)) m.push_back({x.second, x.first});
    std::sort(m.begin(), m.end());
    int H = -1, T = -1;
    for (auto& x : m) {
      auto it = o->cells.find(x.first);
      if (it == o->cells.end() || it->second.k != VPtr || it->second.obj < 0) continue;
      auto* t = in.get(s, it->second.obj);
      if (!t || t->name != "vector<int> storage") continue;
      if (H < 0 || x.second.find("hash") != std::string::npos) H = it->second.obj;
      if (T < 0 || x.second.find("last") != std::string::npos) T = it->second.obj;
    }
    if (H < 0 || T < 0 || H == T) throw Broken{"tables of BlockHash not found"};
    s.ghost["tabH"] = vptr(H, cst(0)); s.ghost["tabL"] = vptr(T, cst(0)); s.ghost["!head"] = vcst(0, 32);
    for (int id : storage(s)) {
      if (id != H && id != T) s.ghost["tabN"] = vptr(id, cst(0));
      Obj* o = in.mut(s, id);
      o->cells.clear();
      o->ver = in.baseVer("table");
      int e = newAtom("entry", -pow2(31), pow2(31) - 1);
      o->summ = e; o->summN = 4;
      entry(s, atom(e), id == T ? 0 : -1, limits);
    }
  }
  // lo <= e < number of blocks, and the block starts below each limit; limits of 0 mean that there is no such block
  void entry(State& s, L e, int lo, const std::vector<L>& limits) {
    s.n.assumeGE(addc(e, -lo));
    auto below = [&](L u, int k) {
      if (lo >= 0 && s.n.entailsEQ(u)) return;      // no block at all: the table is not read
      if (lo >= 0 && !s.n.entailsGE(addc(u, -1))) throw Broken{"undecided limit"};
      s.n.assumeGE(addc(lin::sub(u, mulc(e, k)), -1));
    };
    below(NB, 1);
    for (L u : limits) below(u, sp.N);
  }
  // the cases u = 0 and u >= 1
  std::vector<State> cases(const std::vector<State>& v, L u) {
    std::vector<State> r;
    for (auto& s : v) for (int k = 0; k < 2; ++k) {
      State t = s;
      if (k) t.n.assumeGE(addc(u, -1)); else t.n.assumeEQ(u);
      if (!t.dead() && t.n.feasible()) r.push_back(t);
    }
    return r;
  }
  // and an arbitrary last block added
  std::vector<State> arbitrary(const State& s0, const std::function<L(State&, L)>& endOf = nullptr) {
    State s = s0;
    int ub = newAtom("end of the part added", 0, pow2(31) - 1);
    s.n.assumeGE(lin::sub(SZ, atom(ub)));
    s.ghost["ub"] = vint(atom(ub), 64);
    std::vector<L> limits{atom(ub)};
    if (endOf) limits.push_back(endOf(s, atom(ub)));
    std::vector<State> v = cases({s}, NB);
    v = cases(v, limits.back());
    if (endOf) {
      // is there a whole block behind the end?
      std::vector<State> r;
      for (auto& t : v) for (int k = 0; k < 2; ++k) {
        State u = t;
        L d = lin::sub(SZ, addc(limits[1], sp.N));
        u.n.assumeGE(k ? d : addc(mulc(d, -1), -1));
        if (!u.dead() && u.n.feasible()) r.push_back(u);
      }
      v = r;
    }
    for (auto& t : v) history(t, limits);
    return v;
  }
  void history(State& s, const std::vector<L>& limits) {
    L ub = limits[0];
    arbitraryTables(s, {limits.back()});
    Obj* o = in.mut(s, h.obj);
    std::vector<i64> at;
    for (auto& x : o->cells) { i128 k; if (x.second.k == VInt && x.second.w == 32 && isConst(s.n.norm(x.second.e), &k) && (k == -1 || k == pow2(32) - 1)) at.push_back(x.first); }
    if (at.size() == 1) {
      int l = newAtom("last block added", -1, pow2(27));
      entry(s, atom(l), -1, {ub});
      o->cells[at[0]] = vint(atom(l), 32);
      lastAt = sp.lastAt = at[0];
      c.counts["arbitrary histories"]++;
    }
  }
  void create() {
    sp.key = "dictionary";
    sp.fresh = [&](State& s) {
      if (!in.test(s, Constraint::GE, addc(NB, -1), "number of blocks")) s.n.assumeEQ(NB);
      arbitraryTables(s, {});
    };
    for (auto& s0 : made(false, true)) { State s = s0; if (s.dead() || !s.n.feasible()) continue; tables(s, s.ghost["SZ"].e, "after Init"); c.counts["created"]++; }
    sp.fresh = nullptr;
    sp.key = "target";
    for (auto& s0 : made(true, false)) { State s = s0; if (s.dead() || !s.n.feasible()) continue; tables(s, cst(0), "after Init"); c.counts["created"]++; }
  }
  void addOps() {
    for (int op = 0; op < 2; ++op) {
      sp.key = op ? "AddAllBlocksThroughIndex" : "AddOneIndexHash";
      for (auto& s0 : made(true, false)) {
        State s = s0;
        Value i = c.sym(s, "index", 32, 0, pow2(31) - 1);
        L end = op ? i.e : addc(i.e, 1);
        s.ghost["end"] = vint(end, 64);
        for (auto& s1 : arbitrary(s, [&](State& t, L ub) { t.n.assumeGE(lin::sub(end, ub)); t.n.assumeGE(lin::sub(SZ, end)); return end; })) {
        State s = s1;
        std::vector<Value> args{h, i};
        if (!op) args.push_back(c.sym(s, "hash", 32, 0, pow2(32) - 1));
        for (auto& o : c.call(fnArgs(in, BH + "::" + sp.key, args.size()), args, s)) {
          State t = o.st;
          tables(t, t.ghost["end"].e, "after " + sp.key);
          c.counts["additions"]++;
          if (lastAt >= 0) {
            // the same for the last block added
            const Obj* b = in.get(t, h.obj);
            {
              auto it = b->cells.find(lastAt);
              bool ok = it != b->cells.end() && it->second.k == VInt;
              if (ok) { L e = in.S(t, it->second); ok = t.n.entailsGE(addc(e, 1)) && t.n.entailsGE(addc(lin::sub(t.ghost["NB"].e, e), -1)) && t.n.entailsGE(addc(lin::sub(t.ghost["end"].e, mulc(e, sp.N)), -1)); }
              sp.ob(in, t, "blocks are added up to the index given and not beyond", ok, ok ? "" : "last " + str(t.n.norm(it->second.e)));
            }
          }
        }
        }
      }
    }
  }
  void size(int k) {
    // smallest power of two not below size/4 + 1
    State s;
    i128 lo = k == 0 ? 0 : 4 * pow2(k - 1), hi = k == 0 ? 3 : std::min(4 * pow2(k) - 1, pow2(31) - 1);
    Value d = c.sym(s, "size", 64, lo, hi);
    sp.tableModel = false;
    in.Kloop = 64;
    for (auto& o : c.call(fnArgs(in, BH + "::CalcTableSize", 1), {d}, s)) {
      i128 v;
      sp.key = "data of " + i128s(lo) + " to " + i128s(hi) + " bytes";
      bool ok = constRet(o.st, o.ret, &v) ? v >= 1 && v <= pow2(30) : (o.st.n.entailsGE(addc(in.U(o.st, o.ret), -1)) && o.st.n.entailsGE(lin::sub(cst(pow2(30)), in.U(o.st, o.ret))));
      sp.ob(in, o.st, "a table size is found for every data size", ok, "");
      c.counts["table sizes"]++;
    }
    in.Kloop = 3;
    sp.tableModel = true;
  }
  // the functions that extend a match, with a position singled out (they only read: it does not matter whether the two
  // places lie in the same buffer)
  void extend(bool left) {
    sp.key = left ? "MatchingBytesToLeft" : "MatchingBytesToRight";
    {
      State s;
      Value size[2], at[2], b[2], max = c.sym(s, "max bytes", 32, 0, pow2(31) - 1 - sp.N), k = c.sym(s, "position", 64, 0, pow2(31) - 1);
      for (int i = 0; i < 2; ++i) {
        size[i] = c.sym(s, i ? "target size" : "source size", 64, 0, pow2(31) - 1);
        at[i] = c.sym(s, i ? "target offset" : "source offset", 64, 0, pow2(31) - 1);
        s.n.assumeGE(lin::sub(size[i].e, left ? at[i].e : lin::add(at[i].e, max.e)));
        if (left) s.n.assumeGE(lin::sub(at[i].e, max.e));
        b[i] = in.mkInput(s, i ? "target" : "source", size[i].e);
      }
      s.n.assumeGE(addc(lin::sub(max.e, k.e), -1));
      auto pos = [&](int i) { return left ? addc(lin::sub(at[i].e, k.e), -1) : lin::add(at[i].e, k.e); };
      s.ghost["q"] = vint(pos(0), 64); s.ghost["tp"] = vint(pos(1), 64); s.ghost["vq"] = c.sym(s, "source byte", 64, 0, 255); s.ghost["vtp"] = c.sym(s, "target byte", 64, 0, 255);
      s.ghost["k"] = k; s.ghost["max"] = vint(max.e, 64);
      if (!s.n.feasible()) throw Broken{"empty scenario"};
      in.watch.clear();
      in.watch[in.mut(s, b[0].obj)->ver].push_back("q");
      in.watch[in.mut(s, b[1].obj)->ver].push_back("tp");
      in.watchCanon = true; sp.find = true;
      for (auto& o : c.call(fnArgs(in, BH + "::" + sp.key, 3), {vptr(b[0].obj, at[0].e), vptr(b[1].obj, at[1].e), max}, s)) {
        State t = o.st;
        L n = in.S(t, o.ret);
        std::string d = "result " + str(t.n.norm(n));
        sp.ob(in, t, "no more bytes than allowed", t.n.entailsGE(n) && t.n.entailsGE(lin::sub(sp.G(t, "max"), n)), d);
        sp.ob(in, t, "the bytes that extend a match are equal", t.n.entailsGE(lin::sub(sp.G(t, "k"), n)) || sp.eqKnown(in, t), d);
        c.counts["extensions"]++;
      }
      sp.find = false; in.watch.clear(); in.watchCanon = false;
    }
  }
  void search(bool target) {
    sp.key = target ? "match in the target" : "match in the dictionary";
    for (auto& s0 : made(target, false)) for (auto& s1 : arbitrary(s0)) {
      State s = s1;
      if (s.n.entailsEQ(s.ghost["SZ"].e)) continue;
      s.n.assumeGE(addc(SZ, -1));
      Value T = c.sym(s, "target size", 64, sp.N, pow2(31) - 1), A, tg;
      Value cand = c.sym(s, "candidate offset", 64, 0, pow2(31) - 1);
      s.n.assumeGE(lin::sub(T.e, addc(cand.e, sp.N)));
      if (target) {
        // the target is what follows some place of the same data; blocks were added before the candidate only
        A = c.sym(s, "encoded part", 64, 0, pow2(31) - 1);
        s.n.assumeGE(lin::sub(SZ, lin::add(A.e, T.e)));
        s.n.assumeGE(lin::sub(lin::add(A.e, cand.e), s.ghost["ub"].e));
        tg = s.ghost["src"]; tg.e = A.e;
      } else tg = in.mkInput(s, "target", T.e);
      if (s.dead() || !s.n.feasible()) continue;      // e.g. no whole block in the data
      s.ghost["tg"] = tg; s.ghost["cand"] = cand; s.ghost["size"] = T;
      for (std::string g : {"l", "b1", "b2", "r"}) for (auto* k : {"x", "y", "n"}) s.ghost[g + k] = vcst(0, 64);
      s.ghost["!new"] = vcst(0, 32);      // blocks found and not offered yet
      std::vector<State> v;
      v.push_back(s);
      Value m;
      sp.find = true;
      for (auto& t0 : v) {
        State t = t0;
        m = c.obj(t, "Match", typeSize(in, BH + "::Match"));
        t.ghost["m"] = m;
        for (auto& o : c.call(fnArgs(in, BH + "::Match::Match", 1), {m}, t)) {
          State u = o.st;
          Value hash = c.sym(u, "hash", 32, 0, pow2(32) - 1);
          for (auto& o2 : c.call(fnArgs(in, BH + "::FindBestMatch", 6), {h, hash, vptr(tg.obj, lin::add(tg.e, cand.e)), tg, T, m}, u)) { (void)o2; c.counts["searches"]++; }
        }
      }
      sp.find = false;
    }
    if (!sp.reports) throw Broken{"FindBestMatch offers no match"};
    c.counts["matches offered"] += sp.reports;
  }
};
}
CHECK(B01) {
  BSpec sp;
  c.in.spec = &sp; c.in.prop = "B01"; c.in.checkOverflow = true; c.in.pairJoin = true; c.in.Kloop = c.in.Kret = 3;
  for (auto& F : *c.in.M) { const std::string& q = c.in.qname(&F); if (q.compare(0, RH.size(), RH) == 0) { sp.N = atoi(q.c_str() + RH.size()); break; } }
  c.counts["block size"] = sp.N;
  parallel(c, 7, [&](size_t i) {
    Blocks b{c, c.in, sp, 0, 0, Value(), -1};
    if (i == 0) b.create();
    else if (i == 1) b.addOps();
    else if (i == 2) for (int k = 0; k < 30; ++k) b.size(k);
    else if (i < 5) b.extend(i == 3);
    else b.search(i == 6);
    c.counts["scenarios"]++;
  });
}
