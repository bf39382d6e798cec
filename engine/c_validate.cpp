// C03: which custom code tables are accepted.  Oracle: RFC 3284 section 7 (as the comments of the public header state the rules).
#include "contracts.hpp"
using namespace lin;

static const std::string T = "open_vcdiff::VCDiffCodeTableData";

CHECK(C03) {
  Interp& in = c.in;
  in.checkOverflow = true;
  const llvm::Function* V = fnArgs(in, T + "::Validate", 2);
  auto ob = [&](State& s, const std::string& rule, bool ok, const std::string& d, const std::string& key) { in.oblige(s, in.prop, rule, ok, d, key); };
  enum { NOOP, ADD, RUN, COPY };
  // ---- any table: one bad entry anywhere is enough to reject
  struct Bad { const char* name; std::function<void(State&, const std::string&, std::vector<State>*)> assume; };
  auto col = [](State& t, int k) { return t.ghost["c" + std::to_string(k)].e; };
  for (int half = 0; half < 2; ++half) for (int rule = 0; rule < 5; ++rule) {
    in.Kloop = 2; in.Kret = 2; in.Kblock = 40;
    State s;
    Value tb = c.obj(s, "code table", typeSize(in, T));
    int ver = in.baseVer("table");
    in.mut(s, tb.obj)->ver = ver;
    s.ghost["tb"] = tb;
    Value i0 = c.sym(s, "bad opcode", 64, 0, 255);
    Value mm = c.sym(s, "largest mode", 8, 0, 255);
    s.ghost["mm"] = mm;
    in.extraRoots = {tb};
    in.watch.clear();
    for (int k = half; k < 6; k += 2) {
      if ((rule == 0 && k > 1) || (rule == 1 && k < 4) || (rule == 2 && k > 3) || (rule > 2 && (k == 2 || k == 3))) continue;
      std::string g = "o" + std::to_string(k);
      s.ghost[g] = vint(addc(i0.e, k * 256), 64);
      in.watch[ver].push_back(g);
    }
    for (auto& s1 : c.act(s, [&](State& t) { for (int k = 0; k < 6; ++k) if (t.ghost.count("o" + std::to_string(k))) t.ghost["c" + std::to_string(k)] = vint(in.U(t, in.loadW(t, vptr(t.ghost["tb"].obj, t.ghost["o" + std::to_string(k)].e), 1, false, true)), 8); })) {
      State t = s1;
      L inst = rule == 1 ? cst(0) : col(t, half), size = rule == 2 ? col(t, 2 + half) : cst(0), mode = rule == 0 || rule == 2 ? cst(0) : col(t, 4 + half);
      std::string key;
      switch (rule) {
        case 0: t.n.assumeGE(addc(inst, -4)); key = "unknown instruction type"; break;
        case 1: t.n.assumeGE(addc(lin::sub(mode, mm.e), -1)); key = "mode beyond the largest"; break;
        case 2: t.n.assumeEQ(inst); t.n.assumeGE(addc(size, -1)); key = "NOOP with a size"; break;
        case 3: t.n.assumeGE(addc(mode, -1)); t.n.assumeGE(addc(mulc(inst, -1), 2)); key = "mode on NOOP, ADD or RUN"; break;
        case 4: t.n.assumeGE(addc(mode, -1)); t.n.assumeGE(addc(inst, -4)); key = "mode on an unknown instruction"; break;
      }
      if (t.dead()) throw Broken{"case"};
      for (auto& o : c.call(V, {t.ghost["tb"], t.ghost["mm"]}, t)) {
        c.counts["bad_entry_outcomes"]++;
        i128 r;
        ob(o.st, "a bad entry is rejected, whatever the rest of the table", constRet(o.st, o.ret, &r) && !(r & 1), "table accepted", std::string(half ? "second" : "first") + " instruction: " + key);
      }
    }
  }
  in.watch.clear();
  if (in.debug) fprintf(stderr, "part 2\n");
  // ---- tables that differ from the default one in one entry: exactly the well-formed ones are accepted
  const llvm::GlobalVariable* g = nullptr;
  for (auto& x : in.M->globals()) if (x.getName() == "_ZN11open_vcdiff19VCDiffCodeTableData21kDefaultCodeTableDataE") g = &x;
  if (!g) throw Broken{"default code table"};
  in.Kloop = 3000; in.Kret = 3000; in.Kblock = 3000;
  int def[6][256];
  State s0;
  Value dt = vptr(in.globalObj(g), cst(0));
  for (int k = 0; k < 6; ++k) for (int i = 0; i < 256; ++i) {
    Value v = in.loadW(s0, vptr(dt.obj, cst(k * 256 + i)), 1, false, true);
    i128 r;
    if (v.k != VInt || !isConst(s0.n.norm(in.U(s0, v)), &r)) throw Broken{"default table entry"};
    def[k][i] = (int)r;
  }
  auto covers = [&](int i, int want) { return def[2][i] == 0 && def[1][i] == 0 && def[0][i] + def[4][i] == want; };
  for (int mm = 7; mm <= 9; ++mm) {
    State s = s0;
    s.ghost["dt"] = dt;
    for (auto& o : c.call(V, {dt, vcst(mm, 8)}, s)) { i128 r; ob(o.st, "the default table is accepted for its own modes only", constRet(o.st, o.ret, &r) && (r & 1) == (mm == 8), "largest mode " + std::to_string(mm), "default table"); }
  }
  // ...with one entry replaced: every combination of type and mode must keep an opcode
  struct Rep { int inst, size, mode; };
  const Rep reps[] = {{ADD, 200, 0}, {COPY, 0, 8}, {RUN, 0, 0}, {NOOP, 0, 0}, {COPY, 255, 1}, {NOOP, 1, 0}, {ADD, 1, 1}, {COPY, 4, 9}, {4, 0, 0}, {COPY, 0, 0}, {ADD, 0, 0}};
  int nreps = c.thorough ? 11 : 6;
  for (int op = 0; op < 256; ++op) for (int half = 0; half < 2; ++half) for (int ri = 0; ri < nreps; ++ri) {
    bool matters = def[2][op] == 0;   // opcodes with an explicit size
    if (!matters && !(op % (c.thorough ? 16 : 50) == 5)) continue;
    if (half == 1 && !(c.thorough || op % 32 == 19 || op % 50 == 5)) continue;
    const Rep& r = reps[ri];
    int d[6];
    for (int k = 0; k < 6; ++k) d[k] = def[k][op];
    d[half] = r.inst; d[2 + half] = r.size; d[4 + half] = r.mode;
    bool want = true;
    for (int h = 0; h < 2; ++h) { int I = d[h], Z = d[2 + h], M = d[4 + h]; if (I > 3 || M > 8 || (I == NOOP && Z) || (I != COPY && M)) want = false; }
    for (int w = 1; w <= 3 + 8 && want; ++w) {
      bool f = d[2] == 0 && d[1] == 0 && d[0] + d[4] == w;
      for (int i = 0; i < 256 && !f; ++i) if (i != op) f = covers(i, w);
      if (!f) want = false;
    }
    std::string key = "opcode " + std::to_string(op) + (half ? ", second instruction" : ", first instruction") + " type " + std::to_string(r.inst) + " size " + std::to_string(r.size) + " mode " + std::to_string(r.mode);
    State s;
    Value tb = c.obj(s, "code table", typeSize(in, T));
    in.mut(s, tb.obj)->gv = g;
    for (int k = 0; k < 6; ++k) in.store(s, vptr(tb.obj, cst(k * 256 + op)), vcst(d[k], 8), 1);
    s.ghost["tb"] = tb;
    for (auto& o : c.call(V, {tb, vcst(8, 8)}, s)) {
      c.counts[want ? "variants_accepted" : "variants_rejected"]++;
      i128 x;
      ob(o.st, want ? "default table with one entry replaced: a well-formed table is accepted" : "default table with one entry replaced: an ill-formed or incomplete table is rejected", constRet(o.st, o.ret, &x) && ((x & 1) != 0) == want, "", key);
    }
  }
  in.extraRoots.clear();
}
