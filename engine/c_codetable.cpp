// C02: instruction code tables.  Oracle: RFC 3284 sections 5.4, 5.6 (default table) and 7 (custom tables).
#include "contracts.hpp"
using namespace lin;

static const std::string R = "open_vcdiff::VCDiffCodeTableReader";
static const std::string T = "open_vcdiff::VCDiffCodeTableData";
namespace {
struct Half { int inst, size, mode; };
struct Entry { Half h[2]; };
// the default code table, generated from the RFC's description
std::vector<Entry> rfcTable() {
  std::vector<Entry> t;
  enum { NOOP, ADD, RUN, COPY };
  auto one = [&](int i, int s, int m) { t.push_back({{{i, s, m}, {NOOP, 0, 0}}}); };
  one(RUN, 0, 0);
  for (int s = 0; s <= 17; ++s) one(ADD, s, 0);
  for (int m = 0; m <= 8; ++m) { one(COPY, 0, m); for (int s = 4; s <= 18; ++s) one(COPY, s, m); }
  for (int m = 0; m <= 5; ++m) for (int a = 1; a <= 4; ++a) for (int s = 4; s <= 6; ++s) t.push_back({{{ADD, a, 0}, {COPY, s, m}}});
  for (int m = 6; m <= 8; ++m) for (int a = 1; a <= 4; ++a) t.push_back({{{ADD, a, 0}, {COPY, 4, m}}});
  for (int m = 0; m <= 8; ++m) t.push_back({{{COPY, 4, m}, {ADD, 1, 0}}});
  return t;
}
struct CSpec : Spec {
  int validate = -1;   // -1: interpret Validate; otherwise its result is unknown
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    if (validate >= 0 && in.qname(F) == T + "::Validate" && a.size() == 2) {
      in.extModels.insert("VCDiffCodeTableData::Validate (either result)");
      for (int r = 0; r < 2; ++r) { Outcome o; o.st = s; o.st.ghost["valid"] = vcst(r, 1); o.ret = vcst(r, 1); out.push_back(std::move(o)); }
      return true;
    }
    size_t n0 = out.size();
    if (!contractVarintParse(in, s, F, a, out)) return false;
    for (size_t i = n0; i < out.size(); ++i) { out[i].st.ghost["parsed"] = out[i].ret; out[i].st.ghost["vend"] = in.loadW(out[i].st, a[1], 8, true, true); }
    return true;
  }
};
struct CT {
  Ctx& c; Interp& in;
  explicit CT(Ctx& x) : c(x), in(x.in) {}
  void ob(State& s, const std::string& rule, bool ok, const std::string& detail, const std::string& key) { in.oblige(s, in.prop, rule, ok, detail, key); }
  L var(State& s, const char* n, int sz, bool sg) { Value v = in.loadW(s, s.ghost[n], sz, false, true); if (v.k != VInt) return cst(-99999); return sg ? in.S(s, v) : in.U(s, v); }
  State base(int k) {   // reader over a section of any length >= k
    State s;
    Value extra = c.sym(s, "extra", 64, 0, pow2(40));
    s.ghost["len"] = vint(addc(extra.e, k), 64);
    Value buf = in.mkInput(s, "instructions section", addc(extra.e, k));
    s.ghost["buf"] = buf;
    Value pp = c.obj(s, "position variable", 8);
    in.store(s, pp, buf, 8);
    s.ghost["pp"] = pp;
    Value sz = c.obj(s, "size variable", 4), md = c.obj(s, "mode variable", 1);
    in.store(s, sz, vcst(0, 32), 4); in.store(s, md, vcst(0, 8), 1);
    s.ghost["sz"] = sz; s.ghost["md"] = md;
    s.ghost["parsed"] = vcst(-100, 32); s.ghost["vend"] = vnull();
    Value rd = c.obj(s, "code table reader", typeSize(in, R));
    s.ghost["rd"] = rd;
    return s;
  }
  std::vector<State> sts(std::vector<Outcome> r) { std::vector<State> v; for (auto& o : r) v.push_back(std::move(o.st)); return v; }
  std::vector<Outcome> next(State& s) {
    s.ghost["parsed"] = vcst(-100, 32);
    s.ghost["vend"] = vnull();
    in.extraRoots = {s.ghost["buf"], s.ghost["pp"]};
    return c.call(R + "::GetNextInstruction", {s.ghost["rd"], s.ghost["sz"], s.ghost["md"]}, s);
  }
  L pos(State& s, const std::string& key) {
    Value p = in.loadW(s, s.ghost["pp"], 8, true, true);
    bool ok = p.k == VPtr && p.obj == s.ghost["buf"].obj;
    ob(s, "position stays in the instructions section", ok, "", key);
    if (!ok) throw PathEnd();
    return p.e;
  }
};
}

CHECK(C02) {
  Interp& in = c.in;
  CSpec spec;
  in.spec = &spec;
  CT x(c);
  in.Kloop = 3; in.Kret = 60; in.Kblock = 60;
  auto tab = rfcTable();
  if (tab.size() != 256) throw Broken{"oracle table"};
  // ---- default table: the instructions each opcode stands for
  State s0 = x.base(1);
  auto ctor = fnArgs(in, R + "::VCDiffCodeTableReader", 1);
  for (auto& s1 : x.sts(c.call(ctor, {s0.ghost["rd"]}, s0)))
  for (auto& s2 : x.sts(c.call(R + "::Init", {s1.ghost["rd"], s1.ghost["pp"], vptr(s1.ghost["buf"].obj, s1.ghost["len"].e)}, s1)))
  for (int op = 0; op < 256; ++op) {
    State s = s2;
    Value b = in.loadW(s, s.ghost["buf"], 1, false, true);
    s.ghost["b"] = vint(in.U(s, b), 8);
    s.n.assumeEQ(addc(s.ghost["b"].e, -op));
    if (s.dead()) throw Broken{"opcode"};
    std::string key = "opcode " + std::to_string(op);
    // returns the states after which the next instruction may be read
    std::vector<State> cur{s};
    bool two = tab[op].h[1].inst != 0;
    for (int half = 0; half < (two ? 2 : 1); ++half) {
      std::vector<State> nx;
      Half w = tab[op].h[half];
      for (auto& q : cur) for (auto& o : x.next(q)) {
        c.counts["default_table_steps"]++;
        bool good = false;
        for (auto& t : c.act(o.st, [&](State& t) {
          good = false;
          i128 r;
          bool k = constRet(t, o.ret, &r);
          L p = x.pos(t, key);
          L E = in.S(t, t.ghost["parsed"]);
          i128 ev = 0;
          bool parsed = !(isConst(t.n.norm(E), &ev) && ev == -100);
          if (w.size == 0) {
            x.ob(t, "default table: explicit size is read", parsed, "", key);
            if (!parsed) return;
            if (!in.test(t, Constraint::GE, E, "parsed")) {
              x.ob(t, "default table: a bad size is an error, a missing one the end of data", k && ((ev == -1 && r == 4) || (ev == -2 && r == 5)), "", key);
              if (ev == -2) x.ob(t, "default table: position restored when the size is missing", t.n.entailsEQ(p), "", key);
              return;
            }
          } else x.ob(t, "default table: no explicit size for this opcode", !parsed, "", key);
          x.ob(t, "default table: instruction type", k && r == w.inst, "type " + (k ? i128s(r) : "?") + " instead of " + std::to_string(w.inst), key);
          x.ob(t, "default table: size", t.n.entailsEQ(lin::sub(x.var(t, "sz", 4, true), w.size ? cst(w.size) : E)), "", key);
          x.ob(t, "default table: mode", t.n.entailsEQ(addc(x.var(t, "md", 1, false), -w.mode)), "", key);
          x.ob(t, "default table: bytes consumed", t.n.entailsEQ(lin::sub(p, parsed ? t.ghost["vend"].e : cst(1))), "", key);
          good = true;
        })) if (good) nx.push_back(t);
      }
      cur = nx;
      if (cur.empty()) { x.ob(s, "default table: instruction is readable", false, "no successful outcome", key); break; }
    }
    // nothing left over
    for (auto& q : cur) for (auto& o : c.call(R + "::HasPendingInstruction", {q.ghost["rd"]}, q)) {
      i128 r;
      x.ob(o.st, "default table: no instruction left over after the opcode", constRet(o.st, o.ret, &r) && !(r & 1), "", key);
    }
  }
  // ---- reading with any code table
  spec.validate = 1;
  {
    State s = x.base(0);
    std::string key = "any table";
    Value tb = c.obj(s, "code table", typeSize(in, T));
    in.mut(s, tb.obj)->ver = in.baseVer("table");
    s.ghost["tb"] = tb;
    Value mm = c.sym(s, "max mode", 8, 0, 255);
    int stages = 0;
    for (auto& s1 : x.sts(c.call(ctor, {s.ghost["rd"]}, s)))
    for (auto& u : c.call(fnArgs(in, R + "::UseCodeTable", 3), {s1.ghost["rd"], s1.ghost["tb"], mm}, s1)) {
      i128 r, v;
      bool kr = constRet(u.st, u.ret, &r), kv = constRet(u.st, u.st.ghost["valid"], &v);
      x.ob(u.st, "UseCodeTable: succeeds exactly for valid tables", kr && kv && ((r & 1) == (v & 1)), "", key);
      if (!kr || !(r & 1)) continue;
      // the caller's copy may change or go away
      State s2 = u.st;
      int ver0 = in.get(s2, s2.ghost["tb"].obj)->ver;
      { Obj* m = in.mut(s2, s2.ghost["tb"].obj); m->alive = false; m->cells.clear(); }
      Value cmp = c.obj(s2, "reference table", typeSize(in, T));
      in.mut(s2, cmp.obj)->ver = ver0;
      s2.ghost["ref"] = cmp;
      for (auto& s3 : x.sts(c.call(R + "::Init", {s2.ghost["rd"], s2.ghost["pp"], vptr(s2.ghost["buf"].obj, s2.ghost["len"].e)}, s2))) {
        auto ref = [&](State& t, int col, L op) { return in.U(t, in.loadW(t, vptr(t.ghost["ref"].obj, addc(op, col * 256)), 1, false, true)); };
        // one opcode whose first instruction is not NOOP
        State s4 = s3;
        s4.n.assumeGE(addc(s4.ghost["len"].e, -1));
        for (auto& s5 : c.act(s4, [&](State& t) {
          L op = in.U(t, in.loadW(t, t.ghost["buf"], 1, false, true));
          t.ghost["op"] = vint(op, 8);
          for (int col = 0; col < 6; ++col) t.ghost["col" + std::to_string(col)] = vint(ref(t, col, op), 8);
          t.n.assumeGE(addc(t.ghost["col0"].e, -1));
        })) for (int two = 0; two < 2; ++two) {
          State s6 = s5;
          if (two) s6.n.assumeGE(addc(s6.ghost["col1"].e, -1)); else s6.n.assumeEQ(s6.ghost["col1"].e);
          if (s6.dead()) continue;
          for (auto& o : x.next(s6)) for (auto& t1 : c.act(o.st, [&](State& t) {
            c.counts["any_table_steps"]++;
            L p = x.pos(t, key);
            L rv = in.U(t, o.ret);
            L E = in.S(t, t.ghost["parsed"]);
            i128 ev = 0;
            bool parsed = !(isConst(t.n.norm(E), &ev) && ev == -100);
            bool expl = in.test(t, Constraint::EQ, t.ghost["col2"].e, "size 0");
            x.ob(t, "explicit size read exactly when the table has size 0", parsed == expl, "", key);
            if (parsed != expl) return;
            if (expl && !in.test(t, Constraint::GE, E, "parsed")) {
              x.ob(t, "a bad size is an error, a missing one the end of data", t.n.entailsEQ(addc(rv, ev == -1 ? -4 : -5)), "", key);
              if (ev == -2) x.ob(t, "position restored when the size is missing", t.n.entailsEQ(p), "", key);
              return;
            }
            x.ob(t, "first instruction: type from the table", t.n.entailsEQ(lin::sub(rv, t.ghost["col0"].e)), "", key);
            x.ob(t, "first instruction: size from the table or the section", t.n.entailsEQ(lin::sub(x.var(t, "sz", 4, true), expl ? E : t.ghost["col2"].e)), "", key);
            x.ob(t, "first instruction: mode from the table", t.n.entailsEQ(lin::sub(x.var(t, "md", 1, false), t.ghost["col4"].e)), "", key);
            x.ob(t, "first instruction: bytes consumed", t.n.entailsEQ(lin::sub(p, expl ? t.ghost["vend"].e : cst(1))), "", key);
            auto hp = in.call(in.find(R + "::HasPendingInstruction"), {t.ghost["rd"]}, t);
            for (auto& z : hp) { i128 b; x.ob(z.st, "a second instruction is pending exactly when the table has one", constRet(z.st, z.ret, &b) && ((b & 1) == two), "", key); }
            t.ghost["p1"] = vptr(t.ghost["buf"].obj, p);
          })) {
            if (t1.ghost.count("p1") == 0) {
              // missing size: the same instruction is read again
              continue;
            }
            ++stages;
            // put back, then read the same again
            for (auto& g : x.sts(c.call(R + "::UnGetInstruction", {t1.ghost["rd"]}, t1))) for (auto& z : c.act(g, [&](State& t) {
              x.ob(t, "UnGetInstruction: returns to the start of the instruction", t.n.entailsEQ(x.pos(t, key)), "", key);
              for (auto& y : in.call(in.find(R + "::HasPendingInstruction"), {t.ghost["rd"]}, t)) { i128 b; x.ob(y.st, "UnGetInstruction: pending instruction withdrawn", constRet(y.st, y.ret, &b) && !(b & 1), "", key); }
            })) (void)z;
            if (!two) continue;
            for (auto& o2 : x.next(t1)) for (auto& t2 : c.act(o2.st, [&](State& t) {
              L p = x.pos(t, key);
              L rv = in.U(t, o2.ret);
              L E = in.S(t, t.ghost["parsed"]);
              i128 ev = 0;
              bool parsed = !(isConst(t.n.norm(E), &ev) && ev == -100);
              bool expl = in.test(t, Constraint::EQ, t.ghost["col3"].e, "size 0");
              x.ob(t, "explicit size read exactly when the table has size 0", parsed == expl, "", key);
              if (parsed != expl) return;
              if (expl && !in.test(t, Constraint::GE, E, "parsed")) {
                x.ob(t, "a bad size is an error, a missing one the end of data", t.n.entailsEQ(addc(rv, ev == -1 ? -4 : -5)), "", key);
                if (ev == -2) {
                  x.ob(t, "position restored when the size is missing", t.n.entailsEQ(lin::sub(p, t.ghost["p1"].e)), "", key);
                  for (auto& y : in.call(in.find(R + "::HasPendingInstruction"), {t.ghost["rd"]}, t)) { i128 b; x.ob(y.st, "second instruction stays pending when its size is missing", constRet(y.st, y.ret, &b) && (b & 1), "", key); }
                }
                return;
              }
              x.ob(t, "second instruction: type from the table", t.n.entailsEQ(lin::sub(rv, t.ghost["col1"].e)), "", key);
              x.ob(t, "second instruction: size from the table or the section", t.n.entailsEQ(lin::sub(x.var(t, "sz", 4, true), expl ? E : t.ghost["col3"].e)), "", key);
              x.ob(t, "second instruction: mode from the table", t.n.entailsEQ(lin::sub(x.var(t, "md", 1, false), t.ghost["col5"].e)), "", key);
              x.ob(t, "second instruction: bytes consumed", t.n.entailsEQ(lin::sub(p, expl ? t.ghost["vend"].e : t.ghost["p1"].e)), "", key);
              auto hp = in.call(in.find(R + "::HasPendingInstruction"), {t.ghost["rd"]}, t);
              for (auto& z : hp) { i128 b; x.ob(z.st, "nothing pending after the second instruction", constRet(z.st, z.ret, &b) && !(b & 1), "", key); }
              t.ghost["p2"] = vptr(t.ghost["buf"].obj, p);
            })) {
              if (t2.ghost.count("p2") == 0) continue;
              for (auto& g : x.sts(c.call(R + "::UnGetInstruction", {t2.ghost["rd"]}, t2))) for (auto& z : c.act(g, [&](State& t) {
                x.ob(t, "UnGetInstruction: returns to the start of the second instruction", t.n.entailsEQ(lin::sub(x.pos(t, key), t.ghost["p1"].e)), "", key);
                for (auto& y : in.call(in.find(R + "::HasPendingInstruction"), {t.ghost["rd"]}, t)) { i128 b; x.ob(y.st, "UnGetInstruction: second instruction pending again", constRet(y.st, y.ret, &b) && (b & 1), "", key); }
              })) (void)z;
            }
          }
        }
        // first instruction NOOP: the second one is read
        {
          State n1 = s3;
          n1.n.assumeGE(addc(n1.ghost["len"].e, -1));
          for (auto& n2 : c.act(n1, [&](State& t) {
            L op = in.U(t, in.loadW(t, t.ghost["buf"], 1, false, true));
            t.ghost["op"] = vint(op, 8);
            for (int col = 0; col < 6; ++col) t.ghost["col" + std::to_string(col)] = vint(ref(t, col, op), 8);
            t.n.assumeEQ(t.ghost["col0"].e);
            t.n.assumeGE(addc(t.ghost["col1"].e, -1));
          })) for (auto& o : x.next(n2)) for (auto& z : c.act(o.st, [&](State& t) {
            c.counts["noop_first_steps"]++;
            L p = x.pos(t, key), rv = in.U(t, o.ret), E = in.S(t, t.ghost["parsed"]);
            i128 ev = 0;
            bool parsed = !(isConst(t.n.norm(E), &ev) && ev == -100);
            bool expl = in.test(t, Constraint::EQ, t.ghost["col3"].e, "size 0");
            x.ob(t, "NOOP then an instruction: explicit size read exactly when the table has size 0", parsed == expl, "", key);
            if (parsed != expl) return;
            auto hp = in.call(in.find(R + "::HasPendingInstruction"), {t.ghost["rd"]}, t);
            for (auto& y : hp) { i128 b; x.ob(y.st, "NOOP then an instruction: nothing pending afterwards", constRet(y.st, y.ret, &b) && !(b & 1), "", key); }
            if (expl && !in.test(t, Constraint::GE, E, "parsed")) {
              x.ob(t, "NOOP then an instruction: a bad size is an error, a missing one the end of data", t.n.entailsEQ(addc(rv, ev == -1 ? -4 : -5)), "", key);
              if (ev == -2) x.ob(t, "NOOP then an instruction: position restored when the size is missing", t.n.entailsEQ(p), "", key);
              return;
            }
            x.ob(t, "NOOP then an instruction: type from the table", t.n.entailsEQ(lin::sub(rv, t.ghost["col1"].e)), "", key);
            x.ob(t, "NOOP then an instruction: size", t.n.entailsEQ(lin::sub(x.var(t, "sz", 4, true), expl ? E : t.ghost["col3"].e)), "", key);
            x.ob(t, "NOOP then an instruction: mode", t.n.entailsEQ(lin::sub(x.var(t, "md", 1, false), t.ghost["col5"].e)), "", key);
            x.ob(t, "NOOP then an instruction: bytes consumed", t.n.entailsEQ(lin::sub(p, expl ? t.ghost["vend"].e : cst(1))), "", key);
          })) (void)z;
        }
        // both NOOP: the opcode is skipped
        {
          State n1 = s3;
          n1.n.assumeGE(addc(n1.ghost["len"].e, -1));
          for (auto& n2 : c.act(n1, [&](State& t) {
            for (int k = 0; k < 2; ++k) {
              if (k == 1 && !in.test(t, Constraint::GE, addc(t.ghost["len"].e, -2), "two")) { t.n.assumeEQ(addc(t.ghost["len"].e, -1)); t.ghost.erase("col0"); break; }
              L op = in.U(t, in.loadW(t, vptr(t.ghost["buf"].obj, cst(k)), 1, false, true));
              t.ghost[k ? "op2" : "op"] = vint(op, 8);
              if (k == 0) { t.ghost["z0"] = vint(ref(t, 0, op), 8); t.ghost["z1"] = vint(ref(t, 1, op), 8); t.n.assumeEQ(t.ghost["z0"].e); t.n.assumeEQ(t.ghost["z1"].e); continue; }
              for (int col = 0; col < 6; ++col) t.ghost["col" + std::to_string(col)] = vint(ref(t, col, op), 8);
              t.n.assumeGE(addc(t.ghost["col0"].e, -1));
              t.n.assumeGE(addc(t.ghost["col2"].e, -1));
            }
          })) {
            if (n2.dead()) continue;
            for (auto& o : x.next(n2)) for (auto& z : c.act(o.st, [&](State& t) {
              c.counts["noop_only_steps"]++;
              if (!t.ghost.count("col0")) { i128 r; x.ob(t, "NOOP only: skipped; then the end of data", constRet(t, o.ret, &r) && r == 5, "", key); return; }
              x.ob(t, "NOOP only: skipped; the next opcode is read", t.n.entailsEQ(lin::sub(in.U(t, o.ret), t.ghost["col0"].e)) && t.n.entailsEQ(addc(x.pos(t, key), -2)) && t.n.entailsEQ(lin::sub(x.var(t, "sz", 4, true), t.ghost["col2"].e)), "", key);
            })) (void)z;
          }
        }
        // any section: safety, end of data
        State s7 = s3;
        for (auto& o : x.next(s7)) for (auto& z : c.act(o.st, [&](State& t) {
          L p = x.pos(t, key);
          x.ob(t, "position stays within the section", t.n.entailsGE(p) && t.n.entailsGE(lin::sub(t.ghost["len"].e, p)), "", key);
          i128 r;
          if (constRet(t, o.ret, &r) && r == 0) x.ob(t, "NOOP is never returned", false, "", key);
        })) (void)z;
        State s8 = s3;
        s8.n.assumeEQ(s8.ghost["len"].e);
        if (!s8.dead()) for (auto& o : x.next(s8)) { i128 r; x.ob(o.st, "an empty section is the end of data", constRet(o.st, o.ret, &r) && r == 5, "", key); }
      }
    }
    if (!stages) throw Broken{"no instruction was read with a custom table"};
  }
  in.extraRoots.clear();
}
