// H01: delta window header.  Oracle: RFC 3284 sections 4.2 and 4.3 plus the checksum extension.
#include "contracts.hpp"
using namespace lin;

static const std::string P = "open_vcdiff::VCDiffHeaderParser";

namespace {
struct HSpec : Spec {
  // every integer parsed, in order: value, width, position before and after
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    const std::string q = in.qname(F);
    int w = q == "open_vcdiff::VarintBE<int>::Parse" ? 32 : q == "open_vcdiff::VarintBE<long>::Parse" ? 64 : 0;
    if (!w) return false;
    Value p0 = in.loadW(s, a[1], 8, true);
    size_t n0 = out.size();
    if (!contractVarintParse(in, s, F, a, out)) return false;
    for (size_t i = n0; i < out.size(); ++i) {
      State& t = out[i].st;
      i128 n = constOf(t.ghost["!nv"].e);
      std::string x = std::to_string((int)n);
      t.ghost["v" + x] = out[i].ret;
      t.ghost["w" + x] = vcst(w, 32);
      t.ghost["p" + x] = p0;
      t.ghost["q" + x] = in.loadW(t, a[1], 8, true, true);
      t.ghost["!nv"] = vcst(n + 1, 32);
    }
    return true;
  }
};
struct HP {
  Ctx& c; Interp& in; Value buf;
  explicit HP(Ctx& x) : c(x), in(x.in) {}
  void ob(State& s, const std::string& rule, bool ok, const std::string& detail = "", const std::string& key = "window header") { in.oblige(s, in.prop, rule, ok, detail, key); }
  int nv(State& s) { return (int)constOf(s.ghost["!nv"].e); }
  L v(State& s, int i) { return in.S(s, s.ghost["v" + std::to_string(i)]); }
  bool isw(State& s, int i, int w) { return constOf(s.ghost["w" + std::to_string(i)].e) == w; }
  L val(State& s, const char* var, int n, bool sg = false) { Value x = in.loadW(s, s.ghost[var], n, false, true); if (x.k != VInt) return lin::cst(-12345); return sg ? in.S(s, x) : in.U(s, x); }
  L pos(State& s) {
    auto r = in.call(in.find(P + "::UnparsedData"), {s.ghost["hp"]}, s);
    if (r.size() != 1) throw Broken{"UnparsedData"};
    Value p = r[0].ret; s = std::move(r[0].st);
    if (p.k != VPtr || p.obj != buf.obj) { ob(s, "position stays in the input", false); throw PathEnd(); }
    return p.e;
  }
  i128 result(State& s) {
    auto r = in.call(in.find(P + "::GetResult"), {s.ghost["hp"]}, s);
    if (r.size() != 1) throw Broken{"GetResult"};
    Value p = r[0].ret; s = std::move(r[0].st);
    i128 c;
    if (!constRet(s, p, &c)) { NeedSplit sp; L e = in.S(s, p); for (int k : {0, -1, -2}) sp.cases.push_back({{Constraint::EQ, addc(e, -k)}}); sp.why = "result"; throw sp; }
    if (c > pow2(31)) c -= pow2(32);
    return c;
  }
  bool flag(State& s, const Value& r) { i128 c; if (!constRet(s, r, &c)) { return in.test(s, Constraint::NE, in.U(s, r), "flag"); } return (c & 1) != 0; }
  // the integer parsed as number i failed: the result must be its code
  bool intFailed(State& s, int i, i128 res, const std::string& what) {
    L x = v(s, i);
    if (in.test(s, Constraint::GE, x, "parsed")) return false;
    i128 c; if (!isConst(s.n.norm(x), &c)) throw Broken{"varint code"};
    ob(s, what + ": a malformed or truncated integer is reported as such", res == c, "code " + i128s(c) + " reported as " + i128s(res));
    return true;
  }
};
}

CHECK(H01) {
  Interp& in = c.in;
  HSpec spec;
  in.spec = &spec;
  in.checkOverflow = true;
  in.Kloop = 8; in.Kret = 500; in.Kblock = 500;
  HP h(c);
  State s0;
  Value len = c.sym(s0, "len", 64, 0, pow2(40));
  Value buf = in.mkInput(s0, "delta window", len.e);
  h.buf = buf;
  s0.ghost["buf"] = buf; s0.ghost["len"] = len;
  Value hp = c.obj(s0, "header parser", typeSize(in, P));
  s0.ghost["hp"] = hp;
  s0.ghost["!nv"] = vcst(0, 32);
  struct { const char* n; int sz; } vars[] = {{"win", 1}, {"seglen", 8}, {"segpos", 8}, {"tlen", 8}, {"dlen", 8}, {"ilen", 8}, {"alen", 8}, {"sum", 8}};
  for (auto& x : vars) { Value o = c.obj(s0, x.n, x.sz); in.store(s0, o, vcst(0, x.sz * 8), x.sz); s0.ghost[x.n] = o; }
  Value dict = c.sym(s0, "dictionary size", 64, 0, pow2(62)), dec = c.sym(s0, "decoded size", 64, 0, pow2(62));
  s0.ghost["dict"] = dict; s0.ghost["dec"] = dec;
  in.extraRoots = {buf};
  std::vector<State> st;
  for (auto& o : c.call(fnArgs(in, P + "::" + "VCDiffHeaderParser", 3), {hp, buf, vptr(buf.obj, len.e)}, s0)) st.push_back(o.st);
  std::vector<State> next;
  auto failDiscipline = [&](State& t, bool ok, i128 res, const std::string& what) {
    h.ob(t, what + ": returns true exactly when the result is success", ok == (res == 0), "returned " + std::to_string(ok) + " with result " + i128s(res));
    L p = h.pos(t);
    h.ob(t, what + ": position stays in the input", t.n.entailsGE(p) && t.n.entailsGE(lin::sub(t.ghost["len"].e, p)), "position " + str(t.n.norm(p)));
    if (!ok) h.ob(t, what + ": failure is END_OF_DATA or ERROR", res == -1 || res == -2);
  };
  // ---- window indicator and source segment, for each setting of the flag that allows VCD_TARGET
  for (int allow = 0; allow < 2; ++allow) for (auto& s : st) for (int have = 0; have < 2; ++have) {
    State s1 = s;
    if (have) s1.n.assumeGE(addc(s1.ghost["len"].e, -1)); else s1.n.assumeEQ(s1.ghost["len"].e);
    s1.ghost["b"] = vcst(0, 8);
    for (auto& s2 : c.act(s1, [&](State& t) { if (have) t.ghost["b"] = vint(in.U(t, in.loadW(t, t.ghost["buf"], 1, false, true)), 8); }))
    for (int byte = 0; byte < (have ? 256 : 1); ++byte) {
      bool src = byte & 1, tgt = byte & 2;
      State s3 = s2;
      if (have) s3.n.assumeEQ(addc(s3.ghost["b"].e, -byte));
      if (s3.dead()) continue;
      for (auto& o : c.call(P + "::ParseWinIndicatorAndSourceSegment", {s3.ghost["hp"], s3.ghost["dict"], s3.ghost["dec"], vcst(allow, 1), s3.ghost["win"], s3.ghost["seglen"], s3.ghost["segpos"]}, s3)) {
        c.counts["indicator_outcomes"]++;
        for (auto& t0 : c.act(o.st, [&](State& t) {
          std::string W = "Win_Indicator";
          bool ok = h.flag(t, o.ret);
          i128 res = h.result(t);
          failDiscipline(t, ok, res, W);
          int n = h.nv(t);
          if (!have) { h.ob(t, W + ": missing byte is END_OF_DATA", res == -2); return; }
          if (ok) h.ob(t, W + ": indicator returned unchanged", t.n.entailsEQ(lin::sub(h.val(t, "win", 1), t.ghost["b"].e)));
          if (src && tgt) { h.ob(t, W + ": source and target flags together are rejected", res == -1); return; }
          if (!src && !tgt) { h.ob(t, W + ": no segment follows without a source flag", ok && n == 0 && t.n.entailsEQ(addc(h.pos(t), -1))); return; }
          if (tgt && !allow) { h.ob(t, W + ": VCD_TARGET is rejected when not allowed", res == -1 && n == 0); return; }
          L from = t.ghost[src ? "dict" : "dec"].e;
          if (n >= 1 && h.intFailed(t, 0, res, W)) return;
          h.ob(t, W + ": segment length is a 32-bit integer after the indicator", n >= 1 && h.isw(t, 0, 32) && t.n.entailsEQ(addc(t.ghost["p0"].e, -1)));
          if (n < 1) return;
          L l = h.v(t, 0);
          if (in.test(t, Constraint::GE, addc(lin::sub(l, from), -1), "len>from")) { h.ob(t, W + ": a segment longer than its source is rejected", res == -1); return; }
          if (n >= 2 && h.intFailed(t, 1, res, W)) return;
          h.ob(t, W + ": segment position is a 32-bit integer after the length", n == 2 && h.isw(t, 1, 32) && t.ghost["p1"].e == t.ghost["q0"].e);
          if (n != 2) return;
          L p = h.v(t, 1);
          bool inside = !in.test(t, Constraint::GE, addc(lin::sub(lin::add(l, p), from), -1), "end>from");
          if (ok) {
            h.ob(t, W + ": accepted segment lies inside its source", inside, "segment end " + str(t.n.norm(lin::add(l, p))) + " source " + str(t.n.norm(from)));
            h.ob(t, W + ": segment length and position are those in the header", t.n.entailsEQ(lin::sub(h.val(t, "seglen", 8), l)) && t.n.entailsEQ(lin::sub(h.val(t, "segpos", 8), p)));
            h.ob(t, W + ": exactly the segment description is consumed", t.n.entailsEQ(lin::sub(h.pos(t), t.ghost["q1"].e)));
            c.counts["segments_accepted"]++;
          } else {
            h.ob(t, W + ": a segment inside its source is accepted", !inside && res == -1, "segment rejected");
          }
        })) {
          // keep one representative per outcome for the next stage
          State t = t0;
          i128 rv;
          if (allow && !tgt && byte < 4 && o.ret.k == VInt && isConst(t.n.norm(o.ret.e), &rv) && (rv & 1)) next.push_back(t);
        }
      }
    }
  }
  if (next.empty()) throw Broken{"no accepted window indicator"};
  auto restart = [&](std::vector<State>& v) {
    // later stages do not depend on the values read before: keep the position only
    for (auto& t : v) { int n = h.nv(t); for (int i = 0; i < n; ++i) for (const char* x : {"v", "w", "p", "q"}) t.ghost.erase(x + std::to_string(i)); t.ghost["!nv"] = vcst(0, 32); }
  };
  restart(next);
  st = std::move(next); next.clear();
  if (st.size() > 3) st.resize(3);
  // ---- window lengths
  std::vector<State> afterLen;
  for (auto& s : st) {
    for (auto& e : c.call(P + "::EndOfDeltaWindow", {s.ghost["hp"]}, s)) h.ob(e.st, "EndOfDeltaWindow: NULL before the lengths are known", e.ret.k == VPtr && e.ret.obj == OBJ_NULL);
    State s1 = s;
    for (auto& s2 : c.act(s1, [&](State& t) { t.ghost["pos0"] = vptr(buf.obj, h.pos(t)); }))
    for (auto& o : c.call(P + "::ParseWindowLengths", {s2.ghost["hp"], s2.ghost["tlen"]}, s2)) {
      c.counts["length_outcomes"]++;
      for (auto& t0 : c.act(o.st, [&](State& t) {
        std::string W = "window lengths";
        bool ok = h.flag(t, o.ret);
        i128 res = h.result(t);
        failDiscipline(t, ok, res, W);
        int n = h.nv(t);
        h.ob(t, W + ": the delta length is a 32-bit integer", n >= 1 && h.isw(t, 0, 32) && t.n.entailsEQ(lin::sub(t.ghost["p0"].e, t.ghost["pos0"].e)));
        if (n < 1 || h.intFailed(t, 0, res, W)) return;
        h.ob(t, W + ": the target length is a 32-bit integer", n == 2 && h.isw(t, 1, 32) && t.ghost["p1"].e == t.ghost["q0"].e);
        if (n != 2 || h.intFailed(t, 1, res, W)) return;
        h.ob(t, W + ": well-formed lengths are accepted", ok);
        if (!ok) return;
        h.ob(t, W + ": target length is the one in the header", t.n.entailsEQ(lin::sub(h.val(t, "tlen", 8), h.v(t, 1))));
        h.ob(t, W + ": exactly the lengths are consumed", t.n.entailsEQ(lin::sub(h.pos(t), t.ghost["q1"].e)));
        auto r = in.call(in.find(P + "::EndOfDeltaWindow"), {t.ghost["hp"]}, t);
        for (auto& e : r) h.ob(e.st, "EndOfDeltaWindow: delta length counted from after the length field", e.ret.k == VPtr && e.ret.obj == buf.obj && e.st.n.entailsEQ(lin::sub(e.ret.e, lin::add(t.ghost["q0"].e, h.v(t, 0)))));
      })) {
        i128 rv;
        if (o.ret.k == VInt && isConst(t0.n.norm(o.ret.e), &rv) && (rv & 1)) afterLen.push_back(t0);
      }
    }
  }
  if (afterLen.empty()) throw Broken{"no accepted window lengths"};
  for (auto& t : afterLen) { t.ghost["D"] = t.ghost["v0"]; t.ghost["start"] = t.ghost["q0"]; }
  restart(afterLen);
  if (afterLen.size() > 3) afterLen.resize(3);
  // ---- delta indicator
  std::vector<State> afterInd;
  for (auto& s : afterLen) for (int have = 0; have < 2; ++have) {
    State s1 = s;
    s1.ghost["b"] = vcst(0, 8);
    for (auto& s2 : c.act(s1, [&](State& t) {
      L p = h.pos(t);
      t.ghost["pos0"] = vptr(buf.obj, p);
      bool room = in.test(t, Constraint::GE, addc(lin::sub(t.ghost["len"].e, p), -1), "room");
      if (room != (have == 1)) throw PathEnd();
      if (have) t.ghost["b"] = vint(in.U(t, in.loadW(t, vptr(buf.obj, p), 1, false, true)), 8);
    })) for (int byte = 0; byte < (have ? 256 : 1); ++byte) {
      int low = byte & 7;
      State s3 = s2;
      if (have) { s3.n.assumeEQ(addc(s3.ghost["b"].e, -byte)); if (s3.dead()) continue; }
      for (auto& o : c.call(P + "::ParseDeltaIndicator", {s3.ghost["hp"]}, s3)) for (auto& t0 : c.act(o.st, [&](State& t) {
        bool ok = h.flag(t, o.ret);
        i128 res = h.result(t);
        failDiscipline(t, ok, res, "Delta_Indicator");
        if (!have) { h.ob(t, "Delta_Indicator: missing byte is END_OF_DATA", res == -2); return; }
        if (low) h.ob(t, "Delta_Indicator: compressed sections are rejected", res == -1, "indicator with low bits " + std::to_string(low));
        else h.ob(t, "Delta_Indicator: uncompressed sections are accepted", ok && t.n.entailsEQ(addc(lin::sub(h.pos(t), t.ghost["pos0"].e), -1)));
      })) { i128 rv; if (o.ret.k == VInt && isConst(t0.n.norm(o.ret.e), &rv) && (rv & 1)) afterInd.push_back(t0); }
    }
  }
  if (afterInd.empty()) throw Broken{"no accepted delta indicator"};
  restart(afterInd);
  if (afterInd.size() > 3) afterInd.resize(3);
  // ---- section lengths
  for (int hasSum = 0; hasSum < 2; ++hasSum) for (auto& s : afterInd) {
    State s1 = s;
    for (auto& s2 : c.act(s1, [&](State& t) { t.ghost["pos0"] = vptr(buf.obj, h.pos(t)); }))
    for (auto& o : c.call(P + "::ParseSectionLengths", {s2.ghost["hp"], vcst(hasSum, 1), s2.ghost["dlen"], s2.ghost["ilen"], s2.ghost["alen"], s2.ghost["sum"]}, s2)) {
      c.counts["section_outcomes"]++;
      for (auto& t0 : c.act(o.st, [&](State& t) {
        std::string W = "section lengths";
        bool ok = h.flag(t, o.ret);
        i128 res = h.result(t);
        failDiscipline(t, ok, res, W);
        int n = h.nv(t), want = 3 + hasSum;
        for (int i = 0; i < want; ++i) {
          h.ob(t, W + ": lengths and checksum follow one another", i < n && h.isw(t, i, i < 3 ? 32 : 64) && (i == 0 ? t.n.entailsEQ(lin::sub(t.ghost["p0"].e, t.ghost["pos0"].e)) : t.n.entailsEQ(lin::sub(t.ghost["p" + std::to_string(i)].e, t.ghost["q" + std::to_string(i - 1)].e))), "integer " + std::to_string(i));
          if (i >= n) return;
          if (h.intFailed(t, i, res, W)) return;
        }
        h.ob(t, W + ": nothing else is read", n == want);
        if (n != want) return;
        if (hasSum && in.test(t, Constraint::GE, addc(h.v(t, 3), -pow2(32)), "sum")) { h.ob(t, W + ": a checksum beyond 32 bits is rejected", res == -1); return; }
        L end = t.ghost["q" + std::to_string(want - 1)].e;
        L total = lin::add(lin::sub(end, t.ghost["start"].e), lin::add(h.v(t, 0), lin::add(h.v(t, 1), h.v(t, 2))));
        L diff = lin::sub(total, in.S(t, t.ghost["D"]));
        if (ok) {
          h.ob(t, W + ": accepted only if header and sections add up to the delta length", t.n.entailsEQ(diff), "difference " + str(t.n.norm(diff)));
          h.ob(t, W + ": lengths are those in the header", t.n.entailsEQ(lin::sub(h.val(t, "dlen", 8), h.v(t, 0))) && t.n.entailsEQ(lin::sub(h.val(t, "ilen", 8), h.v(t, 1))) && t.n.entailsEQ(lin::sub(h.val(t, "alen", 8), h.v(t, 2))));
          if (hasSum) h.ob(t, W + ": checksum is the one in the header", t.n.entailsEQ(lin::sub(h.val(t, "sum", 8), h.v(t, 3))));
          h.ob(t, W + ": exactly the lengths are consumed", t.n.entailsEQ(lin::sub(h.pos(t), end)));
          c.counts["sections_accepted"]++;
        } else if (in.test(t, Constraint::EQ, diff, "adds up")) h.ob(t, W + ": lengths that add up are accepted", false);
        else h.ob(t, W + ": lengths that do not add up are an error", res == -1);
      })) (void)t0;
    }
  }
}
