// V01: variable-length integers.  Oracle: RFC 3284 section 2, big-endian base 128.
#include "mgc.hpp"
using namespace lin;

static const char* kOS = "open_vcdiff::OutputString<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>";

struct VSpec : Spec {
  Value src; L n = 0; int appends = 0;
  bool extCall(Interp& in, State& s, const std::string&, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out) override {
    auto ret = [&](const Value& v) { Outcome o; o.st = std::move(s); o.ret = v; out.push_back(std::move(o)); return true; };
    if (m == "append") {
      // copy into a recording object
      L n = in.U(s, a[2]);
      in.access(s, a[1], n, false, "output append");
      i128 c;
      if (!isConst(s.n.norm(n), &c)) throw Broken{"append of unknown length"};
      int rec = s.ghost["rec"].obj;
      i128 pos = constOf(s.n.norm(s.ghost["pos"].e));
      bool sv = in.memObs; in.memObs = false;
      in.copyMem(s, vptr(rec, cst(pos)), a[1], n);
      in.memObs = sv;
      s.ghost["pos"] = vcst(pos + c, 64);
      return ret(a[0]);
    }
    if (m == "push_back") {
      int rec = s.ghost["rec"].obj;
      i128 pos = constOf(s.n.norm(s.ghost["pos"].e));
      bool sv = in.memObs; in.memObs = false;
      in.store(s, vptr(rec, cst(pos)), vint(a[1].e, 8), 1);
      in.memObs = sv;
      s.ghost["pos"] = vcst(pos + 1, 64);
      return ret(Value());
    }
    if (m == "ReserveAdditionalBytes") return ret(Value());
    if (m == "size") return ret(vint(s.ghost["pos"].e, 64));
    return false;
  }
};

// the k bytes at p spell v
static void checkBytes(Ctx& c, State& st, Value p, i128 k, L v, const std::string& what) {
  Interp& in = c.in;
  for (auto& s : c.act(st, [&](State& s) {
    L sum = cst(0);
    bool sv = in.memObs; in.memObs = false;
    for (i128 i = 0; i < k; ++i) {
      Value b = in.loadW(s, vptr(p.obj, addc(p.e, i)), 1, false);
      in.oblige(s, in.prop, what + ": every byte is written", b.k == VInt, "byte " + i128s(i) + " of " + i128s(k), what);
      if (b.k != VInt) { in.memObs = sv; return; }
      L u = in.U(s, b);
      bool last = i == k - 1;
      if (!last) in.oblige(s, in.prop, what + ": continuation bit set on all bytes but the last", s.n.entailsGE(addc(u, -128)), "byte " + i128s(i) + " of " + i128s(k) + " = " + str(s.n.norm(u)), what);
      else in.oblige(s, in.prop, what + ": continuation bit clear on the last byte", s.n.entailsGE(lin::sub(cst(127), u)), "byte " + i128s(i) + " of " + i128s(k) + " = " + str(s.n.norm(u)), what);
      if (i == 0 && k > 1) in.oblige(s, in.prop, what + ": shortest form", s.n.entailsGE(addc(u, -129)), "leading byte may be 0x80", what);
      sum = lin::add(mulc(sum, 128), last ? u : addc(u, -128));
    }
    in.memObs = sv;
    in.oblige(s, in.prop, what + ": bytes spell the value", s.n.entailsEQ(lin::sub(sum, v)), "spelled " + str(s.n.norm(sum)) + " instead of " + str(s.n.norm(v)), what);
  })) (void)s;
}

CHECK(V01) {
  Interp& in = c.in;
  VSpec spec;
  in.spec = &spec;
  in.checkOverflow = true;
  loadExtTable(in, "OutputStringInterface", kOS);
  for (int w : {32, 64}) {
    std::string T = w == 32 ? "open_vcdiff::VarintBE<int>" : "open_vcdiff::VarintBE<long>";
    i128 maxv = pow2(w - 1) - 1;
    int maxb = w == 32 ? 5 : 9;
    auto* P = in.find(T + "::Parse");
    // (a) any input of any length: never reads outside [ptr, limit), result and pointer discipline
    {
      in.Kloop = 3; in.Kret = 100;
      State s;
      Value len = c.sym(s, "len", 64, 0, pow2(62));
      Value buf = in.mkInput(s, "input", len.e);
      Value pp = c.obj(s, "ptr variable", 8);
      in.store(s, pp, buf, 8);
      in.extraRoots = {buf, pp, len};
      auto r = c.call(P, {vptr(buf.obj, len.e), pp}, s);
      c.counts["parse_outcomes"] += (long)r.size();
      for (auto& o : r) {
        State& t = o.st;
        if (o.ret.k != VInt) { in.oblige(t, in.prop, "Parse result known", false, "", T); continue; }
        Value np = in.loadW(t, pp, 8, true, true);
        L rv;
        try { rv = in.S(t, o.ret); } catch (NeedSplit&) { in.oblige(t, in.prop, "Parse: result is a code or a non-negative value", false, "result may wrap", T); continue; }
        i128 cv;
        bool neg = isConst(t.n.norm(rv), &cv) && cv < 0;
        in.oblige(t, in.prop, "Parse: result is END_OF_DATA, ERROR or non-negative", neg ? (cv == -1 || cv == -2) : t.n.entailsGE(rv), "result " + str(t.n.norm(rv)), T);
        bool same = np.k == VPtr && np.obj == buf.obj;
        in.oblige(t, in.prop, "Parse: pointer stays in the input", same, "", T);
        if (!same) continue;
        if (neg) in.oblige(t, in.prop, "Parse: pointer unchanged on failure", t.n.entailsEQ(np.e), "pointer moved to " + str(t.n.norm(np.e)), T);
        else {
          in.oblige(t, in.prop, "Parse: pointer advanced within the input on success", t.n.entailsGE(addc(np.e, -1)) && t.n.entailsGE(lin::sub(len.e, np.e)), "pointer " + str(t.n.norm(np.e)), T);
        }
        if (neg && cv == -2) {}
      }
      in.extraRoots.clear();
      // limit == NULL
      State s2;
      Value b2 = in.mkInput(s2, "input", cst(4));
      Value p2 = c.obj(s2, "ptr variable", 8);
      in.store(s2, p2, b2, 8);
      for (auto& o : c.call(P, {vnull(), p2}, s2)) {
        i128 cv;
        in.oblige(o.st, in.prop, "Parse: NULL limit is an error", o.ret.k == VInt && isConst(o.st.n.norm(o.ret.e), &cv) && cv == -1, "", T);
      }
    }
    // (b) exact meaning for every encoding of at most maxb+1 bytes
    in.Kloop = 64; in.Kret = 1000; in.Kblock = 1000;
    for (int k = 1; k <= maxb + 1; ++k) for (int complete = 0; complete < 2; ++complete) {
      State s;
      Value extra = c.sym(s, "extra", 64, 0, pow2(40));
      L len = complete ? addc(extra.e, k) : cst(k);
      Value buf = in.mkInput(s, "input", len);
      Value pp = c.obj(s, "ptr variable", 8);
      in.store(s, pp, buf, 8);
      L value = cst(0);
      std::vector<L> prefix;
      for (int i = 0; i < k; ++i) {
        L b = in.loadW(s, vptr(buf.obj, cst(i)), 1, false, true).e;
        bool last = complete && i == k - 1;
        if (last) s.n.assumeGE(lin::sub(cst(127), b));
        else s.n.assumeGE(addc(b, -128));
        value = lin::add(mulc(value, 128), last ? b : addc(b, -128));
      }
      in.extraRoots = {buf, pp, extra};
      // the bytes are referenced by the oracle
      s.ghost["value"] = vint(value, 0);
      auto r = c.call(P, {vptr(buf.obj, len), pp}, s);
      c.counts["parse_cases"]++;
      bool some = false;
      for (auto& o : r) {
        State& t = o.st;
        L v = t.n.norm(t.ghost["value"].e);
        L rv = in.S(t, o.ret);
        Value np = in.loadW(t, pp, 8, true, true);
        i128 cv;
        std::string kk = T + (complete ? ", complete " : ", incomplete ") + std::to_string(k) + " bytes";
        bool isC = isConst(t.n.norm(rv), &cv);
        if (isC && cv == -1) in.oblige(t, in.prop, "Parse: ERROR only if the value does not fit", t.n.entailsGE(addc(v, -maxv - 1)) || (!complete && t.n.entailsGE(addc(mulc(v, 128), -maxv - 1))), "value " + str(v), kk);
        else if (isC && cv == -2) in.oblige(t, in.prop, "Parse: END_OF_DATA only if the last byte is missing", !complete, "", kk);
        else {
          in.oblige(t, in.prop, "Parse: success only for complete encodings", complete, "result " + str(t.n.norm(rv)), kk);
          if (complete) {
            in.oblige(t, in.prop, "Parse: result is the encoded value", t.n.entailsEQ(lin::sub(rv, v)), "result " + str(t.n.norm(rv)) + ", encoded " + str(v), kk);
            in.oblige(t, in.prop, "Parse: consumes exactly the encoding", np.k == VPtr && np.obj == buf.obj && t.n.entailsEQ(addc(np.e, -k)), "", kk);
            some = true;
          }
        }
      }
      if (complete && !some) in.oblige(s, in.prop, "Parse: small values are accepted", false, "no success outcome", T + ", " + std::to_string(k) + " bytes");
      in.extraRoots.clear();
    }
    // (c) encoders
    for (int mode = 0; mode < 4; ++mode) {
      const char* nm[] = {"Encode", "Length", "AppendToString", "AppendToOutputString"};
      auto* F = in.find(T + "::" + nm[mode]);
      State s;
      Value v = c.sym(s, "v", w, 0, maxv);
      s.ghost["v"] = v;
      Value dst = c.obj(s, "destination", 64);
      s.ghost["rec"] = dst;
      s.ghost["pos"] = vcst(0, 64);
      std::vector<Value> args{v};
      Value str0;
      if (mode == 0) args.push_back(dst);
      if (mode == 2) { str0 = c.obj(s, "string", 32); in.strInit(s, str0, false); args.push_back(str0); s.ghost["str"] = str0; }
      if (mode == 3) { Value o = c.obj(s, "output", 8); in.mut(s, o.obj)->ext = "OutputStringInterface"; args.push_back(o); s.ghost["str"] = o; }
      auto r = c.call(F, args, s);
      c.counts["encode_outcomes"] += (long)r.size();
      std::set<int> ks;
      for (auto& o : r) {
        State& t = o.st;
        L vv = t.ghost["v"].e;
        i128 k = -1;
        std::string what = T + "::" + nm[mode];
        if (mode <= 1) { if (o.ret.k != VInt || !isConst(t.n.norm(o.ret.e), &k)) k = -1; }
        else if (mode == 2) { auto q = in.strGet(t, t.ghost["str"]); if (!isConst(t.n.norm(q.size), &k)) k = -1; }
        else if (!isConst(t.n.norm(t.ghost["pos"].e), &k)) k = -1;
        bool ok = k >= 1 && k <= maxb;
        in.oblige(t, in.prop, "encoding length within bounds", ok, "length " + i128s(k), what);
        if (!ok) continue;
        ks.insert((int)k);
        // length is the number of base-128 digits
        L lo = cst(k == 1 ? 0 : pow2(7 * (int)(k - 1))), hi = cst(pow2(7 * (int)k) - 1);
        in.oblige(t, in.prop, "encoding length is the number of base-128 digits", t.n.entailsGE(lin::sub(vv, lo)) && t.n.entailsGE(lin::sub(hi, vv)), "length " + i128s(k) + " for " + str(t.n.norm(vv)), what);
        if (mode == 0) checkBytes(c, t, dst, k, vv, what);
        if (mode == 2) { auto q = in.strGet(t, t.ghost["str"]); checkBytes(c, t, q.data, k, vv, what); }
        if (mode == 3) checkBytes(c, t, t.ghost["rec"], k, vv, what);
      }
      in.oblige(s, in.prop, "every length is reachable", (int)ks.size() == maxb, "", T + "::" + nm[mode]);
    }
  }
}
