// D01-D05: decoding of windows by the streaming decoder.  Window headers, opcodes, addresses and integers are
// taken from the contracts decided by H01 (analysed in place), C02, C01 and V01; everything else is analysed.
#include "contracts.hpp"
using namespace lin;

static const std::string NS = "open_vcdiff::";
static const std::string HP = NS + "VCDiffHeaderParser";
static const std::string RD = NS + "VCDiffCodeTableReader";
static const std::string AC = NS + "VCDiffAddressCache";
static const std::string SD = NS + "VCDiffStreamingDecoder";
namespace {
enum { NOOP, ADD, RUN, COPY };
struct PSpec : Spec {
  bool simple = false;        // one ADD that makes up the whole window
  int layout = 0;             // 0 separate sections, 1 interleaved
  int full = 1;               // all of the window's data present
  bool cont = false;          // the call resumes an interleaved window
  int lim = 0;                // 0: within the size limits, 1: window too long, 2: file too long
  std::string key;
  std::string as;             // property that the obligations count for, if not their own
  bool header = false;        // the file header is being analysed (D07)
  bool closed = false;        // the decoder has not been started (D06)
  std::string ctxKey() { return key; }
  void ob(Interp& in, State& s, std::string prop, const std::string& rule, bool ok, const std::string& d) {
    if (simple) return;
    if (!as.empty()) prop = as;
    in.oblige(s, prop, rule, ok, d, key);
    if (!ok && in.only == prop) throw PathEnd();      // what follows a violation is not of interest
  }
  int tag(State& s, const char* k) { auto it = s.ghost.find(k); return it == s.ghost.end() ? 0 : (int)constOf(it->second.e); }
  void set(State& s, const char* k, int v) { s.ghost[k] = vcst(v, 32); }
  L G(State& s, const char* k) { auto it = s.ghost.find(k); if (it == s.ghost.end()) throw Broken{std::string("ghost ") + k}; return it->second.e; }
  void setL(State& s, const char* k, L e) { s.ghost[k] = vint(e, 64); }
  Value P(State& s, const char* k) { return s.ghost[k]; }
  Value plus(const Value& p, L e) { Value v = p; v.e = lin::add(v.e, e); return v; }
  bool eqP(State& s, const Value& a, const Value& b) { return a.k == VPtr && b.k == VPtr && a.obj == b.obj && s.n.entailsEQ(lin::sub(a.e, b.e)); }
  static std::string sv(State& s, const Value& v) { return v.k == VPtr ? "obj" + std::to_string(v.obj) + "+" + str(s.n.norm(v.e)) : v.k == VInt ? str(s.n.norm(v.e)) : "?"; }
  static void put(std::vector<Outcome>& out, State&& t, const Value& v) { Outcome o; o.st = std::move(t); o.ret = v; out.push_back(std::move(o)); }
  Value cursor(Interp& in, State& s) { bool m = in.memObs; in.memObs = false; Value c = in.loadW(s, P(s, "rp"), 8, true, true); in.memObs = m; return c; }

  // data kept from earlier calls: parsing has to start at its beginning
  void resolve(Interp& in, State& s) {
    if (s.ghost.count("stream") || !tag(s, "!kept")) return;
    Interp::Str st = in.strGet(s, P(s, "us"));
    s.ghost["stream"] = st.data; s.ghost["send"] = plus(st.data, st.size);
    // (the indicator byte, which the scenario fixes, is part of the data kept)
    if (tag(s, "!hdr") < 3 && st.data.obj >= 0) in.store(s, st.data, vcst(tag(s, "!indb"), 8), 1, true);
    ob(in, s, "D04", "the data to be parsed is the data kept followed by the new data", s.n.entailsEQ(lin::sub(st.size, lin::add(G(s, "kept"), G(s, "len")))), str(s.n.norm(st.size)));
  }
  // the current instruction has been carried out
  void done(State& s) {
    set(s, "!inst", 0);
    for (auto* k : {"irest", "ca", "imode", "dsrc", "rb"}) s.ghost.erase(k);
  }
  // an instruction must be carried out before the next event
  void settle(Interp& in, State& s) {
    int i = tag(s, "!inst");
    if (i == 0) return;
    ob(in, s, "D02", "an instruction adds exactly its size to the target", false, "left to add " + str(s.n.norm(G(s, "irest"))));
    done(s);
  }
  // true of the specification's own cursors by construction; restated where joins may have dropped it
  void invariant(State& s) {
    auto le = [&](const char* a, const char* b) { if (s.ghost.count(a) && s.ghost.count(b) && P(s, a).k == VPtr && P(s, b).k == VPtr && P(s, a).obj == P(s, b).obj) s.n.assumeGE(lin::sub(P(s, b).e, P(s, a).e)); };
    le("dcur", "dend"); le("acur", "aend"); le("inext", "rend"); le("ibeg", "inext"); le("hpos", "he");
    if (!tag(s, "!big")) s.n.assumeGE(lin::sub(G(s, "tl"), G(s, "wd")));
    if (tag(s, "!hdr") == 3) {
      s.n.assumeGE(lin::sub(cst(pow2(31) - 1), lin::add(G(s, "tl"), G(s, "segl"))));
      if (tag(s, "!ind") & 3) s.n.assumeGE(lin::sub(G(s, (tag(s, "!ind") & 1) ? "D" : "T0"), lin::add(G(s, "segl"), G(s, "segp"))));
    }
  }
  // once the declared length has been decoded: is anything left over?
  void leftOver(Interp& in, State& s) {
    if (simple || !in.test(s, Constraint::EQ, lin::sub(G(s, "tl"), G(s, "wd")), "window complete")) return;
    auto more = [&](const char* a, const char* b) { return P(s, a).obj == P(s, b).obj && in.test(s, Constraint::GE, addc(lin::sub(P(s, b).e, P(s, a).e), -1), "left over"); };
    invariant(s);
    int l = 2;
    if (more("inext", "rend") || in.test(s, Constraint::GE, addc(G(s, "pend"), -1), "left over")) l = 1;
    else if (!tag(s, "!inter") && (more("dcur", "dend") || more("acur", "aend"))) l = 1;
    set(s, "!left", l);
  }
  void atCursor(Interp& in, State& s) {
    Value c = cursor(in, s);
    ob(in, s, "D02", "opcodes are read right after the previous instruction", eqP(s, c, P(s, "inext")), "cursor " + sv(s, c) + " expected " + sv(s, P(s, "inext")));
  }
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    const std::string& q = in.qname(F);
    if (q.compare(0, 21, "open_vcdiff::VarintBE") == 0) {
      Value a1 = a.size() > 1 ? a[1] : Value();
      if (!contractVarintParse(in, s, F, a, out)) return false;
      std::vector<Outcome> r;
      for (auto& o : out) {
        i128 v;
        bool k = constRet(o.st, o.ret, &v);
        if (k && v < 0) {
          if (simple) continue;
          set(o.st, v == -1 ? "!err" : "!hend", 1);
        } else {
          Value c = in.loadW(o.st, a1, 8, true, true);
          if (tag(o.st, "!hdr")) o.st.ghost["hpos"] = c;
        }
        r.push_back(std::move(o));
      }
      out.swap(r);
      if (out.empty()) throw PathEnd();
      return true;
    }
    if (q == NS + "ComputeAdler32" && a.size() == 2) {
      in.extModels.insert("ComputeAdler32 (reads exactly the given range; any value)");
      in.access(s, a[0], in.U(s, a[1]), false, "checksum input");
      settle(in, s);
      invariant(s);
      Value dt = s.ghost["dt"];
      bool ok = s.n.entailsEQ(in.U(s, a[1])) && s.n.entailsEQ(G(s, "tl"));
      if (!ok && dt.k == VPtr && dt.obj >= 0) { Interp::Str st = in.strGet(s, dt); ok = eqP(s, a[0], plus(st.data, G(s, "T0"))) && s.n.entailsEQ(lin::sub(in.U(s, a[1]), G(s, "tl"))); }
      ob(in, s, "D03", "the checksum is computed over exactly the target window", ok && s.n.entailsEQ(lin::sub(G(s, "wd"), G(s, "tl"))), "range " + sv(s, a[0]) + " length " + str(s.n.norm(in.U(s, a[1]))));
      Value v = vint(atom(newAtom("adler", 0, pow2(32) - 1)), 32);
      s.ghost["csum"] = v;
      set(s, "!cs", 1);
      if (tag(s, "!sum")) { State t = s; set(t, "!left", 1); t.n.assumeNE(lin::sub(v.e, G(t, "sum"))); if (!t.dead() && t.n.feasible()) put(out, std::move(t), v); s.n.assumeEQ(lin::sub(v.e, G(s, "sum"))); if (s.dead() || !s.n.feasible()) return true; }
      put(out, std::move(s), v);
      return true;
    }
    if (q == AC + "::Init") { in.extModels.insert("VCDiffAddressCache::Init (contract verified by C01)"); set(s, "!fresh", 1); put(out, std::move(s), vcst(1, 1)); return true; }
    if (q == AC + "::DecodeAddress" && a.size() == 5) return decodeAddress(in, s, a, out);
    if (q == RD + "::Init" && a.size() == 3) {
      in.extModels.insert("VCDiffCodeTableReader (contract verified by C02)");
      s.ghost["rp"] = a[1]; s.ghost["rend"] = a[2];
      setL(s, "pend", cst(0)); setL(s, "lpend", cst(0));
      Value c = cursor(in, s);
      s.ghost["lsp"] = c;
      Value st = P(s, "hpos");
      bool inter = tag(s, "!inter");
      if (!inter) st = plus(st, G(s, "dl"));
      Value en = plus(st, G(s, "il"));
      ob(in, s, "D02", "the instruction section starts where the header says", eqP(s, c, st), sv(s, c) + " expected " + sv(s, st));
      if (inter && !tag(s, "!full")) en = P(s, "he");
      ob(in, s, "D02", "the instruction section ends where the header says, or where the data ends", eqP(s, a[2], en), sv(s, a[2]) + " expected " + sv(s, en));
      s.ghost["inext"] = c; s.ghost["ibeg"] = c;
      if (inter) { s.ghost["dend"] = a[2]; s.ghost["aend"] = a[2]; setL(s, "irem", G(s, "il")); }
      leftOver(in, s);
      put(out, std::move(s), Value());
      return true;
    }
    if (q == RD + "::UpdatePointers" && a.size() == 3) {
      resolve(in, s);
      s.ghost["rp"] = a[1]; s.ghost["rend"] = a[2];
      Value c = cursor(in, s);
      s.ghost["lsp"] = c; s.ghost["inext"] = c; s.ghost["ibeg"] = c;
      setL(s, "lpend", G(s, "pend"));
      ob(in, s, "D04", "decoding is resumed at the first byte not used yet", eqP(s, c, P(s, "stream")), sv(s, c) + " expected " + sv(s, P(s, "stream")));
      Value en = P(s, "send");
      if (tag(s, "!full")) en = plus(P(s, "stream"), G(s, "irem"));
      ob(in, s, "D04", "a resumed window ends where its header said, or where the data ends", eqP(s, a[2], en), sv(s, a[2]) + " expected " + sv(s, en));
      s.ghost["dend"] = a[2]; s.ghost["aend"] = a[2];
      set(s, "!resumed", 1);
      put(out, std::move(s), Value());
      return true;
    }
    if (q == RD + "::HasPendingInstruction" && a.size() == 1) { L p = G(s, "pend"); invariant(s); put(out, std::move(s), vint(p, 1)); return true; }
    if (q == RD + "::UnGetInstruction" && a.size() == 1) {
      in.store(s, P(s, "rp"), P(s, "lsp"), 8);
      s.ghost["inext"] = P(s, "lsp");
      setL(s, "pend", G(s, "lpend"));
      if (tag(s, "!inst")) {
        ob(in, s, "D02", "an instruction is put back only if nothing of it was carried out", tag(s, "!part") == 0, "");
        done(s);
        set(s, "!put", 1);
      }
      put(out, std::move(s), Value());
      return true;
    }
    if (q == RD + "::GetNextInstruction" && a.size() == 3) return getNext(in, s, a, out);
    if (q == HP + "::ParseWinIndicatorAndSourceSegment" && tag(s, "!hdr")) {
      // a further window in the same chunk: same situation as at the start of a chunk
      settle(in, s);
      accepted(in, s);
      Value h = P(s, "hp2");
      ob(in, s, "D04", "the next window is read right after the previous one", eqP(s, h, windowEnd(s)), sv(s, h) + " expected " + sv(s, windowEnd(s)));
      winArgs(in, s, a);
      throw PathEnd();
    }
    return false;
  }
  Value windowEnd(State& s) {
    if (tag(s, "!resumed")) return plus(P(s, "ibeg"), G(s, "irem"));
    return plus(P(s, "hpos"), tag(s, "!inter") ? G(s, "il") : lin::add(lin::add(G(s, "dl"), G(s, "il")), G(s, "al")));
  }
  // end of the window in the current buffer, when resumed
  void winArgs(Interp& in, State& s, std::vector<Value>& a) {
    ob(in, s, "D04", "source segments are checked against the dictionary", s.n.entailsEQ(lin::sub(in.U(s, a[1]), G(s, "D"))), "");
    i128 al;
    bool known = isConst(s.n.norm(in.U(s, a[3])), &al);
    ob(in, s, "D04", "target segments are allowed exactly if configured", known && (al & 1) == tag(s, "!allow"), "");
    if (tag(s, "!allow")) ob(in, s, "D04", "target segments are checked against the data decoded so far", s.n.entailsEQ(lin::sub(in.U(s, a[2]), G(s, "g"))), str(s.n.norm(in.U(s, a[2]))) + " decoded " + str(s.n.norm(G(s, "g"))));
  }
  // facts that must hold when a window counts as complete
  void accepted(Interp& in, State& s) {
    ob(in, s, "D03", "a window is complete only when exactly its declared length was decoded", s.n.entailsEQ(lin::sub(G(s, "wd"), G(s, "tl"))), "decoded " + str(s.n.norm(G(s, "wd"))) + " declared " + str(s.n.norm(G(s, "tl"))));
    ob(in, s, "D03", "a complete window has no instruction left over", s.n.entailsEQ(G(s, "pend")), "second half of an opcode not carried out");
    Value c = P(s, "inext"), e = P(s, "rend");
    ob(in, s, "D03", "a complete window has no instruction bytes left over", eqP(s, c, e), sv(s, c) + " end " + sv(s, e));
    if (!tag(s, "!inter")) {
      ob(in, s, "D03", "a complete window has no data left over", eqP(s, P(s, "dcur"), P(s, "dend")), sv(s, P(s, "dcur")) + " end " + sv(s, P(s, "dend")));
      ob(in, s, "D03", "a complete window has no addresses left over", eqP(s, P(s, "acur"), P(s, "aend")), sv(s, P(s, "acur")) + " end " + sv(s, P(s, "aend")));
    }
    if (tag(s, "!sum")) ob(in, s, "D03", "a window with a checksum is complete only if the checksum of the target equals it", tag(s, "!cs") == 1 && s.n.entailsEQ(lin::sub(in.U(s, P(s, "csum")), G(s, "sum"))), "");
    ob(in, s, "D03", "a window with an error is never complete", !tag(s, "!err") && !tag(s, "!big") && !tag(s, "!short") && !tag(s, "!end"), "");
  }
  bool decodeAddress(Interp& in, State& s, std::vector<Value>& a, std::vector<Outcome>& out) {
    in.extModels.insert("VCDiffAddressCache::DecodeAddress (contract verified by C01)");
    ob(in, s, "D02", "the address cache is reset for each window", tag(s, "!fresh") == 1, "");
    Value p = in.loadW(s, a[3], 8, true);
    ob(in, s, "D02", "an address is decoded for a COPY only, once", tag(s, "!inst") == COPY && !s.ghost.count("ca"), "");
    if (tag(s, "!inst") != COPY || s.ghost.count("ca")) throw PathEnd();
    bool inter = tag(s, "!inter");
    Value want = inter ? P(s, "inext") : P(s, "acur"), end = P(s, "aend");
    ob(in, s, "D02", "the address is read at the position reached in the address section", eqP(s, p, want), sv(s, p) + " expected " + sv(s, want));
    ob(in, s, "D02", "addresses end with their section", eqP(s, a[4], end), sv(s, a[4]) + " expected " + sv(s, end));
    ob(in, s, "D02", "the mode is the one of the instruction", s.n.entailsEQ(lin::sub(in.U(s, a[2]), G(s, "imode"))), "");
    L here = in.S(s, a[1]);
    ob(in, s, "D02", "the current address is source segment length plus bytes decoded", s.n.entailsEQ(lin::sub(here, lin::add(G(s, "segl"), G(s, "wd")))), "here " + str(s.n.norm(here)));
    if (p.k != VPtr || p.obj < 0 || a[4].k != VPtr || a[4].obj != p.obj) throw PathEnd();
    L room = lin::sub(a[4].e, p.e);
    if (!in.test(s, Constraint::GE, addc(room, -1), "address room")) { set(s, "!short", 1); put(out, std::move(s), vcst(-2, 32)); return true; }
    in.access(s, p, room, false, "address input");
    { State t = s; set(t, "!err", 1); put(out, std::move(t), vcst(-1, 32)); }
    { State t = s; set(t, "!short", 1); put(out, std::move(t), vcst(-2, 32)); }
    int k = newAtom("alen", 1, 5);
    s.n.assumeGE(lin::sub(room, atom(k)));
    int ad = newAtom("address", 0, pow2(31) - 1);
    s.n.assumeGE(addc(lin::sub(here, atom(ad)), -1));
    if (s.dead() || !s.n.feasible()) throw PathEnd();
    Value np = plus(p, atom(k));
    in.store(s, a[3], np, 8);
    if (inter) s.ghost["inext"] = np; else s.ghost["acur"] = np;
    setL(s, "ca", atom(ad));
    if (s.n.entailsEQ(G(s, "irest"))) done(s);
    put(out, std::move(s), vint(atom(ad), 32));
    return true;
  }
  bool getNext(Interp& in, State& s, std::vector<Value>& a, std::vector<Outcome>& out) {
    settle(in, s);
    invariant(s);
    atCursor(in, s);
    ob(in, s, "D03", "no instruction is read once the window is complete", s.n.entailsGE(addc(lin::sub(G(s, "tl"), G(s, "wd")), -1)), "decoded " + str(s.n.norm(G(s, "wd"))) + " of " + str(s.n.norm(G(s, "tl"))));
    Value c = cursor(in, s), e = P(s, "rend");
    if (c.k != VPtr || c.obj < 0 || e.obj != c.obj) throw PathEnd();
    L room = lin::sub(e.e, c.e);
    in.oblige(s, "D01", "instruction cursor within its section", s.n.entailsGE(room), "room " + str(s.n.norm(room)), "");
    in.access(s, c, room, false, "instruction input");
    s.ghost["lsp"] = c;
    L pend = G(s, "pend");
    setL(s, "lpend", pend);
    set(s, "!put", 0);
    if (!simple) {
      { State t = s; set(t, "!err", 1); put(out, std::move(t), vcst(4, 32)); }
      // end of data: NOOPs may have been skipped
      { State t = s; int k = newAtom("skipped", 0, pow2(31) - 1); t.n.assumeGE(lin::sub(room, atom(k))); set(t, "!end", 1);
        Value np = plus(c, atom(k)); in.store(t, P(t, "rp"), np, 8); t.ghost["inext"] = np; put(out, std::move(t), vcst(5, 32)); }
    }
    int k = newAtom("ilen", 0, pow2(31) - 1);
    s.n.assumeGE(lin::sub(room, atom(k)));
    if (simple) { s.n.assumeEQ(lin::sub(room, atom(k))); s.n.assumeEQ(pend); }
    s.n.assumeGE(addc(lin::add(atom(k), pend), -1));
    int np = newAtom("pending", 0, 1);
    s.n.assumeGE(addc(lin::sub(mulc(lin::add(atom(np), pend), -1), cst(-1)), 0));   // np + pend <= 1
    if (simple) s.n.assumeEQ(atom(np));
    if (s.dead() || !s.n.feasible()) { if (out.empty()) throw PathEnd(); return true; }
    setL(s, "pend", atom(np));
    Value nc = plus(c, atom(k));
    in.store(s, P(s, "rp"), nc, 8);
    s.ghost["inext"] = nc;
    int sz = newAtom("isize", 0, pow2(31) - 1), md = newAtom("mode", 0, 255);
    in.store(s, a[2], vint(atom(md), 8), 1);
    set(s, "!part", 0);
    L rest = lin::sub(G(s, "tl"), G(s, "wd"));
    if (tag(s, "!inter")) s.ghost["dcur"] = nc;
    for (int i : {ADD, RUN, COPY}) {
      if (simple && i != ADD) continue;
      for (int big = 0; big < 2; ++big) for (int sh = 0; sh < 2; ++sh) for (int zero = 0; zero < 2; ++zero) {
        if (i == COPY && sh) continue;
        if (zero && (big || (i == ADD && sh))) continue;
        if (simple && (big || sh || zero)) continue;
        State t = s;
        L size = zero ? cst(0) : atom(sz);
        in.store(t, a[1], vint(size, 32), 4);
        if (!zero) t.n.assumeGE(addc(size, -1));
        if (simple) t.n.assumeEQ(lin::sub(rest, size));
        if (big) t.n.assumeGE(addc(lin::sub(size, rest), -1)); else t.n.assumeGE(lin::sub(rest, size));
        L need = i == ADD ? size : i == RUN ? cst(1) : cst(0);
        if (i != COPY) {
          L av = lin::sub(P(t, "dend").e, P(t, "dcur").e);
          if (simple) t.n.assumeEQ(lin::sub(av, need));
          if (sh) t.n.assumeGE(addc(lin::sub(need, av), -1)); else t.n.assumeGE(lin::sub(av, need));
        } else setL(t, "imode", atom(md));
        if (t.dead() || !t.n.feasible()) continue;
        set(t, "!inst", i);
        set(t, "!big", big);
        set(t, "!short", sh);
        setL(t, "irest", size);
        t.ghost["dsrc"] = P(t, "dcur");
        if (i == RUN && !sh) { bool m = in.memObs; in.memObs = false; t.ghost["rb"] = in.loadW(t, P(t, "dcur"), 1, false); in.memObs = m; }
        if (i != COPY && !sh) {
          t.ghost["dcur"] = plus(P(t, "dcur"), need);
          if (tag(t, "!inter")) t.ghost["inext"] = plus(P(t, "inext"), need);
        }
        if (zero && i != COPY && !sh) done(t);
        put(out, std::move(t), vcst(i, 32));
      }
    }
    if (out.empty()) throw PathEnd();
    return true;
  }
  void onCall(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a) override {
    const std::string& q = in.qname(F);
    if (q == HP + "::VCDiffHeaderParser" && a.size() == 3) {
      if (closed) { ob(in, s, "D06", "a decoder that has not been started decodes nothing", false, ""); throw PathEnd(); }
      if (header) { headerDone(in, s, a[1], a[2]); throw PathEnd(); }
      if (tag(s, "!hdr")) { s.ghost["hp2"] = a[1]; return; }
      resolve(in, s);
      s.ghost["hp"] = a[1]; s.ghost["he"] = a[2]; s.ghost["hpos"] = a[1];
      if (s.ghost.count("stream")) ob(in, s, "D04", "a window header is read at the first byte not used yet", eqP(s, a[1], P(s, "stream")) && eqP(s, a[2], P(s, "send")), sv(s, a[1]) + " expected " + sv(s, P(s, "stream")));
    } else if (q == HP + "::ParseWinIndicatorAndSourceSegment" && a.size() == 7) {
      winArgs(in, s, a);
      set(s, "!hdr", 1);
      setL(s, "T0", in.U(s, a[2]));
      setL(s, "wd", cst(0));
    }
  }
  // ---- file header (D07): the bytes of the file so far are the ghosts b0, b1, ... (nb of them)
  int defect(State& s) {     // 0 none, 1 certain, 2 not decided
    static const int magic[3] = {0xD6, 0xC3, 0xC4};
    int r = 0, nb = tag(s, "!nb");
    auto is = [&](int i, int v) { L e = addc(G(s, ("b" + std::to_string(i)).c_str()), -v); return s.n.entailsEQ(e) ? 1 : s.n.entailsNE(e) ? 0 : 2; };
    auto need = [&](int k) { if (k == 0) r = 1; else if (k == 2 && r == 0) r = 2; };
    for (int i = 0; i < 3 && i < nb; ++i) need(is(i, magic[i]));
    if (nb > 3) { int z = is(3, 0), S = is(3, 'S'); need(z == 1 || S == 1 ? 1 : z == 0 && S == 0 ? 0 : 2); }
    if (nb > 4) need(!((int)constOf(G(s, "b4")) & 1));
    return r;
  }
  void headerDone(Interp& in, State& s, const Value& pos, const Value& end) {
    ob(in, s, "D07", "windows are read only after a complete and valid file header", tag(s, "!nb") == 5 && defect(s) == 0, "");
    Value want, e;
    if (tag(s, "!kept")) {
      Interp::Str st = in.strGet(s, P(s, "us"));
      want = plus(st.data, cst(5)); e = plus(st.data, st.size);
      ob(in, s, "D07", "the header is taken from the data kept followed by the new data", s.n.entailsEQ(lin::sub(st.size, lin::add(G(s, "kept"), G(s, "len")))), "");
    } else { want = plus(P(s, "buf"), cst(5)); e = plus(P(s, "buf"), G(s, "len")); }
    ob(in, s, "D07", "what follows the file header starts right after its five bytes", eqP(s, pos, want) && eqP(s, end, e), sv(s, pos) + " expected " + sv(s, want));
  }
  void onReturn(Interp& in, State& s, const llvm::Function* F, const std::vector<Value>& a, const Value& ret) override {
    const std::string& q = in.qname(F);
    if (q.compare(0, HP.size() + 2, HP + "::") != 0) return;
    if (!tag(s, "!hdr")) return;
    i128 r;
    if (!constRet(s, ret, &r)) return;
    const std::string m = q.substr(HP.size() + 2);
    auto ld = [&](const Value& p, int n) { bool sm = in.memObs; in.memObs = false; Value v = in.loadW(s, p, n, false, true); in.memObs = sm; return in.U(s, v); };
    if (!(r & 1)) {
      if (m == "ParseByte" && !tag(s, "!err") && !tag(s, "!hend")) set(s, "!hend", 1);
      else if ((m == "ParseWinIndicatorAndSourceSegment" || m == "ParseWindowLengths" || m == "ParseDeltaIndicator" || m == "ParseSectionLengths") && !tag(s, "!hend")) set(s, "!err", 1);
      if (simple) throw PathEnd();
      return;
    }
    if (m == "ParseByte") { if (tag(s, "!hdr") >= 1) s.ghost["hpos"] = plus(P(s, "hpos"), cst(1)); }
    else if (m == "ParseWinIndicatorAndSourceSegment") {
      i128 w;
      if (!isConst(s.n.norm(ld(a[4], 1)), &w)) { if (in.debug > 1) fprintf(stderr, "IND %s\n%s\n", str(s.n.norm(ld(a[4], 1))).c_str(), in.dump(s).c_str()); throw Broken{"window indicator not constant"}; }
      set(s, "!ind", (int)w);
      setL(s, "segl", ld(a[5], 8)); setL(s, "segp", ld(a[6], 8));
      if (!(w & 3)) setL(s, "segp", cst(0));
      else ob(in, s, "D01", "the source segment lies inside its source", s.n.entailsGE(lin::sub(G(s, (w & 1) ? "D" : "T0"), lin::add(G(s, "segl"), G(s, "segp")))), "");
      set(s, "!sum", tag(s, "!version") && (w & 4) ? 1 : 0);
    } else if (m == "ParseWindowLengths") {
      L tl = ld(a[1], 8);
      setL(s, "tl", tl); set(s, "!hdr", 2);
      // addresses of the window are representable (otherwise any rejection is right)
      s.n.assumeGE(lin::sub(cst(pow2(31) - 1), lin::add(tl, G(s, "segl"))));
      L w = lin::sub(G(s, "maxw"), tl), f = lin::sub(G(s, "maxf"), lin::add(G(s, "tot"), tl));
      if (lim == 1) s.n.assumeGE(addc(mulc(w, -1), -1)); else s.n.assumeGE(w);
      if (lim == 2) s.n.assumeGE(addc(mulc(f, -1), -1)); else if (lim == 0) s.n.assumeGE(f);
      if (s.dead() || !s.n.feasible()) throw PathEnd();
    }
    else if (m == "ParseSectionLengths" && a.size() == 6) {
      setL(s, "dl", ld(a[2], 8)); setL(s, "il", ld(a[3], 8)); setL(s, "al", ld(a[4], 8));
      if (tag(s, "!sum")) setL(s, "sum", ld(a[5], 4)); else setL(s, "sum", cst(0));
      i128 hs;
      ob(in, s, "D03", "a checksum is read exactly if the window has one", isConst(s.n.norm(in.U(s, a[1])), &hs) && (hs & 1) == tag(s, "!sum"), "");
      set(s, "!inter", layout);
      L total = lin::add(lin::add(G(s, "dl"), G(s, "il")), G(s, "al"));
      if (layout) { s.n.assumeEQ(G(s, "dl")); s.n.assumeEQ(G(s, "al")); }
      else if (tag(s, "!version")) s.n.assumeGE(addc(lin::add(G(s, "dl"), G(s, "al")), -1));
      L av = lin::sub(P(s, "he").e, P(s, "hpos").e);
      if (full) s.n.assumeGE(lin::sub(av, total)); else s.n.assumeGE(addc(lin::sub(total, av), -1));
      if (simple) s.n.assumeEQ(lin::sub(av, total));
      set(s, "!full", full);
      if (s.dead() || !s.n.feasible()) throw PathEnd();
      set(s, "!hdr", 3);
      Value p = P(s, "hpos");
      if (!layout) {
        s.ghost["dcur"] = p; s.ghost["dend"] = plus(p, G(s, "dl"));
        s.ghost["acur"] = plus(p, lin::add(G(s, "dl"), G(s, "il"))); s.ghost["aend"] = plus(p, total);
      } else { s.ghost["dcur"] = p; s.ghost["acur"] = p; s.ghost["dend"] = p; s.ghost["aend"] = p; }
    }
  }
  void onStrAppend(Interp& in, State& s, const Value& st, L old, const Value& src, L n, bool isFill) override {
    int i = tag(s, "!inst");
    if (!i) {
      if (s.ghost.count("us") && s.ghost["us"].k == VPtr && s.ghost["us"] == st) {
        ob(in, s, "D04", "new data is appended to the data kept", eqP(s, src, P(s, "buf")) && s.n.entailsEQ(lin::sub(n, G(s, "len"))), "");
      } else if (tag(s, "!hdr") == 3) ob(in, s, "D02", "an instruction adds exactly its size to the target", s.n.entailsEQ(n), "more than its size");
      return;
    }
    // bytes added to the target
    if (s.n.entailsEQ(n)) return;
    if (s.ghost["dt"].obj < 0) s.ghost["dt"] = st;
    ob(in, s, "D02", "decoded bytes are appended to the decoded target", s.ghost["dt"] == st && s.n.entailsEQ(lin::sub(old, lin::add(G(s, "T0"), G(s, "wd")))), "size " + str(s.n.norm(old)) + " expected " + str(s.n.norm(lin::add(G(s, "T0"), G(s, "wd")))));
    ob(in, s, "D02", "nothing is decoded of an instruction that does not fit or lacks data", !tag(s, "!big") && !tag(s, "!short"), "");
    Value want;
    bool run = i == RUN;
    if (i != COPY) want = P(s, "dsrc");
    else {
      bool k = s.ghost.count("ca");
      ob(in, s, "D02", "a COPY decodes its address first", k, "");
      if (!k) throw PathEnd();
      L ca = G(s, "ca"), sl = G(s, "segl");
      if (in.test(s, Constraint::GE, addc(lin::sub(sl, ca), -1), "copy source")) {
        want = tag(s, "!ind") & 1 ? P(s, "dict") : in.strGet(s, st).data;
        want = plus(want, lin::add(G(s, "segp"), ca));
        ob(in, s, "D02", "a COPY from the source segment stays inside it", s.n.entailsGE(lin::sub(sl, lin::add(ca, n))), "address " + str(s.n.norm(ca)) + " bytes " + str(s.n.norm(n)));
      } else {
        want = plus(in.strGet(s, st).data, lin::add(G(s, "T0"), lin::sub(ca, sl)));
        ob(in, s, "D02", "a COPY from the target reads only what was decoded before", s.n.entailsGE(lin::sub(G(s, "wd"), lin::add(lin::sub(ca, sl), n))), "address " + str(s.n.norm(lin::sub(ca, sl))) + " bytes " + str(s.n.norm(n)) + " decoded " + str(s.n.norm(G(s, "wd"))));
      }
      setL(s, "ca", lin::add(ca, n));
    }
    bool ok;
    if (!isFill) ok = !run && eqP(s, src, want);
    else {
      ok = false;
      if (run || s.n.entailsEQ(addc(n, -1))) {
        bool m = in.memObs; in.memObs = false;
        Value v = run && s.ghost.count("rb") ? s.ghost["rb"] : in.loadW(s, want, 1, false);
        in.memObs = m;
        ok = v.k == VInt && s.n.entailsEQ(lin::sub(in.U(s, vint(src.e, 8)), in.U(s, v)));
      }
    }
    ob(in, s, "D02", i == ADD ? "ADD appends the next bytes of the data section" : run ? "RUN repeats the next byte of the data section" : "COPY appends the bytes at its address", ok, "source " + (isFill ? str(s.n.norm(src.e)) : sv(s, src)) + " expected " + sv(s, want));
    if (i == ADD) s.ghost["dsrc"] = plus(P(s, "dsrc"), n);
    L left = lin::sub(G(s, "irest"), n);
    setL(s, "irest", left);
    set(s, "!part", 1);
    setL(s, "wd", lin::add(G(s, "wd"), n));
    setL(s, "g", lin::add(G(s, "g"), n));
    ob(in, s, "D05", "the decoded window never exceeds its declared length", s.n.entailsGE(lin::sub(G(s, "tl"), G(s, "wd"))), "");
    ob(in, s, "D05", "no window longer than the maximum window size is decoded", s.n.entailsGE(lin::sub(G(s, "maxw"), G(s, "tl"))), "length " + str(s.n.norm(G(s, "tl"))));
    ob(in, s, "D05", "the decoded file never exceeds the maximum file size", s.n.entailsGE(lin::sub(G(s, "maxf"), lin::add(G(s, "tot"), G(s, "tl")))), "total " + str(s.n.norm(lin::add(G(s, "tot"), G(s, "tl")))));
    if (in.test(s, Constraint::EQ, left, "instruction complete")) { done(s); set(s, "!part", 0); leftOver(in, s); }
  }
  void onStrAssign(Interp&, State& s, const Value& st, const Value& src, L n) override {
    s.ghost["us"] = st; s.ghost["asrc"] = src; setL(s, "kept", n);
  }
  bool extCall(Interp& in, State& s, const std::string&, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out) override {
    if (m == "append") {
      L n = in.U(s, a[2]);
      if (closed) { ob(in, s, "D06", "a decoder that has not been started outputs nothing", s.n.entailsEQ(n), ""); put(out, std::move(s), a[0]); return true; }
      in.access(s, a[1], n, false, "output append");
      Value dt = s.ghost["dt"];
      if (!s.n.entailsEQ(n)) {
        bool ok = dt.k == VPtr && dt.obj >= 0;
        L o = G(s, "o"), g = G(s, "g");
        if (ok) { Interp::Str st = in.strGet(s, dt); ok = eqP(s, a[1], plus(st.data, lin::sub(o, lin::sub(g, st.size)))); }
        ob(in, s, "D04", "output continues where the last output ended", ok, "source " + sv(s, a[1]));
        ob(in, s, "D04", "only decoded bytes are output", s.n.entailsGE(lin::sub(g, lin::add(o, n))), "");
      }
      setL(s, "o", lin::add(G(s, "o"), n));
      put(out, std::move(s), a[0]);
      return true;
    }
    return sinkCall(in, s, m, a, out);
  }
};

struct DW {
  Ctx& c; Interp& in; PSpec spec;
  std::string only;
  DW(Ctx& x, const std::string& p) : c(x), in(x.in), only(p) {}
  // a decoder that is ready to start
  std::vector<State> fresh(int allow, int version, bool start = true) {
    State s;
    Value dec = c.obj(s, "decoder", typeSize(in, SD));
    s.ghost["dec"] = dec;
    s.ghost["dt"] = vnull();
    s.ghost["us"] = vnull();
    spec.set(s, "!allow", allow);
    spec.set(s, "!version", version);
    Value D = c.sym(s, "dictionary size", 64, 0, pow2(31) - 1);
    Value d = in.mkInput(s, "dictionary", D.e);
    s.ghost["D"] = D; s.ghost["dict"] = d;
    Value mw = vint(atom(newAtom("max window", 0, pow2(31) - 1)), 64), mf = vint(atom(newAtom("max file", 0, pow2(64) - 1)), 64);
    s.ghost["maxw"] = mw; s.ghost["maxf"] = mf;
    for (auto* k : {"g", "o", "tot", "kept"}) s.ghost[k] = vcst(0, 64);
    clearWindow(s);
    std::vector<State> v{s};
    auto step = [&](const llvm::Function* F, const std::vector<Value>& a) {
      std::vector<State> r;
      for (auto& t : v) for (auto& o : c.call(F, a, t)) r.push_back(std::move(o.st));
      v.swap(r);
    };
    step(fnArgs(in, SD + "::VCDiffStreamingDecoder", 1), {dec});
    step(fnArgs(in, SD + "::SetMaximumTargetWindowSize", 2), {dec, mw});
    step(fnArgs(in, SD + "::SetMaximumTargetFileSize", 2), {dec, mf});
    step(fnArgs(in, SD + "::SetAllowVcdTarget", 2), {dec, vcst(allow, 1)});
    if (start) step(fnArgs(in, SD + "::StartDecoding", 3), {dec, d, D});
    else for (auto& t : v) t = close(t);
    return v;
  }
  void clearWindow(State& s) {
    for (auto* k : {"!hdr", "!err", "!hend", "!end", "!short", "!big", "!inst", "!cs", "!sum", "!inter", "!ind", "!full", "!fresh", "!resumed", "!put", "!part", "!left", "!kept", "!indb"}) spec.set(s, k, 0);
    for (auto* k : {"wd", "tl", "T0", "segl", "segp", "dl", "il", "al", "sum", "pend", "lpend", "irem"}) s.ghost[k] = vcst(0, 64);
    for (auto* k : {"hp", "he", "hpos", "rp", "rend", "lsp", "inext", "ibeg", "dcur", "dend", "acur", "aend", "stream", "send", "hp2", "csum", "asrc", "irest", "dsrc", "ca", "imode"}) s.ghost.erase(k);
  }
  struct R { State st; bool ok; bool complete; };
  // one DecodeChunk call; first: the chunk starts with the file header; ind: indicator of the window that starts in it (-1: none)
  std::vector<R> chunk(const State& s0, bool first, int ind, const std::string& key) {
    spec.key = key;
    State s = s0;
    Value len = vint(atom(newAtom("len", 0, pow2(30))), 64);
    Value b = in.mkInput(s, "delta", len.e);
    s.ghost["buf"] = b; s.ghost["len"] = len;
    bool cont = spec.cont = spec.tag(s, "!hdr") == 3;      // resuming
    int at = first ? 5 : 0;
    if (first) { int h[5] = {0xD6, 0xC3, 0xC4, spec.tag(s, "!version") ? 'S' : 0, 0}; for (int i = 0; i < 5; ++i) in.mut(s, b.obj)->cells[i] = vcst(h[i], 8); }
    if (ind >= 0) {
      if (spec.tag(s, "!kept")) spec.set(s, "!indb", ind);
      else { in.mut(s, b.obj)->cells[at] = vcst(ind, 8); s.n.assumeGE(addc(len.e, -(at + 1))); }
    }
    // where parsing has to start
    bool kept = spec.tag(s, "!kept");
    if (kept) s.n.assumeGE(addc(spec.G(s, "kept"), -1));
    if (!kept) { s.ghost["stream"] = vptr(b.obj, cst(at)); s.ghost["send"] = vptr(b.obj, len.e); }
    if (cont) {
      spec.set(s, "!full", spec.full);
      L av = lin::add(spec.G(s, "kept"), len.e);
      if (spec.full) s.n.assumeGE(lin::sub(av, spec.G(s, "irem"))); else s.n.assumeGE(addc(lin::sub(spec.G(s, "irem"), av), -1));
      spec.invariant(s);
      if (!spec.tag(s, "!left")) s.n.assumeGE(addc(lin::sub(spec.G(s, "tl"), spec.G(s, "wd")), -1));   // (leftOver says otherwise)
      if (s.dead() || !s.n.feasible()) return {};
    }
    Value os = c.obj(s, "output", 8);
    in.mut(s, os.obj)->ext = "OutputStringInterface";
    s.ghost["os"] = os;
    std::vector<R> res;
    auto r = c.call(fnArgs(in, SD + "::DecodeChunkToInterface", 4), {s.ghost["dec"], b, len, os}, s);
    for (auto& o : r) for (auto& u : c.act(o.st, [&](State& t) { judge(t, o.ret, kept); })) {
      i128 v;
      bool ok = constRet(u, o.ret, &v) && (v & 1);
      res.push_back({u, ok, spec.tag(u, "!complete") == 1});
    }
    return res;
  }
  bool gt(State& t, L a, L b) { return t.n.entailsGE(addc(lin::sub(a, b), -1)); }
  void judge(State& t, const Value& ret, bool wasKept) {
    i128 v;
    auto G = [&](const char* k) { return spec.G(t, k); };
    auto tag = [&](const char* k) { return spec.tag(t, k); };
    bool known = constRet(t, ret, &v);
    spec.ob(in, t, "D03", "DecodeChunk says whether decoding succeeded", known, "");
    spec.set(t, "!complete", 0);
    if (!known) return;
    int hdr = tag("!hdr");
    if (hdr == 3) spec.invariant(t);
    c.counts[v & 1 ? "accepted" : "rejected"]++;
    L limW = hdr >= 2 ? G("tl") : cst(0);
    bool over = hdr >= 2 && spec.lim, under = hdr < 2 || !spec.lim;
    if (!(v & 1)) {
      bool left = tag("!left") == 1;
      bool just = tag("!err") || tag("!big") || ((tag("!end") || tag("!short")) && (!tag("!inter") || tag("!full"))) || over || left;
      spec.ob(in, t, over ? "D05" : "D03", "a delta is rejected only for a defect in it", just, "header " + std::to_string(hdr) + " decoded " + str(t.n.norm(G("wd"))) + " of " + str(t.n.norm(G("tl"))) + (in.debug ? in.dump(t).substr(0, 4000) : ""));
      return;
    }
    spec.ob(in, t, "D03", "a defective window is rejected", !tag("!err") && !tag("!big"), "");
    spec.ob(in, t, "D05", "a window beyond the size limits is rejected", under || hdr < 3, "window length " + str(t.n.norm(limW)));
    // (an interleaved window that ends early may also stay incomplete for ever, in which case FinishDecoding fails)
    if (hdr == 3) spec.ob(in, t, "D03", "instructions that end early or lack data are an error once all data of the window is there", !(tag("!end") || tag("!short")) || tag("!inter"), "");
    if (spec.cont && !tag("!resumed")) {
      // no data at all: nothing happens
      spec.ob(in, t, "D04", "a suspended window is resumed when there is data", t.ghost.count("stream") && t.n.entailsEQ(G("kept")) && t.n.entailsEQ(G("len")) && t.n.entailsEQ(lin::sub(G("o"), G("g"))), "");
      return;
    }
    bool put = tag("!short") || tag("!end");
    if (hdr == 3 && !put) spec.settle(in, t);
    bool separatePartial = hdr == 3 && !tag("!inter") && !tag("!full");
    bool complete = hdr == 3 && !put && !separatePartial;
    if (complete) { spec.accepted(in, t); t.ghost["tot"] = vint(lin::add(G("tot"), G("tl")), 64); }
    spec.set(t, "!complete", complete);
    c.counts[complete ? "complete" : "incomplete"]++;
    spec.ob(in, t, "D04", "everything decoded has been output", t.n.entailsEQ(lin::sub(G("o"), G("g"))), "output " + str(t.n.norm(G("o"))) + " decoded " + str(t.n.norm(G("g"))) + (in.debug > 1 ? in.dump(t) : ""));
    // unused data is kept
    spec.ob(in, t, "D04", "data kept from earlier calls is used", t.ghost.count("stream"), "");
    if (!t.ghost.count("stream")) throw PathEnd();
    Value used;
    if (hdr < 3 || separatePartial) used = t.ghost["stream"];
    else if (tag("!inter")) used = t.ghost["inext"];
    else used = spec.windowEnd(t);
    L rest = lin::sub(t.ghost["send"].e, used.e);
    if (tag("!inter") && hdr == 3) {
      t.ghost["irem"] = vint(lin::sub(G("irem"), lin::sub(used.e, t.ghost["ibeg"].e)), 64);
    }
    spec.ob(in, t, "D04", "exactly the unused data is kept for the next call", t.n.entailsEQ(lin::sub(G("kept"), rest)) && (t.n.entailsEQ(rest) || spec.eqP(t, t.ghost["asrc"], used)), "kept " + str(t.n.norm(G("kept"))) + " unused " + str(t.n.norm(rest)) + (in.debug > 1 ? in.dump(t) : ""));
  }
  // after a chunk that succeeded: is the delta finished?
  void finish(const State& s, bool complete, const std::string& key) {
    spec.key = key;
    State s1 = s;
    for (auto& o : c.call(fnArgs(in, SD + "::FinishDecoding", 1), {s1.ghost["dec"]}, s1)) {
      i128 v;
      bool known = constRet(o.st, o.ret, &v);
      in.oblige(o.st, spec.as.empty() ? "D03" : spec.as, "FinishDecoding succeeds exactly if the last window is complete", known && (v & 1) == (complete ? 1 : 0), complete ? "complete window" : "incomplete window", key);
      c.counts["finishes"]++;
    }
  }
  void forget(State& t) {
    Value b = t.ghost["buf"], us = t.ghost["us"];
    // pointers into the chunk or the data kept are stale from here on
    int kb = -3;
    if (us.k == VPtr && us.obj >= 0) kb = in.strGet(t, us).data.obj;
    std::vector<std::pair<int, i64>> stale;
    for (auto& h : t.heap) if (h.second->alive) for (auto& cl : h.second->cells) if (cl.second.k == VPtr && cl.second.obj >= 0 && (cl.second.obj == b.obj || cl.second.obj == kb) && !(h.first == us.obj && lin::isConst(us.e) && constOf(us.e) == cl.first)) stale.push_back({h.first, cl.first});
    for (auto& x : stale) in.mut(t, x.first)->cells[x.second] = vptr(OBJ_TOP, cst(0));
    if (b.obj >= 0) { auto* m = in.mut(t, b.obj); if (m) { m->alive = false; m->ver = -1; m->cells.clear(); } }
    t.ghost.erase("buf"); t.ghost.erase("os"); t.ghost.erase("len");
    t.ghost["asrc"] = vnull();
  }
  void run() {
    in.spec = &spec;
    in.prop = "D01";
    in.checkOverflow = false;
    in.Kloop = 1; in.Kret = 60; in.Kblock = 60;
    loadExtTable(in, "OutputStringInterface", kOutputStringVtable);
    struct Sc { int version, allow, second, ind, layout, full, lim; };
    std::vector<Sc> sc;
    for (int full = 0; full < 2; ++full) for (int second = 0; second < 2; ++second) for (int version = 1; version >= 0; --version) for (int layout = version; layout >= 0; --layout) for (int allow = 1; allow >= 0; --allow)
      for (int ind : {5, 1, 4, 0, 2, 6}) for (int lim = 0; lim < 3; ++lim) {
        if (!version && ind >= 4) continue;
        if ((ind & 2) && !second) continue;
        if (!allow && !c.thorough && (!second || layout || (ind == 0 && only != "D05") || (ind & 4) || (lim && only != "D05") || !full)) continue;
        if (lim && (layout || (ind & 4) || (ind & 2))) continue;
        if (!lim && only == "D05" && !c.thorough && !full) continue;
        if (lim && (only == "D01" || only == "D02") && !c.thorough) continue;
        sc.push_back({version, allow, second, ind, layout, full, lim});
      }
    parallel(c, sc.size(), [&](size_t i) { scenario(sc[i].version, sc[i].allow, sc[i].second, sc[i].ind, sc[i].layout, sc[i].full, sc[i].lim); });
    c.counts["scenarios"] = sc.size();
    filter();
  }
  // between two calls: a window that is not complete
  void suspend(State& t) {
    forget(t);
    if (spec.tag(t, "!hdr") == 3 && spec.tag(t, "!inter")) {
      for (auto* k : {"!end", "!short", "!put", "!err", "!hend", "!full", "!part", "!complete", "!cs", "!resumed"}) spec.set(t, k, 0);
      for (auto* k : {"hp", "he", "hpos", "rend", "lsp", "inext", "ibeg", "dcur", "dend", "acur", "aend", "stream", "send", "hp2", "asrc", "dl", "al", "il", "csum", "irest", "dsrc", "ca", "imode", "rb", "rp"}) t.ghost.erase(k);
    } else clearWindow(t);
  }
  void resume(std::vector<R>& first, int ind, const std::string& key) {
    MGC m(c);
    m.K = 1; m.Mjoin = 1;
    auto collect = [&](std::vector<R>& rs) {
      std::vector<State> v;
      for (auto& r : rs) if (r.ok && !r.complete && (!spec.layout || spec.tag(r.st, "!hdr") == 3)) for (auto& u : c.act(r.st, [&](State& t) { suspend(t); spec.set(t, "!kept", !in.test(t, Constraint::EQ, spec.G(t, "kept"))); })) v.push_back(u);
      return v;
    };
    auto go = [&](State& s, int full) {
      spec.full = full;
      bool cont = spec.tag(s, "!hdr") == 3;
      return chunk(s, false, cont ? -1 : ind, key + (full ? ", resumed" : ", resumed, still incomplete"));
    };
    std::vector<Op> ops{{"resume", [&](State& s) { auto rs = go(s, 0); return collect(rs); }}};
    m.run(collect(first), ops);
    c.counts["suspended"] += m.set.size();
    for (auto& d : m.set) { auto rs = go(d.st, 1); for (auto& r : rs) if (r.ok) finish(r.st, r.complete, key); }
  }
  void scenario(int version, int allow, int second, int ind, int layout, int full, int lim) {
    std::string base = std::string(version ? "SDCH format" : "standard format") + (allow ? "" : ", target segments not allowed");
    std::string key = base + (second ? ", later window" : ", first window") + ", indicator " + std::to_string(ind) + (layout ? ", interleaved" : "") + (full ? "" : ", incomplete") + (lim == 0 ? "" : lim == 1 ? ", window too long" : ", file too long");
    if (const char* sel = getenv("DSEL")) if (key != sel) return;
    auto starts = fresh(allow, version);
    if (starts.size() != 1) throw Broken{"StartDecoding outcomes"};
    if (second) {       // after an arbitrary first window
      // (any number of earlier windows, each of one ADD: what they leave behind is a fixpoint)
      auto window = [&](State& from, bool first) {
        std::vector<State> later;
        spec.simple = true; spec.layout = 0; spec.full = 1; spec.lim = 0;
        for (auto& r : chunk(from, first, 0, base)) if (r.ok && r.complete) { State t = r.st; forget(t); clearWindow(t); if (in.test(t, Constraint::EQ, t.ghost["kept"].e) && (c.thorough || t.ghost["dt"].obj >= 0)) later.push_back(t); }   // (quick: not after empty windows only)
        spec.simple = false;
        return later;
      };
      MGC m(c);
      m.K = 1; m.Mjoin = 1;
      std::vector<Op> ops{{"window", [&](State& s) { return window(s, false); }}};
      m.run(window(starts[0], true), ops);
      std::vector<State> later;
      for (auto& d : m.set) later.push_back(d.st);
      if (in.debug > 0) fprintf(stderr, "%zu states after earlier windows\n", later.size());
      if (later.empty()) throw Broken{"no state after a first window"};
      starts.swap(later);
    }
    for (auto& s : starts) {
      spec.layout = layout; spec.full = full; spec.lim = lim;
      auto t0 = in.steps;
      struct T { std::string k; int d; time_t t = time(nullptr); ~T() { if (d > 0) fprintf(stderr, "TIME %s %ld\n", k.c_str(), (long)(time(nullptr) - t)); } } tm{key, in.debug};
      auto rs = chunk(s, !second, ind, key);
      if (in.debug > 0) fprintf(stderr, "%s: %zu outcomes, %ld steps\n", key.c_str(), rs.size(), in.steps - t0);
      for (auto& r : rs) if (r.ok) finish(r.st, r.complete, key);
      if (!full && !lim && (c.thorough || (layout >= version && ind == (second ? version ? 6 : 2 : version ? 5 : 1)))) resume(rs, ind, key);
    }
  }
  // ---- D07
  struct H { State st; int k; };
  std::vector<State> fileHeader(const State& s0, int n, bool more, int b4) {
    State s = s0;
    int k = spec.tag(s, "!nb");
    Value len = more ? vint(atom(newAtom("len", n, pow2(30))), 64) : vcst(n, 64);
    Value b = in.mkInput(s, "delta", len.e);
    s.ghost["buf"] = b; s.ghost["len"] = len;
    for (int i = 0; i < n && k + i < 5; ++i) {
      Value v = k + i == 4 ? vcst(b4, 8) : vint(atom(newAtom("header byte", 0, 255)), 8);
      in.mut(s, b.obj)->cells[i] = v;
      s.ghost["b" + std::to_string(k + i)] = vint(v.e, 64);
    }
    int nb = std::min(5, k + n);
    spec.set(s, "!nb", nb);
    spec.set(s, "!kept", k > 0);
    spec.key = std::to_string(k) + " bytes kept, " + std::to_string(n) + (more ? " or more" : "") + " new" + (nb == 5 ? ", indicator " + std::to_string(b4) : "");
    Value os = c.obj(s, "output", 8);
    in.mut(s, os.obj)->ext = "OutputStringInterface";
    std::vector<State> res;
    for (auto& o : c.call(fnArgs(in, SD + "::DecodeChunkToInterface", 4), {s.ghost["dec"], b, len, os}, s)) for (auto& u : c.act(o.st, [&](State& t) {
      i128 v;
      bool known = constRet(t, o.ret, &v);
      int d = spec.defect(t);
      spec.ob(in, t, "D07", "DecodeChunk says whether decoding succeeded", known, "");
      c.counts[v & 1 ? "headers_accepted" : "headers_rejected"]++;
      spec.ob(in, t, "D07", "nothing is output before the first window", t.n.entailsEQ(spec.G(t, "o")), "");
      if (!(v & 1)) {
        if (nb < 5 || !(b4 & ~3)) spec.ob(in, t, "D07", "a file header is rejected only if one of its bytes is wrong", d == 1, "");
        spec.set(t, "!ok", 0);
        return;
      }
      spec.ob(in, t, "D07", "a wrong byte in the file header is an error as soon as it is there", d == 0, "");
      spec.ob(in, t, "D07", "data after a complete file header is read at once", nb < 5 || !more, "");
      spec.ob(in, t, "D07", "an incomplete file header is kept for the next call, nothing else is", t.n.entailsEQ(addc(spec.G(t, "kept"), nb < 5 ? -nb : 0)), str(t.n.norm(spec.G(t, "kept"))));
      if (nb < 5 && nb > 0) {
        Interp::Str st = in.strGet(t, spec.P(t, "us"));
        bool same = t.n.entailsEQ(addc(st.size, -nb));
        for (int i = 0; same && i < nb; ++i) { Value x = in.loadW(t, spec.plus(st.data, cst(i)), 1, false); same = x.k == VInt && t.n.entailsEQ(lin::sub(in.U(t, x), spec.G(t, ("b" + std::to_string(i)).c_str()))); }
        spec.ob(in, t, "D07", "the bytes of the file header are kept as they are", same, "");
      }
      spec.set(t, "!ok", 1);
    })) if (spec.tag(u, "!ok")) {
      State t = u;
      for (auto& f : c.call(fnArgs(in, SD + "::FinishDecoding", 1), {u.ghost["dec"]}, u)) {
        i128 v;
        bool known = constRet(f.st, f.ret, &v);
        bool want = nb == 0 || (nb == 5 && !(b4 & 2));
        if (nb < 5 || !(b4 & ~3)) in.oblige(f.st, "D07", "FinishDecoding succeeds exactly if the file header is complete or there is no data at all", known && (v & 1) == want, "", spec.key);
      }
      if (nb < 5) { for (auto* g : {"buf", "len"}) t.ghost.erase(g); t.ghost["asrc"] = vnull(); res.push_back(t); }
    }
    return res;
  }
  void headers() {
    in.spec = &spec;
    in.prop = "D07";
    in.checkOverflow = false;
    in.Kloop = 1; in.Kret = 60; in.Kblock = 60;
    spec.header = true;
    loadExtTable(in, "OutputStringInterface", kOutputStringVtable);
    auto starts = fresh(1, 0);
    if (starts.size() != 1) throw Broken{"StartDecoding outcomes"};
    // states by the number of header bytes kept; 0..4
    std::map<int, std::vector<State>> at;
    spec.set(starts[0], "!nb", 0);
    at[0] = starts;
    for (int k = 0; k < 5; ++k) {
      for (auto& s : at[k]) for (int n = k ? 1 : 0; k + n < 5; ++n) for (auto& t : fileHeader(s, n, false, 0)) { if (k + n > k) at[k + n].push_back(t); }
      // one state per number of bytes is enough: the bytes are known to be right (but a version may still follow)
      if (at[k + 1].size() > 6) at[k + 1].resize(6);
    }
    std::vector<std::pair<int, int>> work;
    for (int k = 0; k < 5; ++k) for (int b4 = 0; b4 < 256; ++b4) { if (k && b4 > 3 && !c.thorough) continue; work.push_back({k, b4}); }
    parallel(c, work.size(), [&](size_t i) {
      int k = work[i].first, b4 = work[i].second;
      for (auto& s : at[k]) { fileHeader(s, 5 - k, false, b4); fileHeader(s, 6 - k, true, b4); }
    });
    c.counts["header_cases"] = work.size();
    filter();
  }
  // ---- D06: order of calls, reuse
  void stale(State& t, const char* g) {
    Value b = t.ghost[g];
    t.ghost.erase(g);
    if (b.k != VPtr || b.obj < 0) return;
    for (auto& h : t.heap) if (h.second->alive) { std::vector<i64> at; for (auto& cl : h.second->cells) if (cl.second.k == VPtr && cl.second.obj == b.obj) at.push_back(cl.first); for (i64 x : at) in.mut(t, h.first)->cells[x] = vptr(OBJ_TOP, cst(0)); }
    if (auto* m = in.mut(t, b.obj)) { m->alive = false; m->ver = -1; m->cells.clear(); }
  }
  State close(State t) {
    forget(t);
    clearWindow(t);
    stale(t, "dict");
    for (auto* k : {"g", "o", "tot", "kept"}) t.ghost[k] = vcst(0, 64);
    t.ghost["dt"] = vnull(); t.ghost["us"] = vnull();
    for (auto* k : {"D", "asrc", "!version", "!complete", "!nb", "!ok", "rb"}) t.ghost.erase(k);
    for (int i = 0; i < 5; ++i) t.ghost.erase("b" + std::to_string(i));
    return t;
  }
  std::vector<State> finished(const State& s) {
    std::vector<State> v;
    for (auto& o : c.call(fnArgs(in, SD + "::FinishDecoding", 1), {s.ghost.at("dec")}, s)) v.push_back(close(o.st));
    return v;
  }
  // what a decoder may have been used for before
  std::vector<State> lives(const State& open) {
    std::vector<State> end;
    spec.simple = true; spec.as = "-";
    auto over = [&](std::vector<R> rs) { for (auto& r : rs) if (r.ok) { for (auto& f : finished(r.st)) end.push_back(f); } else end.push_back(close(r.st)); };
    { State s = open; spec.set(s, "!version", 0); spec.layout = 0; spec.full = 1; spec.lim = 0;
      auto rs = chunk(s, true, 0, "earlier use");
      for (auto& r : rs) if (r.ok && r.complete) { State t = r.st; forget(t); clearWindow(t); if (in.test(t, Constraint::EQ, t.ghost["kept"].e) && t.ghost["dt"].obj >= 0) over(chunk(t, false, 0, "earlier use")); }
      over(rs); }
    spec.simple = false;
    bool oo = in.memObs; in.memObs = false;
    for (int v = 0; v < 2; ++v) { State s = open; spec.set(s, "!version", v); spec.layout = v; spec.full = 0; spec.lim = 0; over(chunk(s, true, v ? 5 : 1, "earlier use")); }
    { State s = open; spec.set(s, "!version", 0); spec.layout = 0; spec.full = 1; spec.lim = 1; over(chunk(s, true, 0, "earlier use")); }
    in.memObs = oo;
    spec.as = "";
    for (auto& f : finished(open)) end.push_back(f);
    return end;
  }
  void order() {
    in.spec = &spec;
    in.prop = "D06";
    in.checkOverflow = false;
    in.Kloop = 1; in.Kret = 60; in.Kblock = 60;
    loadExtTable(in, "OutputStringInterface", kOutputStringVtable);
    struct Sc { int allow, version, layout, ind, full, lim; };
    std::vector<Sc> sc;
    for (int allow = 1; allow >= 0; --allow) {
      sc.push_back({allow, 1, 1, 5, 0, 0}); sc.push_back({allow, 0, 0, 1, 1, 0}); sc.push_back({allow, 1, 0, 0, 1, 0}); sc.push_back({allow, 0, 0, 1, 0, 0});
      sc.push_back({allow, 1, 1, 5, 1, 0}); sc.push_back({allow, 0, 0, 0, 1, 1}); sc.push_back({allow, 0, 0, 0, 1, 2}); sc.push_back({allow, 1, 0, 5, 1, 0});
    }
    for (int allow = 0; allow < 2; ++allow) histories(allow);
    parallel(c, sc.size(), [&](size_t i) { reuse(sc[i].allow, sc[i].version, sc[i].layout, sc[i].ind, sc[i].full, sc[i].lim); });
    c.counts["scenarios"] = sc.size();
    filter();
  }
  std::vector<State> reopened[2];
  void histories(int allow) {
    MGC closed(c);
    closed.K = 1; closed.Mjoin = 1;
    auto st0 = fresh(allow, 0, false);
    auto start = [&](State& s) {
      State t = s;
      Value D = c.sym(t, "dictionary size", 64, 0, pow2(31) - 1);
      Value d = in.mkInput(t, "dictionary", D.e);
      t.ghost["D"] = D; t.ghost["dict"] = d;
      std::vector<State> v;
      for (auto& o : c.call(fnArgs(in, SD + "::StartDecoding", 3), {t.ghost["dec"], d, D}, t)) v.push_back(o.st);
      return v;
    };
    auto refuse = [&](State& s) {
      std::vector<State> v;
      spec.closed = true; spec.key = "not started";
      State t = s;
      Value len = vint(atom(newAtom("len", 0, pow2(30))), 64);
      Value b = in.mkInput(t, "delta", len.e), os = c.obj(t, "output", 8);
      in.mut(t, os.obj)->ext = "OutputStringInterface";
      t.ghost["buf"] = b; t.ghost["len"] = len; t.ghost["os"] = os;
      for (auto& o : c.call(fnArgs(in, SD + "::DecodeChunkToInterface", 4), {t.ghost["dec"], b, len, os}, t)) {
        i128 r;
        bool known = constRet(o.st, o.ret, &r);
        in.oblige(o.st, "D06", "DecodeChunk fails on a decoder that is not started, was finished or has reported an error", known && !(r & 1), "", "");
        v.push_back(close(o.st));
      }
      t = s;
      for (auto& o : c.call(fnArgs(in, SD + "::FinishDecoding", 1), {t.ghost["dec"]}, t)) {
        i128 r;
        bool known = constRet(o.st, o.ret, &r);
        in.oblige(o.st, "D06", "FinishDecoding fails on a decoder that is not started, was finished or has reported an error", known && !(r & 1), "", "");
        v.push_back(close(o.st));
      }
      spec.closed = false;
      return v;
    };
    auto live = [&](State& s) { std::vector<State> v; for (auto& o : start(s)) for (auto& e : lives(o)) v.push_back(e); return v; };
    closed.run(st0, {{"calls without start", refuse}, {"use", live}});
    c.counts["closed_states"] += closed.set.size();
    MGC opened(c);
    opened.K = 1; opened.Mjoin = 1;
    for (auto& d : closed.set) for (auto& o : start(d.st)) opened.add(o);
    c.counts["open_states"] += opened.set.size();
    for (auto& d : opened.set) reopened[allow].push_back(d.st);
  }
  void reuse(int allow, int version, int layout, int ind, int full, int lim) {
    spec.as = "D06";
    std::string key = std::string("decoder used before, ") + (version ? "SDCH format" : "standard format") + (allow ? "" : ", target segments not allowed") + ", indicator " + std::to_string(ind) + (layout ? ", interleaved" : "") + (full ? "" : ", incomplete") + (lim == 0 ? "" : lim == 1 ? ", window too long" : ", file too long");
    if (const char* sel = getenv("DSEL")) if (key != sel) return;
    for (auto& d : reopened[allow]) {
      State s = d;
      spec.set(s, "!version", version);
      spec.layout = layout; spec.full = full; spec.lim = lim;
      auto rs = chunk(s, true, ind, key);
      for (auto& r : rs) if (r.ok) finish(r.st, r.complete, key);
      if (!full && layout && allow) resume(rs, ind, key);
    }
    spec.as = "";
  }
  void filter() {
    for (auto it = in.obs.begin(); it != in.obs.end();) if (it->first != only) it = in.obs.erase(it); else ++it;
  }
};
}
CHECK(D01) { DW d(c, "D01"); d.run(); }
CHECK(D02) { DW d(c, "D02"); d.run(); }
CHECK(D03) { DW d(c, "D03"); d.run(); }
CHECK(D04) { DW d(c, "D04"); d.run(); }
void oneShotDecoder(Ctx& c);
CHECK(D06) { oneShotDecoder(c); DW d(c, "D06"); d.order(); }
CHECK(D07) { DW d(c, "D07"); d.headers(); }
CHECK(D05) { DW d(c, "D05"); d.run(); }
