// E02, W01: the VCDIFF code table writer.  Oracle: RFC 3284 sections 4.3, 5.4 and 5.6, generated table.
#include "contracts.hpp"
using namespace lin;

static const std::string Wr = "open_vcdiff::VCDiffCodeTableWriter";
static const std::string IM = "open_vcdiff::VCDiffInstructionMap";
static const std::string AC = "open_vcdiff::VCDiffAddressCache";
namespace {
struct Half { int inst, size, mode; };
struct Entry { Half h[2]; };
enum { NOOP, ADD, RUN, COPY };
std::vector<Entry> rfcTable() {
  std::vector<Entry> t;
  auto one = [&](int i, int s, int m) { t.push_back({{{i, s, m}, {NOOP, 0, 0}}}); };
  one(RUN, 0, 0);
  for (int s = 0; s <= 17; ++s) one(ADD, s, 0);
  for (int m = 0; m <= 8; ++m) { one(COPY, 0, m); for (int s = 4; s <= 18; ++s) one(COPY, s, m); }
  for (int m = 0; m <= 5; ++m) for (int a = 1; a <= 4; ++a) for (int s = 4; s <= 6; ++s) t.push_back({{{ADD, a, 0}, {COPY, s, m}}});
  for (int m = 6; m <= 8; ++m) for (int a = 1; a <= 4; ++a) t.push_back({{{ADD, a, 0}, {COPY, 4, m}}});
  for (int m = 0; m <= 8; ++m) t.push_back({{{COPY, 4, m}, {ADD, 1, 0}}});
  return t;
}
// length of the encoding of v (V01): a function of v
L vlen(Interp& in, State& s, L v, int w) {
  v = s.n.norm(v);
  i128 c;
  if (isConst(v, &c)) { int k = 1; while (c >= 128) { c >>= 7; ++k; } return cst(k); }
  Def d{Def::UF, 0, {v}, w == 32 ? "vlen32" : "vlen64", 0};
  return atom(defAtom(d, "vlen", 1, w == 32 ? 5 : 9));
}
enum { BYTE = 0, VARINT = 1, BYTES = 2 };
struct WSpec : Spec {
  bool log = false;          // record what is appended to strings
  bool busy = false;
  bool looseMap = false;     // instruction map lookups by contract
  static std::string N(const char* k, int i) { return std::string(k) + std::to_string(i); }
  int count(State& s, const char* k) { auto it = s.ghost.find(k); return it == s.ghost.end() ? 0 : (int)constOf(it->second.e); }
  void rec(Interp&, State& s, const Value& str, L off, int kind, const Value& v, L n) {
    int i = count(s, "!nl");
    s.ghost[N("!k", i)] = vcst(kind, 32);
    s.ghost[N("ls", i)] = str; s.ghost[N("lo", i)] = vint(off, 64); s.ghost[N("lv", i)] = v; s.ghost[N("ln", i)] = vint(n, 64);
    s.ghost["!nl"] = vcst(i + 1, 32);
  }
  void sink(State& s, int kind, const Value& v, L n) {
    int i = count(s, "!ns");
    s.ghost[N("!sk", i)] = vcst(kind, 32);
    s.ghost[N("sv", i)] = v; s.ghost[N("sn", i)] = vint(n, 64);
    s.ghost["!ns"] = vcst(i + 1, 32);
    s.ghost["out"] = vint(lin::add(s.ghost["out"].e, n), 64);
  }
  void clearLog(State& s, const char* cnt, std::initializer_list<const char*> ks) { int n = count(s, cnt); for (int i = 0; i < n; ++i) for (auto* k : ks) s.ghost.erase(N(k, i)); s.ghost[cnt] = vcst(0, 32); }
  void clear(State& s) { clearLog(s, "!nl", {"!k", "ls", "lo", "lv", "ln"}); clearLog(s, "!ns", {"!sk", "sv", "sn"}); s.ghost["out"] = vcst(0, 64); }
  void onStrAppend(Interp& in, State& s, const Value& str, L old, const Value& src, L n, bool isFill) override {
    // sections below 2^28 bytes each
    if (!s.n.entailsGE(lin::sub(cst(pow2(28)), lin::add(old, n)))) { s.n.assumeGE(lin::sub(cst(pow2(28)), lin::add(old, n))); if (s.dead() || !s.n.feasible()) throw PathEnd(); }
    if (!log || busy) return;
    rec(in, s, str, old, isFill ? BYTE : BYTES, src, n);
  }
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    auto ret = [&](const Value& v) { Outcome o; o.st = std::move(s); o.ret = v; out.push_back(std::move(o)); return true; };
    const std::string q = in.qname(F);
    int w = q.compare(0, 27, "open_vcdiff::VarintBE<int>:") == 0 ? 32 : q.compare(0, 28, "open_vcdiff::VarintBE<long>:") == 0 ? 64 : 0;
    if (w) {
      std::string m = q.substr(q.rfind("::") + 2);
      if (m != "AppendToString" && m != "AppendToOutputString" && m != "Length") return false;
      in.extModels.insert(q + " (contract verified by V01)");
      L v = in.S(s, a[0]);
      in.oblige(s, in.prop, "only non-negative values are written as integers", s.n.entailsGE(v), "value " + str(s.n.norm(v)));
      if (!s.n.entailsGE(v)) { s.n.assumeGE(v); if (s.dead()) throw PathEnd(); }
      L k = vlen(in, s, v, w);
      if (m == "Length") return ret(vint(k, 32));
      if (m == "AppendToOutputString") { sink(s, VARINT, vint(v, w), k); return ret(Value()); }
      Interp::Str st = in.strGet(s, a[1]);
      if (log) rec(in, s, a[1], st.size, VARINT, vint(v, w), k);
      busy = true;
      int b = in.fresh(s, "encoded integer", k);
      in.mut(s, b)->ver = in.baseVer("varint bytes");
      bool sv = in.memObs; in.memObs = false;
      try { in.strAppend(s, a[1], vptr(b, cst(0)), k, false); } catch (NeedSplit&) { busy = false; in.memObs = sv; throw; }
      in.memObs = sv;
      busy = false;
      return ret(Value());
    }
    if (looseMap && (q == IM + "::VCDiffInstructionMap" || q == IM + "::~VCDiffInstructionMap")) return ret(Value());
    if (looseMap && (q == IM + "::LookupFirstOpcode" || q == IM + "::LookupSecondOpcode")) {
      in.extModels.insert(q + " (contract verified by E02)");
      bool first = a.size() == 4;
      i128 z;
      bool must = first && isConst(s.n.norm(in.U(s, a[2])), &z) && z == 0;
      if (!must) { Outcome o; o.st = s; o.ret = vcst(0x100, 16); out.push_back(std::move(o)); }
      return ret(vint(atom(newAtom("opcode", 0, 255)), 16));
    }
    if (q == AC + "::EncodeAddress" && a.size() == 4) {
      in.extModels.insert("VCDiffAddressCache::EncodeAddress (contract verified by C01)");
      in.oblige(s, in.prop, "the address cache is reset between windows", constOf(s.ghost["!stale"].e) == 0, "addresses of a new window encoded with the old cache");
      s.ghost["!dirty"] = vcst(1, 8);
      s.ghost["eaddr"] = vint(in.S(s, a[1]), 32); s.ghost["ehere"] = vint(in.S(s, a[2]), 32);
      auto it = s.ghost.find("!mode");
      int lo = 0, hi = 8;
      if (it != s.ghost.end()) lo = hi = (int)constOf(it->second.e);
      Value enc = vint(atom(newAtom("encoded address", 0, lo >= 6 ? 255 : pow2(31) - 1)), 32);
      s.ghost["enc"] = enc;
      in.store(s, a[3], enc, 4);
      if (lo == hi) return ret(vcst(lo, 8));
      // near/self/here or same
      { Outcome o; o.st = s; o.ret = vint(atom(newAtom("mode", 0, 5)), 8); out.push_back(std::move(o)); }
      Value e2 = vint(atom(newAtom("encoded address", 0, 255)), 32);
      s.ghost["enc"] = e2;
      in.store(s, a[3], e2, 4);
      return ret(vint(atom(newAtom("mode", 6, 8)), 8));
    }
    return false;
  }
  // known bytes and integers assembled in a local string are recorded one by one
  void flatten(Interp& in, State& s, const Value& p, L n) {
    i128 k;
    if (p.k == VPtr && p.obj >= 0) {
      for (auto* g : {"si", "sd", "sa"}) { auto it = s.ghost.find(g); if (it != s.ghost.end() && it->second.k == VPtr && in.strGet(s, it->second).data.obj == p.obj) { sink(s, BYTES, p, n); return; } }
      int c = count(s, "!nl");
      std::vector<int> mine;
      L tot = cst(0);
      for (int i = 0; i < c; ++i) {
        Value str = s.ghost[N("ls", i)];
        if (str.k != VPtr || str.obj < 0 || !s.heap.count(str.obj) || !s.heap[str.obj]->alive) continue;
        if (in.strGet(s, str).data.obj != p.obj) continue;
        mine.push_back(i);
        tot = lin::add(tot, s.ghost[N("ln", i)].e);
      }
      if (!mine.empty() && s.n.entailsEQ(p.e) && s.n.entailsEQ(lin::sub(tot, n))) {
        for (int i : mine) {
          int kd = (int)constOf(s.ghost[N("!k", i)].e);
          if (kd == BYTES) flatten(in, s, s.ghost[N("lv", i)], s.ghost[N("ln", i)].e);
          else sink(s, kd, s.ghost[N("lv", i)], s.ghost[N("ln", i)].e);
        }
        return;
      }
      if (isConst(s.n.norm(n), &k) && k <= 8) {
        std::vector<L> b;
        bool sv = in.memObs; in.memObs = false;
        for (i128 i = 0; i < k; ++i) { Value x = in.loadW(s, vptr(p.obj, addc(p.e, i)), 1, false); if (x.k == VInt) b.push_back(in.U(s, x)); }
        in.memObs = sv;
        if ((i128)b.size() == k) { for (L x : b) sink(s, BYTE, vint(x, 8), cst(1)); return; }
      }
    }
    sink(s, BYTES, p, n);
  }
  void onCall(Interp& in, State& s, const llvm::Function* F, std::vector<Value>&) override {
    if (in.qname(F) == AC + "::Init") { s.ghost["!dirty"] = vcst(0, 8); s.ghost["!stale"] = vcst(0, 8); }
  }
  bool extCall(Interp& in, State& s, const std::string&, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out) override {
    auto ret = [&](const Value& v) { Outcome o; o.st = std::move(s); o.ret = v; out.push_back(std::move(o)); return true; };
    if (m == "append") {
      L n = in.U(s, a[2]);
      in.access(s, a[1], n, false, "output append");
      flatten(in, s, a[1], n);
      return ret(a[0]);
    }
    if (m == "push_back") { sink(s, BYTE, vint(in.U(s, vint(a[1].e, 8)), 8), cst(1)); return ret(Value()); }
    if (m == "ReserveAdditionalBytes" || m == "clear") return ret(Value());
    if (m == "size") return ret(vint(lin::add(s.ghost["before"].e, s.ghost["out"].e), 64));
    return false;
  }
};
struct WP {
  Ctx& c; Interp& in; WSpec& spec;
  std::vector<Entry> tab = rfcTable();
  WP(Ctx& x, WSpec& sp) : c(x), in(x.in), spec(sp) {}
  void ob(State& s, const std::string& rule, bool ok, const std::string& d, const std::string& key) { in.oblige(s, in.prop, rule, ok, d, key); }
  // a writer ready for use, dictionary size and data arbitrary
  const llvm::GlobalVariable* defTable() {
    for (auto& g : in.M->globals()) if (g.getName() == "_ZN11open_vcdiff19VCDiffCodeTableData21kDefaultCodeTableDataE") return &g;
    throw Broken{"default code table"};
  }
  std::vector<State> base(int interleaved, const std::map<int, Entry>* custom = nullptr) {
    State s;
    Value D = c.sym(s, "dictionary size", 64, 0, pow2(29));
    s.ghost["D"] = D;
    s.ghost["tl"] = vcst(0, 64);
    s.ghost["before"] = c.sym(s, "output size before", 64, 0, pow2(60));
    Value w = c.obj(s, "writer", typeSize(in, Wr));
    s.ghost["w"] = w;
    Value os = c.obj(s, "output", 8);
    in.mut(s, os.obj)->ext = "OutputStringInterface";
    s.ghost["os"] = os;
    s.ghost["eaddr"] = vcst(-5, 32); s.ghost["ehere"] = vcst(-5, 32); s.ghost["enc"] = vcst(0, 32);
    s.ghost["!dirty"] = vcst(0, 8); s.ghost["!stale"] = vcst(0, 8);
    spec.clear(s);
    std::vector<State> r;
    std::vector<Outcome> made;
    if (!custom) made = c.call(fnArgs(in, Wr + "::VCDiffCodeTableWriter", 2), {w, vcst(interleaved, 1)}, s);
    else {
      Value tb = c.obj(s, "code table", typeSize(in, "open_vcdiff::VCDiffCodeTableData"));
      in.mut(s, tb.obj)->gv = defTable();
      for (auto& e : *custom) for (int h = 0; h < 2; ++h) {
        const Half& x = e.second.h[h];
        int v[3] = {x.inst, x.size, x.mode};
        for (int k = 0; k < 3; ++k) in.store(s, vptr(tb.obj, cst((2 * k + h) * 256 + e.first)), vcst(v[k], 8), 1);
      }
      s.ghost["tb"] = tb;
      made = c.call(fnArgs(in, Wr + "::VCDiffCodeTableWriter", 6), {w, vcst(interleaved, 1), vcst(4, 8), vcst(3, 8), tb, vcst(8, 8)}, s);
    }
    for (auto& o : made)
      for (auto& p : c.call(fnArgs(in, Wr + "::Init", 2), {o.st.ghost["w"], o.st.ghost["D"]}, o.st)) {
        i128 v;
        ob(p.st, "Init succeeds", constRet(p.st, p.ret, &v) && (v & 1), "", "writer");
        r.push_back(p.st);
      }
    return r;
  }
  static const int kAny = -1000000;   // any size
  struct Ins { int inst; int size; int mode; };   // size < 0: any size from -size on
  std::vector<Outcome> emit(State s, const Ins& x, Value* size, Value* arg) {
    Value n = x.size >= 0 ? vcst(x.size, 64) : vint(atom(newAtom("size", x.size == kAny ? 0 : -x.size, pow2(27))), 64);
    *size = n;
    s.ghost["n"] = n;
    s.ghost["tl0"] = s.ghost["tl"];
    if (x.inst == ADD) {
      Value d = in.mkInput(s, "data", n.e);
      *arg = d;
      s.ghost["d"] = d;
      in.extraRoots = {d};
      s.ghost["tl"] = vint(lin::add(s.ghost["tl"].e, n.e), 64);
      return c.call(fnArgs(in, Wr + "::Add", 3), {s.ghost["w"], d, n}, s);
    }
    if (x.inst == RUN) {
      Value b = vint(atom(newAtom("byte", 0, 255)), 8);
      *arg = b;
      s.ghost["d"] = b;
      s.ghost["tl"] = vint(lin::add(s.ghost["tl"].e, n.e), 64);
      return c.call(fnArgs(in, Wr + "::Run", 3), {s.ghost["w"], n, b}, s);
    }
    Value a = vint(atom(newAtom("address", 0, pow2(30))), 32);
    *arg = a;
    s.ghost["d"] = a;
    if (x.mode >= 0) s.ghost["!mode"] = vcst(x.mode, 32); else s.ghost.erase("!mode");
    s.ghost["tl"] = vint(lin::add(s.ghost["tl"].e, n.e), 64);
    return c.call(fnArgs(in, Wr + "::Copy", 3), {s.ghost["w"], a, n}, s);
  }
};
}

CHECK(E02) {
  Interp& in = c.in;
  WSpec spec;
  in.spec = &spec;
  in.checkOverflow = true;
  in.strUnbounded = true;
  in.Kloop = 3000; in.Kret = 3000; in.Kblock = 3000;
  loadExtTable(in, "OutputStringInterface", kOutputStringVtable);
  WP x(c, spec);
  auto name = [](const WP::Ins& i) { return std::string(i.inst == ADD ? "ADD" : i.inst == RUN ? "RUN" : "COPY") + " " + (i.size < 0 ? ">=" + std::to_string(-i.size) : std::to_string(i.size)) + (i.inst == COPY ? " mode " + std::to_string(i.mode) : ""); };
  // the items recorded in t are the encoding of instruction i with the pending opcode p (at sp+po), or -1; returns the new pending opcode
  auto check = [&](State& t, const WP::Ins& i, int p, const std::string& key, int inter, int* np, Value* ns, L* no) {
    int n = spec.count(t, "!nl"), at = 0;
    auto kind = [&](int k) { return (int)constOf(t.ghost[WSpec::N("!k", k)].e); };
    auto byteAt = [&](const Value& str, L off, int* b) {
      Interp::Str st = in.strGet(t, str);
      if (st.data.obj < 0) return false;
      Value v = st.data; v.e = lin::add(v.e, off);
      bool sv = in.memObs; in.memObs = false;
      Value x = in.loadW(t, v, 1, false);
      in.memObs = sv;
      i128 c;
      if (x.k != VInt || !isConst(t.n.norm(in.U(t, x)), &c)) return false;
      *b = (int)c;
      return true;
    };
    int b = -1;
    *np = -1;
    t.ghost["!merged"] = vcst(-1, 32);
    bool merged = false;
    Half h{};
    if (p >= 0) {
      bool k = byteAt(t.ghost["ps"], t.ghost["po"].e, &b);
      x.ob(t, "the previous opcode is still known", k, "opcode byte at " + str(t.ghost["po"].e) + " lost", key);
      if (!k) return;
      merged = b != p;
    }
    Value S = p >= 0 ? t.ghost["ps"] : Value();
    if (merged) {
      bool first = false;
      for (int q = 0; q < 2; ++q) if (x.tab[p].h[1 - q].inst == NOOP && memcmp(&x.tab[b].h[0], &x.tab[p].h[q], sizeof(Half)) == 0) first = true;
      x.ob(t, "a combined opcode keeps the first instruction", first, "opcode " + std::to_string(p) + " replaced by " + std::to_string(b), key);
      h = x.tab[b].h[1];
      t.ghost["!merged"] = vcst(b, 32);
      c.counts["combined"]++;
    } else {
      bool k = n > 0 && kind(0) == BYTE;
      int y = -1;
      if (k) { S = t.ghost["ls0"]; k = byteAt(S, t.ghost["lo0"].e, &y); }
      x.ob(t, "an opcode is written", k, "", key);
      if (!k) return;
      const Entry& e = x.tab[y];
      x.ob(t, "an opcode written for one instruction stands for one instruction", e.h[0].inst == NOOP || e.h[1].inst == NOOP, "opcode " + std::to_string(y), key);
      h = e.h[0].inst == NOOP ? e.h[1] : e.h[0];
      *np = y; *ns = S; *no = t.ghost["lo0"].e;
      at = 1;
    }
    L size = t.ghost["n"].e;
    x.ob(t, "the opcode has the type and mode of the instruction", h.inst == i.inst && (i.inst != COPY || h.mode == i.mode), "type " + std::to_string(h.inst) + " mode " + std::to_string(h.mode), key);
    if (h.size) x.ob(t, "the opcode has the size of the instruction", t.n.entailsEQ(addc(size, -h.size)), "size " + std::to_string(h.size), key);
    else {
      bool k = at < n && kind(at) == VARINT && t.ghost[WSpec::N("ls", at)] == S && t.n.entailsEQ(lin::sub(t.ghost[WSpec::N("lv", at)].e, size));
      x.ob(t, "an explicit size follows an opcode without size", k, "", key);
      if (!k) return;
      at++;
    }
    bool one = n == at + 1;
    x.ob(t, "the argument of the instruction is written once, after the opcode and size", one, std::to_string(n - at) + " items", key);
    if (!one) return;
    Value A = t.ghost[WSpec::N("ls", at)], v = t.ghost[WSpec::N("lv", at)];
    L ln = t.ghost[WSpec::N("ln", at)].e;
    x.ob(t, inter ? "interleaved: the argument goes to the instruction section" : "the argument goes to a section of its own", (A == S) == (inter == 1), "", key);
    if (p >= 0 || true) { t.ghost[i.inst == COPY ? "sa" : "sd"] = A; t.ghost["si"] = S; }
    if (i.inst == ADD) x.ob(t, "ADD: exactly the given data is written", kind(at) == BYTES && v.k == VPtr && v.obj == t.ghost["d"].obj && t.n.entailsEQ(v.e) && t.n.entailsEQ(lin::sub(ln, size)), "", key);
    else if (i.inst == RUN) x.ob(t, "RUN: the byte is written once", kind(at) == BYTE && t.n.entailsEQ(lin::sub(in.U(t, v), in.U(t, t.ghost["d"]))) && t.n.entailsEQ(addc(ln, -1)), "", key);
    else {
      x.ob(t, "COPY: the address is encoded relative to the current position", t.n.entailsEQ(lin::sub(t.ghost["eaddr"].e, t.ghost["d"].e)) && t.n.entailsEQ(lin::sub(t.ghost["ehere"].e, lin::add(t.ghost["D"].e, t.ghost["tl0"].e))), "address " + str(t.n.norm(t.ghost["eaddr"].e)) + " here " + str(t.n.norm(t.ghost["ehere"].e)), key);
      x.ob(t, "COPY: the encoded address is written as the mode requires", (i.mode >= 6 ? kind(at) == BYTE && t.n.entailsEQ(addc(ln, -1)) : kind(at) == VARINT) && t.n.entailsEQ(lin::sub(v.e, t.ghost["enc"].e)), "", key);
    }
  };
  std::vector<WP::Ins> singles, nexts;
  for (int s = 0; s <= 17; ++s) singles.push_back({ADD, s ? s : -20, 0});
  singles.push_back({RUN, -20, 0});
  for (int m = 0; m <= 8; ++m) { singles.push_back({COPY, -20, m}); for (int s = 4; s <= 18; ++s) singles.push_back({COPY, s, m}); }
  for (int s = 0; s <= 19; ++s) { nexts.push_back({ADD, s, 0}); for (int m = 0; m <= 8; ++m) nexts.push_back({COPY, s, m}); }
  for (int m = 0; m <= 8; ++m) { nexts.push_back({COPY, -20, m}); nexts.push_back({COPY, 255, m}); nexts.push_back({COPY, 256, m}); nexts.push_back({COPY, 256 + 4, m}); }
  nexts.push_back({ADD, -20, 0}); nexts.push_back({ADD, 256 + 1, 0}); for (int k = 0; k < 20; ++k) nexts.push_back({RUN, k, 0}); nexts.push_back({RUN, -20, 0});
  auto runAll = [&](int inter, const std::map<int, Entry>* custom, const std::vector<WP::Ins>& firsts, const std::vector<WP::Ins>& seconds, const std::string& tag) {
    std::vector<State> st;
    const int big = custom ? -300 : -20;
    for (auto& s : x.base(inter, custom)) {
      // anything may have been written before
      State t = s;
      Value n, a;
      for (auto& o : x.emit(t, {ADD, -400, 0}, &n, &a)) for (auto& o2 : x.emit(o.st, {COPY, -300, 7}, &n, &a)) st.push_back(o2.st);
    }
    std::string pre = tag + (inter ? "interleaved: " : "");
    spec.log = true;
    for (auto& s0 : st) {
      spec.clear(s0);
      for (auto& i : firsts) {
        if (in.debug) fprintf(stderr, "%s %zu\n", name(i).c_str(), st.size());
        std::vector<State> pend;
        Value n, a;
        for (auto& o : x.emit(s0, i, &n, &a)) {
          int np; Value ns; L no = 0;
          for (auto& u : c.act(o.st, [&](State& u) {
            check(u, i, -1, pre + name(i), inter, &np, &ns, &no);
            if (np >= 0) { u.ghost["ps"] = ns; u.ghost["po"] = vint(no, 64); u.ghost["pend"] = vcst(np, 32); }
          })) if (np >= 0) { State v = u; spec.clear(v); pend.push_back(v); }
        }
        c.counts["first_instructions"]++;
        for (auto& q : pend) {
          int pv = (int)constOf(q.ghost["pend"].e);
          for (auto& j : seconds) {
            // outside the thorough run: all sizes that combined opcodes may have and their neighbours, a sample of the others
            if (!custom && !c.thorough && ((j.size > 7 && j.size < 18 && j.size != 12) || (j.inst == RUN && j.size > 2) || (inter && i.size > 5))) continue;
            std::string key = pre + name(i) + ", then " + name(j);
            for (auto& o : x.emit(q, j, &n, &a)) {
              c.counts["pairs"]++;
              for (auto& u : c.act(o.st, [&](State& u) { int np; Value ns; L no = 0; check(u, j, pv, key, inter, &np, &ns, &no); })) {
                State v = u;
                int mg = (int)constOf(v.ghost["!merged"].e);
                if (mg < 0) continue;
                // a combined opcode is final
                spec.clear(v);
                for (auto& k : std::vector<WP::Ins>{{ADD, 1, 0}, {ADD, big, 0}, {COPY, 4, 0}, {COPY, 4, 6}, {RUN, big, 0}})
                  for (auto& o3 : x.emit(v, k, &n, &a)) for (auto& w : c.act(o3.st, [&](State& w) { int np; Value ns; L no = 0; check(w, k, mg, key + ", then " + name(k), inter, &np, &ns, &no); })) { (void)w; c.counts["triples"]++; }
              }
            }
          }
        }
      }
    }
    spec.log = false;
  };
  for (int inter = 0; inter < 2; ++inter) runAll(inter, nullptr, singles, nexts, "");
  // custom tables: opcodes with explicit sizes in both halves, with the instruction in the second half only, with large sizes
  std::map<int, Entry> custom = {
    {255, {{{NOOP, 0, 0}, {ADD, 24, 0}}}}, {254, {{{ADD, 0, 0}, {COPY, 0, 3}}}}, {253, {{{COPY, 0, 0}, {RUN, 0, 0}}}},
    {252, {{{RUN, 0, 0}, {ADD, 0, 0}}}}, {251, {{{COPY, 30, 2}, {NOOP, 0, 0}}}}, {250, {{{COPY, 30, 2}, {COPY, 28, 8}}}}, {249, {{{ADD, 17, 0}, {ADD, 24, 0}}}}};
  for (auto& e : custom) x.tab[e.first] = e.second;
  std::vector<WP::Ins> f2 = {{ADD, 1, 0}, {ADD, 17, 0}, {ADD, 24, 0}, {ADD, -300, 0}, {RUN, 1, 0}, {RUN, -300, 0}, {COPY, 4, 0}, {COPY, -300, 0}, {COPY, 30, 2}, {COPY, 30, 3}}, s2 = f2;
  for (auto& j : std::vector<WP::Ins>{{ADD, 256, 0}, {COPY, 256, 3}, {RUN, 256, 0}, {COPY, 0, 3}, {COPY, 28, 8}, {COPY, 28, 7}, {COPY, -300, 3}, {COPY, 4, 3}, {COPY, 256 + 30, 2}, {ADD, 256 + 24, 0}}) s2.push_back(j);
  for (int inter = 0; inter < 2; ++inter) runAll(inter, &custom, f2, s2, "custom table, ");
}

CHECK(W01) {
  Interp& in = c.in;
  WSpec spec;
  in.spec = &spec;
  in.checkOverflow = true;
  in.strUnbounded = true;
  in.Kloop = 3000; in.Kret = 40; in.Kblock = 60;
  in.memObs = false;   // accesses of the writer are obligations of E02
  loadExtTable(in, "OutputStringInterface", kOutputStringVtable);
  WP x(c, spec);
  spec.looseMap = true;
  auto kind = [&](State& t, int i) { return (int)constOf(t.ghost[WSpec::N("!sk", i)].e); };
  // ---- file header
  for (int flags = 0; flags < 4; ++flags) for (auto& s : x.base(0)) {
    State s1 = s;
    for (auto& o : c.call(fnArgs(in, Wr + "::WriteHeader", 3), {s1.ghost["w"], s1.ghost["os"], vcst(flags, 32)}, s1)) {
      State& t = o.st;
      const int want[5] = {0xD6, 0xC3, 0xC4, flags ? 'S' : 0, 0};
      bool ok = spec.count(t, "!ns") == 5;
      for (int i = 0; i < 5 && ok; ++i) ok = kind(t, i) == BYTE && t.n.entailsEQ(addc(in.U(t, t.ghost[WSpec::N("sv", i)]), -want[i]));
      x.ob(t, "file header: magic bytes, version according to the extensions used, no secondary header fields", ok, "", "flags " + std::to_string(flags));
      c.counts["headers"]++;
    }
  }
  // ---- windows
  for (int inter = 0; inter < 2; ++inter) {
    const std::string key = inter ? "interleaved" : "standard";
    std::vector<State> init;
    spec.log = true;
    for (auto& s : x.base(inter)) {
      Value n, a;
      // which string is which section: an ADD and a COPY
      for (auto& o : x.emit(s, {ADD, 20, 0}, &n, &a)) {
        State t = o.st;
        int k = spec.count(t, "!nl");
        if (k < 2) throw Broken{"ADD writes nothing"};
        t.ghost["si"] = t.ghost["ls0"]; t.ghost["sd"] = t.ghost[WSpec::N("ls", k - 1)];
        spec.clear(t);
        for (auto& o2 : x.emit(t, {COPY, 20, 0}, &n, &a)) {
          State u = o2.st;
          k = spec.count(u, "!nl");
          if (k < 1) throw Broken{"COPY writes nothing"};
          u.ghost["sa"] = u.ghost[WSpec::N("ls", k - 1)];
          spec.clear(u);
          u.ghost["!cs"] = vcst(0, 32); u.ghost["cs"] = vcst(0, 32);
          u.ghost["!empty"] = vcst(0, 32);
          init.push_back(u);
        }
      }
    }
    spec.log = false;
    auto bound = [&](State& s) { for (auto* g : {"si", "sd", "sa"}) s.n.assumeGE(lin::sub(cst(pow2(28)), in.strGet(s, s.ghost[g]).size)); s.n.assumeGE(lin::sub(cst(pow2(28)), s.ghost["tl"].e)); return !s.dead() && s.n.feasible(); };
    auto norm = [&](std::vector<Outcome> r) {
      std::vector<State> v;
      for (auto& o : r) { State t = std::move(o.st); for (auto* g : {"n", "d", "tl0"}) t.ghost.erase(g); t.ghost["!mode"] = vcst(-1, 32); t.ghost.erase("!mode"); t.ghost["eaddr"] = vcst(0, 32); t.ghost["ehere"] = vcst(0, 32); t.ghost["enc"] = vcst(0, 32); t.ghost["!empty"] = vcst(0, 32); if (bound(t)) v.push_back(std::move(t)); }
      in.extraRoots.clear();
      return v;
    };
    std::vector<Op> ops;
    Value n, a;
    ops.push_back({"Add", [&](State& s) { return norm(x.emit(s, {ADD, WP::kAny, 0}, &n, &a)); }});
    ops.push_back({"Run", [&](State& s) { return norm(x.emit(s, {RUN, WP::kAny, 0}, &n, &a)); }});
    ops.push_back({"Copy", [&](State& s) { return norm(x.emit(s, {COPY, WP::kAny, -1}, &n, &a)); }});
    ops.push_back({"AddChecksum", [&](State& s) {
      Value v = vint(atom(newAtom("checksum", 0, pow2(32) - 1)), 32);
      s.ghost["cs"] = v; s.ghost["!cs"] = vcst(1, 32);
      return [&] { std::vector<State> r; for (auto& o : c.call(fnArgs(in, Wr + "::AddChecksum", 2), {s.ghost["w"], v}, s)) r.push_back(o.st); return r; }();
    }});
    ops.push_back({"Init", [&](State& s) {
      std::vector<State> r;
      for (auto& o : c.call(fnArgs(in, Wr + "::Init", 2), {s.ghost["w"], s.ghost["D"]}, s)) { State t = o.st; t.ghost["tl"] = vcst(0, 64); t.ghost["!empty"] = vcst(1, 32); if (constOf(t.ghost["!cs"].e)) t.ghost["!cs"] = vcst(2, 32); r.push_back(t); }
      return r;
    }});
    ops.push_back({"Output", [&](State& s) {
      std::vector<State> res;
      if (!bound(s)) return res;
      spec.log = true;
      auto r = c.call(fnArgs(in, Wr + "::Output", 2), {s.ghost["w"], s.ghost["os"]}, s);
      spec.log = false;
      for (auto& o : r) for (auto& u : c.act(o.st, [&](State& t) {
        int k = spec.count(t, "!ns");
        bool empty = constOf(t.ghost["!empty"].e) == 1;
        c.counts["outputs"]++;
        if (empty) { x.ob(t, "nothing is output when there are no instructions", k == 0, std::to_string(k) + " items written", key); }
        else {
          int cs = (int)constOf(t.ghost["!cs"].e);
          auto V = [&](int i) { return t.ghost[WSpec::N("sv", i)].e; };
          auto is = [&](int i, int kd, L v) { return i < k && kind(t, i) == kd && t.n.entailsEQ(lin::sub(V(i), v)); };
          x.ob(t, "a window is output when there are instructions", k > 0, "", key);
          if (!k) return;
          bool hasSum = is(0, BYTE, cst(5));
          x.ob(t, "Win_Indicator: source segment, and checksum exactly when one was added", cs == 0 ? is(0, BYTE, cst(1)) : cs == 1 ? hasSum : hasSum || is(0, BYTE, cst(1)), "", key);
          x.ob(t, "source segment: the whole dictionary", is(1, VARINT, t.ghost["D"].e) && is(2, VARINT, cst(0)), "", key);
          int need = 9 + hasSum;
          x.ob(t, "window header complete", k >= need && kind(t, 3) == VARINT, std::to_string(k) + " items", key);
          if (k < need || kind(t, 3) != VARINT) return;
          L len = cst(0);
          for (int i = 4; i < k; ++i) len = lin::add(len, t.ghost[WSpec::N("sn", i)].e);
          x.ob(t, "the declared delta length is the number of bytes that follow", t.n.entailsEQ(lin::sub(V(3), len)), "declared " + str(t.n.norm(V(3))) + " written " + str(t.n.norm(len)), key);
          x.ob(t, "the declared target length is the total of the instruction sizes", is(4, VARINT, t.ghost["tl"].e), "declared " + str(t.n.norm(V(4))) + " total " + str(t.n.norm(t.ghost["tl"].e)), key);
          x.ob(t, "Delta_Indicator: no compression", is(5, BYTE, cst(0)), "", key);
          if (hasSum && cs == 1) x.ob(t, "the checksum written is the one added", is(9, VARINT, in.U(t, t.ghost["cs"])) && t.ghost["sv9"].w == 64, "", key);
          // sections in order, empty ones may be left out
          int at = need;
          const char* nm[3] = {"sd", "si", "sa"};
          for (int q = 0; q < 3; ++q) {
            L dl = V(6 + q);
            bool declared = kind(t, 6 + q) == VARINT;
            x.ob(t, "section length present", declared, "section " + std::to_string(q), key);
            if (!declared) return;
            bool mine = q == 1 || !inter;
            if (!mine) x.ob(t, "interleaved: data and address sections are empty", t.n.entailsEQ(dl), "declared " + str(t.n.norm(dl)), key);
            if (at < k && kind(t, at) == BYTES && t.n.entailsEQ(lin::sub(t.ghost[WSpec::N("sn", at)].e, dl))) {
              Value p = t.ghost[WSpec::N("sv", at)];
              if (mine) {
                Interp::Str st = in.strGet(t, t.ghost[nm[q]]);
                bool ok = (p.k == VPtr && st.data.k == VPtr && p.obj == st.data.obj && t.n.entailsEQ(p.e)) || t.n.entailsEQ(dl);
                x.ob(t, "sections are written in the order data, instructions, addresses", ok, "section " + std::to_string(q), key);
                // the size the string had before Output is not known here any more; what was written is all of it because the next window starts empty
              }
              ++at;
            } else x.ob(t, "every non-empty section is written with its declared length", t.n.entailsEQ(dl), "section " + std::to_string(q), key);
          }
          x.ob(t, "nothing follows the sections", at == k, "", key);
          c.counts["windows"]++;
        }
        if (constOf(t.ghost["!dirty"].e)) t.ghost["!stale"] = vcst(1, 8);
        t.ghost["tl"] = vcst(0, 64);
        t.ghost["!empty"] = vcst(1, 32);
        if (constOf(t.ghost["!cs"].e)) t.ghost["!cs"] = vcst(2, 32);
      })) { State t = u; spec.clear(t); res.push_back(t); }
      return res;
    }});
    MGC m(c);
    m.K = 2;
    m.Mjoin = 4;
    m.run(init, ops);
    if (in.debug) for (auto& d : m.set) fprintf(stderr, "STATE %s\n", in.dump(d.st).substr(0, 1500).c_str());
  }
}
