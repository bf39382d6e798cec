// R01: rolling hash.  Oracle: the hash of the shifted window computed from its bytes; comparison of polynomials modulo 2^23.
#include "contracts.hpp"
using namespace lin;

CHECK(R01) {
  Interp& in = c.in;
  in.opaqueMod = true;
  in.Kloop = 400; in.Kret = 400; in.Kblock = 400;
  const std::string R = "open_vcdiff::RollingHash<16>";
  const i128 B = pow2(23);
  auto ob = [&](State& s, const std::string& rule, bool ok, const std::string& d, const std::string& key) { in.oblige(s, in.prop, rule, ok, d, key); };
  State s0;
  const int n = 24;
  Value buf = in.mkInput(s0, "data", cst(n));
  s0.ghost["buf"] = buf;
  in.extraRoots = {buf};
  std::vector<State> st{s0};
  std::vector<State> nx;
  for (auto& s : st) for (auto& t : c.act(s, [&](State& t) { for (int i = 0; i < 17; ++i) t.ghost["w" + std::to_string(i)] = vint(in.U(t, in.loadW(t, vptr(buf.obj, cst(i)), 1, false, true)), 8); })) nx.push_back(t);
  st = std::move(nx);
  // set up twice: the second call must change nothing
  for (int k = 0; k < 2; ++k) {
    nx.clear();
    for (auto& s : st) for (auto& o : c.call(fnArgs(in, R + "::Init", 0), {}, s)) nx.push_back(o.st);
    st = std::move(nx);
  }
  if (st.empty()) throw Broken{"RollingHash::Init"};
  auto inRange = [&](State& t, L e) { return t.n.entailsGE(e) && t.n.entailsGE(addc(lin::sub(cst(B), e), -1)); };
  // both values below 2^23 and congruent modulo 2^23
  std::function<L(State&, L, i128, int)> expand = [&](State& t, L e, i128 k, int depth) -> L {
    LinT x = lin::get(t.n.norm(e));
    L r = cst(((x.c % B) * k) % B);
    for (auto& y : x.t) {
      i128 f = ((y.second % B) * k) % B;
      const AtomInfo& ai = lin::atoms[y.first];
      if (ai.def >= 0 && lin::defs[ai.def].kind == Def::Mod && lin::defs[ai.def].n >= 23 && depth < 100) r = lin::add(r, expand(t, lin::defs[ai.def].args[0], f, depth + 1));
      else r = lin::add(r, mulc(atom(y.first), f));
    }
    return r;
  };
  auto congruent = [&](State& t, L a, L b) { L e = expand(t, lin::sub(a, b), 1, 0); LinT x = lin::get(t.n.norm(e)); if (x.c % B) return false; for (auto& y : x.t) if (y.second % B) return false; return true; };
  auto W = [&](State& t, int i) { return t.ghost["w" + std::to_string(i)].e; };
  const llvm::Function* H = fnArgs(in, R + "::Hash", 1);
  const llvm::Function* UH = fnArgs(in, R + "::UpdateHash", 4);
  std::vector<State> hashed;
  for (auto& s : st) for (auto& o : c.call(H, {s.ghost["buf"]}, s)) for (auto& o2 : c.call(H, {vptr(buf.obj, cst(1))}, [&] { State t = o.st; t.ghost["h0"] = o.ret; return t; }())) {
    State t = o2.st;
    t.ghost["h1"] = o2.ret;
    for (int k = 0; k < 2; ++k) {
      L h = in.U(t, t.ghost[k ? "h1" : "h0"]);
      ob(t, "the hash is a value below 2^23", inRange(t, h), str(t.n.norm(h)), k ? "shifted window" : "window");
    }
    hashed.push_back(t);
  }
  Value rh;
  for (auto& s : hashed) {
    Value self = c.obj(s, "hasher", 1);
    s.ghost["self"] = self;
    for (int b = 0; b < 256; ++b) {
      State t = s;
      t.n.assumeEQ(addc(W(t, 0), -b));
      if (t.dead()) throw Broken{"byte"};
      L h0 = in.U(t, t.ghost["h0"]);
      (void)h0;
      for (auto& o : c.call(UH, {t.ghost["self"], t.ghost["h0"], vint(W(t, 0), 8), t.ghost["w16"]}, t)) {
        c.counts["updates"]++;
        L h = in.U(o.st, o.ret);
        ob(o.st, "removing the first byte and adding the next gives the hash of the shifted window", inRange(o.st, h) && congruent(o.st, h, in.U(o.st, o.st.ghost["h1"])), "difference " + str(o.st.n.norm(lin::sub(h, o.st.ghost["h1"].e))).substr(0, 300), "first byte " + std::to_string(b));
      }
    }
  }
}
