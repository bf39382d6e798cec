// C01: COPY address cache.  Oracle: RFC 3284 section 5.3.
#include "contracts.hpp"
using namespace lin;

static const std::string A = "open_vcdiff::VCDiffAddressCache";
static const i128 kMax = 0x7fffffff;

struct ASpec : Spec {
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    size_t n0 = out.size();
    if (!contractVarintParse(in, s, F, a, out)) return false;
    for (size_t i = n0; i < out.size(); ++i) { out[i].st.ghost["enc"] = out[i].ret; out[i].st.ghost["newpos"] = in.loadW(out[i].st, a[1], 8, true); }
    return true;
  }
};

namespace {
struct AC {
  Ctx& c; Interp& in;
  explicit AC(Ctx& x) : c(x), in(x.in) {}
  void ob(State& s, const std::string& rule, bool ok, const std::string& detail, const std::string& key) { in.oblige(s, in.prop, rule, ok, detail, key); }
  // constructed and initialised caches
  std::vector<State> make(State s0, Value n, Value k, const std::string& key) {
    std::vector<State> res;
    Value o = c.obj(s0, "address cache", typeSize(in, A));
    s0.ghost["cache"] = o; s0.ghost["n"] = n; s0.ghost["k"] = k;
    for (auto& r : c.call(fnArgs(in, A + "::VCDiffAddressCache", 3), {o, n, k}, s0))
      for (auto& i : c.call(A + "::Init", {r.st.ghost["cache"]}, r.st)) {
        i128 v;
        bool known = constRet(i.st, i.ret, &v);
        ob(i.st, "Init: definite result", known, "", key);
        L tot = lin::sub(cst(254), lin::add(i.st.ghost["n"].e, i.st.ghost["k"].e));
        if (known && (v & 1)) {
          ob(i.st, "Init: accepts only configurations whose modes fit in a byte", i.st.n.entailsGE(tot), "", key);
          res.push_back(i.st);
        } else if (known) {
          ob(i.st, "Init: rejects only configurations with too many modes", i.st.n.entailsGE(addc(mulc(tot, -1), -1)), "", key);
        }
      }
    return res;
  }
  Value near1(State& s, L i) { return get(s, "NearAddress", i); }
  Value same1(State& s, L i) { return get(s, "SameAddress", i); }
  Value get(State& s, const char* m, L i) { return getOf(s, s.ghost["cache"], m, i); }
  Value getOf(State& s, Value cache, const char* m, L i) {
    auto r = in.call(in.find(A + "::" + m), {cache, vint(i, 32)}, s);
    if (r.size() != 1) throw Broken{std::string(m) + ": expected one outcome"};
    s = std::move(r[0].st);
    return r[0].ret;
  }
  // sizes as the class reports them
  void sizes(State& s, const std::string& key) {
    for (const char* m : {"near_cache_size", "same_cache_size"}) {
      auto r = in.call(in.find(A + "::" + m), {s.ghost["cache"]}, s);
      if (r.size() != 1) throw Broken{"size accessor"};
      ob(r[0].st, "configured sizes are kept", r[0].ret.k == VInt && r[0].st.n.entailsEQ(lin::sub(r[0].ret.e, s.ghost[m[0] == 'n' ? "n" : "k"].e)), "", key);
      s = std::move(r[0].st);
    }
  }
};
}
static std::vector<State> sts(std::vector<Outcome> r) { std::vector<State> v; for (auto& o : r) v.push_back(std::move(o.st)); return v; }

static void sameState(AC& ac, const State& u, const std::string& x, const std::string& y, const std::string& rule, const std::string& key);
// One decode step from state s against the RFC; returns the successful states.
static void decodeCheck(AC& ac, State s, const std::string& key, bool withUpdate) {
  Interp& in = ac.in; Ctx& c = ac.c;
  Value len = c.sym(s, "len", 64, 0, pow2(40));
  Value buf = in.mkInput(s, "address section", len.e);
  Value pp = c.obj(s, "position variable", 8);
  in.store(s, pp, buf, 8);
  s.ghost["pp"] = pp; s.ghost["len"] = len; s.ghost["buf"] = buf;
  Value here = c.sym(s, "here", 32, 0, kMax), mode = c.sym(s, "mode", 8, 0, 255);
  s.ghost["here"] = here; s.ghost["mode"] = mode;
  s.ghost["enc"] = vcst(-100, 32);
  s.ghost["newpos"] = vnull();
  Value snap = cloneGraph(in, s, s.ghost["cache"], {});
  s.ghost["before"] = snap;
  // split on the class of the mode, as the RFC assigns it from the cache sizes
  for (int cl = 0; cl < 5; ++cl) {
  const char* cls[] = {"SELF", "HERE", "NEAR", "SAME", "undefined mode"};
  std::string m = cls[cl];
  bool isSame = cl == 3;
  State s1 = s;
  {
    L M = mode.e, n = s.ghost["n"].e, k = s.ghost["k"].e;
    L nEnd = addc(lin::add(n, cst(2)), -1), kEnd = lin::add(nEnd, k);
    if (cl == 0) s1.n.assumeEQ(M);
    if (cl == 1) s1.n.assumeEQ(addc(M, -1));
    if (cl == 2) { s1.n.assumeGE(addc(M, -2)); s1.n.assumeGE(lin::sub(nEnd, M)); }
    if (cl == 3) { s1.n.assumeGE(addc(lin::sub(M, nEnd), -1)); s1.n.assumeGE(lin::sub(kEnd, M)); }
    if (cl == 4) s1.n.assumeGE(addc(lin::sub(M, kEnd), -1));
    if (s1.dead() || !s1.n.feasible()) continue;
  }
  s1.ghost["cached"] = vcst(0, 32);
  for (auto& s2 : c.act(s1, [&](State& t) {
    L M = t.ghost["mode"].e, n = t.ghost["n"].e;
    if (cl == 2) t.ghost["cached"] = ac.getOf(t, t.ghost["before"], "NearAddress", addc(M, -2));
    if (cl == 3 && in.test(t, Constraint::GE, addc(t.ghost["len"].e, -1), "byte")) {
      Value b = in.loadW(t, t.ghost["buf"], 1, false, true);
      t.ghost["cached"] = ac.getOf(t, t.ghost["before"], "SameAddress", lin::add(mulc(addc(lin::sub(M, n), -2), 256), in.U(t, b)));
    }
  }))
  for (auto& o : (in.extraRoots = {buf, pp}, c.call(A + "::DecodeAddress", {s2.ghost["cache"], s2.ghost["here"], s2.ghost["mode"], pp, vptr(buf.obj, s2.ghost["len"].e)}, s2))) {
    c.counts["decode_outcomes"]++;
    for (auto& t0 : c.act(o.st, [&](State& t) {
      L rv = in.S(t, o.ret);
      Value np = in.loadW(t, t.ghost["pp"], 8, true, true);
      i128 cv;
      bool neg = isConst(t.n.norm(rv), &cv) && cv < 0;
      L H = t.ghost["here"].e;
      bool posOk = np.k == VPtr && np.obj == buf.obj;
      ac.ob(t, "DecodeAddress: position stays in the address section", posOk, "", key);
      if (!posOk) return;
      if (neg) {
        ac.ob(t, "DecodeAddress: result is END_OF_DATA or ERROR on failure", cv == -1 || cv == -2, "returns " + i128s(cv), key);
        ac.ob(t, "DecodeAddress: position unchanged on failure", t.n.entailsEQ(np.e), "", key);
      } else {
        ac.ob(t, "DecodeAddress: address is inside the data decoded so far", t.n.entailsGE(rv) && t.n.entailsGE(addc(lin::sub(H, rv), -1)), "result " + str(t.n.norm(rv)), key);
        ac.ob(t, "DecodeAddress: position advances within the section", t.n.entailsGE(addc(np.e, -1)) && t.n.entailsGE(lin::sub(t.ghost["len"].e, np.e)), "", key);
      }
      // the RFC's meaning of the mode
      L E = in.S(t, t.ghost["enc"]);
      bool parsed = !(isConst(t.n.norm(E), &cv) && cv == -100);
      if (cl == 4) {
        ac.ob(t, "DecodeAddress: a mode above the last one is never accepted", neg, "", key);
        return;
      }
      bool haveWant = isSame ? in.test(t, Constraint::GE, addc(t.ghost["len"].e, -1), "byte") : parsed && in.test(t, Constraint::GE, E, "parsed");
      L C = in.S(t, t.ghost["cached"]);
      L want = cl == 0 ? E : cl == 1 ? lin::sub(H, E) : cl == 2 ? lin::add(C, E) : C;
      if (!neg) {
        ac.ob(t, "DecodeAddress: " + m + " reads the right kind of value", isSame ? !parsed : parsed, "", key);
        if (haveWant) ac.ob(t, "DecodeAddress: " + m + " yields the address the standard prescribes", t.n.entailsEQ(lin::sub(rv, want)), "result " + str(t.n.norm(rv)) + " wanted " + str(t.n.norm(want)), key);
        if (isSame) ac.ob(t, "DecodeAddress: SAME consumes one byte", t.n.entailsEQ(addc(np.e, -1)), "", key);
        else ac.ob(t, "DecodeAddress: " + m + " consumes exactly the integer", t.ghost["newpos"].k == VPtr && t.n.entailsEQ(lin::sub(np.e, t.ghost["newpos"].e)), "", key);
        c.counts["decode_" + m]++;
      } else if (isConst(t.n.norm(rv), &cv) && cv == -2) {
        // end of data only if the section is exhausted or the integer is incomplete
        bool emptySec = t.n.entailsGE(mulc(t.ghost["len"].e, -1));
        i128 ev;
        bool incompl = parsed && isConst(t.n.norm(E), &ev) && ev == -2;
        ac.ob(t, "DecodeAddress: END_OF_DATA only when the section ends early", emptySec || incompl, m, key);
      } else if (haveWant) {
        // an error for a well-formed value: only if the address is invalid
        if (in.test(t, Constraint::GE, want, "valid") && in.test(t, Constraint::GE, addc(lin::sub(H, want), -1), "valid"))
          ac.ob(t, "DecodeAddress: a valid address is accepted", false, m + " address " + str(t.n.norm(want)), key);
        else ac.ob(t, "DecodeAddress: a valid address is accepted", true, "", key);
      }
    })) (void)t0;
    // cache update
    if (!withUpdate) continue;
    i128 cv;
    bool neg = o.ret.k == VInt && isConst(o.st.n.norm(o.ret.e), &cv) && cv < 0;
    State t = o.st;
    t.ghost["addr"] = o.ret;
    std::vector<State> refs;
    if (neg) refs.push_back(t);
    else refs = sts(c.call(A + "::UpdateCache", {t.ghost["before"], t.ghost["addr"]}, t));
    for (auto& u : refs) sameState(ac, u, "cache", "before", "DecodeAddress: cache updated as by UpdateCache, unchanged on failure", key);
  }
  }
  in.extraRoots.clear();
}

// NEAR and SAME contents of caches x and y agree at every position
static void sameContents(AC& ac, const State& u, const std::string& x, const std::string& y, const std::string& rule, const std::string& key) {
  Interp& in = ac.in;
  int j = newAtom("j", 0, 255), p = newAtom("p", 0, 255 * 256);
  for (auto& z : ac.c.act(u, [&](State& v) {
    L n = v.ghost["n"].e, k = v.ghost["k"].e;
    if (in.test(v, Constraint::GE, addc(lin::sub(n, atom(j)), -1), "slot")) {
      Value a = ac.getOf(v, v.ghost[x], "NearAddress", atom(j)), b = ac.getOf(v, v.ghost[y], "NearAddress", atom(j));
      ac.ob(v, rule + " (NEAR)", a.k == VInt && b.k == VInt && v.n.entailsEQ(lin::sub(in.S(v, a), in.S(v, b))), "slot " + str(atom(j)) + ": " + str(v.n.norm(a.e)) + " against " + str(v.n.norm(b.e)), key);
    }
    if (in.test(v, Constraint::GE, addc(lin::sub(mulc(k, 256), atom(p)), -1), "slot")) {
      Value a = ac.getOf(v, v.ghost[x], "SameAddress", atom(p)), b = ac.getOf(v, v.ghost[y], "SameAddress", atom(p));
      ac.ob(v, rule + " (SAME)", a.k == VInt && b.k == VInt && v.n.entailsEQ(lin::sub(in.S(v, a), in.S(v, b))), "entry " + str(atom(p)), key);
    }
  })) (void)z;
}
// same contents now and after one more update of both (so the next slot agrees as well)
static void sameState(AC& ac, const State& u, const std::string& x, const std::string& y, const std::string& rule, const std::string& key) {
  Ctx& c = ac.c;
  sameContents(ac, u, x, y, rule, key);
  State t = u;
  t.ghost["probe"] = c.sym(t, "probe", 32, 0, kMax);
  for (auto& a : sts(c.call(A + "::UpdateCache", {t.ghost[x], t.ghost["probe"]}, t)))
    for (auto& b : sts(c.call(A + "::UpdateCache", {a.ghost[y], a.ghost["probe"]}, a)))
      sameContents(ac, b, x, y, rule + ", and after a further update", key);
}
static void encodeCheck(AC& ac, State s, const std::string& key, bool exact) {
  Interp& in = ac.in; Ctx& c = ac.c;
  s.ghost["before"] = cloneGraph(in, s, s.ghost["cache"], {});
  s.ghost["ref"] = cloneGraph(in, s, s.ghost["cache"], {});
  Value addr = c.sym(s, "address", 32, 0, kMax - 1), here = c.sym(s, "here", 32, 1, kMax);
  s.n.assumeGE(addc(lin::sub(here.e, addr.e), -1));
  s.ghost["addr"] = addr; s.ghost["here"] = here;
  Value ep = c.obj(s, "encoded address variable", 4);
  s.ghost["ep"] = ep;
  s.ghost["sv"] = vcst(0, 32);
  i128 kc;
  // the SAME entry of the address, so that what the code learns about it is kept
  for (auto& s1 : c.act(s, [&](State& t) {
    if (isConst(t.n.norm(t.ghost["k"].e), &kc) && kc > 0) {
      L q, r;
      divmod(in, t, t.ghost["addr"].e, cst(256 * kc), &q, &r, "oracle");
      t.ghost["sv"] = ac.getOf(t, t.ghost["before"], "SameAddress", r);
    }
  }))
  for (auto& o : c.call(A + "::EncodeAddress", {s1.ghost["cache"], s1.ghost["addr"], s1.ghost["here"], ep}, s1)) {
    c.counts["encode_outcomes"]++;
    if (!exact) continue;
    for (auto& t : c.act(o.st, [&](State& t) {
      L H = t.ghost["here"].e, a = t.ghost["addr"].e, n = t.ghost["n"].e, k = t.ghost["k"].e;
      L M = in.U(t, o.ret);
      Value ev = in.loadW(t, t.ghost["ep"], 4, false, true);
      ac.ob(t, "EncodeAddress: encoded value stored", ev.k == VInt, "", key);
      if (ev.k != VInt) return;
      L E = in.S(t, ev);
      bool isSame = false;
      L want;
      std::string m;
      if (in.test(t, Constraint::EQ, M, "SELF")) { m = "SELF"; want = E; }
      else if (in.test(t, Constraint::EQ, addc(M, -1), "HERE")) { m = "HERE"; want = lin::sub(H, E); }
      else if (in.test(t, Constraint::GE, addc(lin::sub(n, M), 1), "NEAR")) {
        m = "NEAR";
        want = lin::add(in.S(t, ac.getOf(t, t.ghost["before"], "NearAddress", addc(M, -2))), E);
      } else if (in.test(t, Constraint::GE, addc(lin::sub(lin::add(n, k), M), 1), "SAME")) {
        m = "SAME"; isSame = true;
        bool rng = t.n.entailsGE(E) && t.n.entailsGE(lin::sub(cst(255), E));
        ac.ob(t, "EncodeAddress: a SAME address is one byte", rng, "value " + str(t.n.norm(E)), key);
        if (!rng) return;
        want = in.S(t, ac.getOf(t, t.ghost["before"], "SameAddress", lin::add(mulc(addc(lin::sub(M, n), -2), 256), E)));
      } else { ac.ob(t, "EncodeAddress: mode exists", false, "mode " + str(t.n.norm(M)), key); return; }
      c.counts["encode_" + m]++;
      ac.ob(t, "EncodeAddress: encoded value is not negative", t.n.entailsGE(E), m + " " + str(t.n.norm(E)), key);
      ac.ob(t, "EncodeAddress: " + m + " decodes to the address by the standard's formula", t.n.entailsEQ(lin::sub(want, a)), "decodes to " + str(t.n.norm(want)) + " instead of " + str(t.n.norm(a)), key);
      auto r = in.call(in.find(A + "::WriteAddressAsVarintForMode"), {t.ghost["cache"], vint(M, 8)}, t);
      for (auto& q : r) {
        i128 cv;
        bool known = constRet(q.st, q.ret, &cv);
        ac.ob(q.st, "WriteAddressAsVarintForMode: false exactly for SAME modes", known && ((cv & 1) != 0) == !isSame, m, key);
      }
    })) (void)t;
    for (auto& u : sts(c.call(A + "::UpdateCache", {o.st.ghost["ref"], o.st.ghost["addr"]}, o.st)))
      sameState(ac, u, "cache", "ref", "EncodeAddress: cache updated as by UpdateCache", key);
  }
}
// the order in which UpdateCache fills the slots, from a freshly initialised cache
static void updateOrder(AC& ac, const State& s0, const std::string& key, int n, int k, int count) {
  Interp& in = ac.in; Ctx& c = ac.c;
  std::vector<State> cur{s0};
  std::vector<L> a;
  for (int i = 0; i < count; ++i) {
    Value v = c.sym(cur[0], "a" + std::to_string(i), 32, 0, kMax);
    a.push_back(v.e);
    std::vector<State> nx;
    for (auto& s : cur) { s.ghost["a" + std::to_string(i)] = v; for (auto& t : sts(c.call(A + "::UpdateCache", {s.ghost["cache"], v}, s))) nx.push_back(t); }
    cur = nx;
    for (auto& s : cur) for (auto& t : c.act(s, [&](State& t) {
      for (int j = 0; j < n; ++j) {
        L want = cst(0);
        for (int q = 0; q <= i; ++q) if (q % n == j) want = a[q];
        ac.ob(t, "UpdateCache: NEAR slots are filled in turn", t.n.entailsEQ(lin::sub(in.S(t, ac.near1(t, cst(j))), want)), "slot " + std::to_string(j) + " after " + std::to_string(i + 1) + " updates", key);
      }
      if (k > 0) {
        L q, r;
        divmod(in, t, a[i], cst(256 * k), &q, &r, "oracle");
        ac.ob(t, "UpdateCache: SAME entry is indexed by the address modulo the cache size", t.n.entailsEQ(lin::sub(in.S(t, ac.same1(t, r)), a[i])), "", key);
      }
    })) (void)t;
  }
}

CHECK(C01) {
  Interp& in = c.in;
  ASpec spec;
  in.spec = &spec;
  in.checkOverflow = true;
  AC ac(c);
  in.Kloop = 3; in.Kret = 40; in.Kblock = 60;
  // every configuration
  {
    std::string key = "any cache sizes";
    State s;
    auto init = ac.make(s, c.sym(s, "near size", 8, 0, 255), c.sym(s, "same size", 8, 0, 255), key);
    int j = newAtom("j", 0, 255), p = newAtom("p", 0, 255 * 256);
    for (auto& t : init) for (auto& u : c.act(t, [&](State& v) {
      ac.sizes(v, key);
      if (in.test(v, Constraint::GE, addc(lin::sub(v.ghost["n"].e, atom(j)), -1), "slot"))
        ac.ob(v, "Init: NEAR cache is zero", v.n.entailsEQ(in.S(v, ac.near1(v, atom(j)))), "", key);
      if (in.test(v, Constraint::GE, addc(lin::sub(mulc(v.ghost["k"].e, 256), atom(p)), -1), "slot"))
        ac.ob(v, "Init: SAME cache is zero", v.n.entailsEQ(in.S(v, ac.same1(v, atom(p)))), "", key);
    })) (void)u;
    MGC m(c);
    m.K = 1; m.Mjoin = 16;
    std::vector<Op> ops;
    ops.push_back({"UpdateCache", [&](State& s) { return sts(c.call(A + "::UpdateCache", {s.ghost["cache"], c.sym(s, "address", 32, 0, kMax)}, s)); }});
    m.run(init, ops);
    for (auto& d : m.set) {
      if (in.debug) fprintf(stderr, "CACHE %s\n", in.dump(d.st).c_str());
      decodeCheck(ac, d.st, key, true);
      encodeCheck(ac, d.st, key, false);
      // Init after use behaves like a fresh cache
      State t = d.st;
      for (auto& i : c.call(A + "::Init", {t.ghost["cache"]}, t)) {
        i128 v;
        ac.ob(i.st, "Init: can be repeated", constRet(i.st, i.ret, &v) && (v & 1), "", key);
        State u = i.st;
        Value f = c.obj(u, "fresh cache", typeSize(in, A));
        u.ghost["fresh"] = f;
        for (auto& q : c.call(fnArgs(in, A + "::VCDiffAddressCache", 3), {f, u.ghost["n"], u.ghost["k"]}, u))
          for (auto& r : c.call(A + "::Init", {q.st.ghost["fresh"]}, q.st)) sameState(ac, r.st, "cache", "fresh", "Init: resets a used cache to its initial state", key);
      }
    }
  }
  // particular configurations, exactly
  in.Kloop = 400; in.Kret = 2000; in.Kblock = 4000;
  std::vector<std::pair<int, int>> cfg{{4, 3}, {0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}};
  if (c.thorough) for (auto x : {std::make_pair(3, 0), std::make_pair(0, 3), std::make_pair(6, 2), std::make_pair(8, 1), std::make_pair(2, 5), std::make_pair(5, 128)}) cfg.push_back(x);
  for (auto& cf : cfg) {
    std::string key = "cache sizes " + std::to_string(cf.first) + "," + std::to_string(cf.second);
    State s;
    auto init = ac.make(s, vcst(cf.first, 8), vcst(cf.second, 8), key);
    if (init.size() != 1) throw Broken{"Init of a fixed configuration"};
    updateOrder(ac, init[0], key, cf.first, cf.second, cf.first + 3);
    MGC m(c);
    m.K = 1; m.Mjoin = 16;
    std::vector<Op> ops;
    ops.push_back({"UpdateCache", [&](State& s) { return sts(c.call(A + "::UpdateCache", {s.ghost["cache"], c.sym(s, "address", 32, 0, kMax)}, s)); }});
    m.run(init, ops);
    for (auto& d : m.set) encodeCheck(ac, d.st, key, true);
    c.counts["configurations"]++;
  }
  // the default constructor uses the sizes of the default code table
  {
    State s;
    Value o = c.obj(s, "address cache", typeSize(in, A));
    s.ghost["cache"] = o; s.ghost["n"] = vcst(4, 8); s.ghost["k"] = vcst(3, 8);
    for (auto& r : c.call(fnArgs(in, A + "::VCDiffAddressCache", 1), {o}, s)) for (auto& u : c.act(r.st, [&](State& v) { ac.sizes(v, "default constructor"); })) (void)u;
  }
}
