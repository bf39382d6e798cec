// Fixpoint iteration over one function's control-flow graph; calls are analysed in context.
#include "interp.hpp"
#include "finfo.hpp"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
using namespace lin;
using llvm::dyn_cast;
using llvm::isa;
using llvm::cast;

static Value useInt(Interp& in, State& s, Value v, int w) {
  if (v.k == VInt || v.k == VPtr) return v;
  if (v.k == VUndef && in.memObs) in.oblige(s, in.prop, "value initialised before use", false, "uninitialised value used");
  if (v.k == VFn) return vint(atom(newAtom("fnaddr", 1, pow2(62))), 64);
  i128 lo = w <= 16 ? 0 : -pow2(w - 1), hi = w <= 16 ? pow2(w) - 1 : pow2(w - 1) - 1;
  if (w == 1) { lo = 0; hi = 1; }
  return vint(atom(newAtom("unk", lo, hi)), w);
}

Value Interp::operand(State& s, const Env& env, FInfo& fi, const llvm::Value* v) {
  if (auto* c = dyn_cast<llvm::Constant>(v)) return constVal(c, &s);
  auto it = fi.num.find(v);
  if (it == fi.num.end()) return vunk(64);
  return env[it->second];
}

#include <chrono>
#include <csignal>
struct ProfRec { long calls = 0, disj = 0, outs = 0, maxin = 0; double t = 0; };
static std::map<std::string, ProfRec>* g_prof = nullptr;
static void profDump(int) {
  std::vector<std::pair<double, std::string>> v;
  for (auto& p : *g_prof) v.push_back({p.second.t, p.first});
  std::sort(v.rbegin(), v.rend());
  for (auto& x : v) { auto& r = (*g_prof)[x.second]; fprintf(stderr, "%8.1fs calls %ld heads %ld outs %ld maxin %ld  %s\n", x.first, r.calls, r.disj, r.outs, r.maxin, x.second.c_str()); }
  _exit(3);
}
struct Pend { State st; Env env; };
struct Disj { State st; Env env; std::string key; int njoin = 0; };

// opposite bounds make an equation, which joins keep better
static void bound(State& s, L e) { if (s.n.entailsGE(mulc(e, -1))) s.n.assumeEQ(e); else s.n.assumeGE(e); }
static bool applyCase(State& s, const std::vector<Constraint>& c) {
  for (auto& k : c) {
    if (k.k == Constraint::GE) bound(s, k.e);
    else if (k.k == Constraint::EQ) s.n.assumeEQ(k.e);
    else s.n.assumeNE(k.e);
    if (s.dead()) return false;
  }
  return s.n.feasible();
}

static L bitwise(Interp& in, State& s, unsigned op, const Value& x, const Value& y, int w) {
  L a = in.U(s, x), b = in.U(s, y);
  i128 ca, cb;
  bool ka = isConst(a, &ca), kb = isConst(b, &cb);
  if (ka && kb) return cst(op == llvm::Instruction::And ? (ca & cb) : op == llvm::Instruction::Or ? (ca | cb) : (ca ^ cb));
  if (ka) { std::swap(a, b); std::swap(ca, cb); std::swap(ka, kb); }
  i128 al, ah;
  s.n.ival(a, &al, &ah);
  if (op == llvm::Instruction::And) {
    if (kb) {
      if (cb == 0) return cst(0);
      // low mask
      if ((cb & (cb + 1)) == 0 && (cb > 7 || ah <= cb)) {
        int k = 0;
        while (pow2(k) <= cb) ++k;
        return in.canon(s, a, k, false);
      }
      if (ah < kInf && al >= 0) {
        // bits above the range of a do not matter
        int top = 0;
        while (pow2(top) <= ah) ++top;
        cb &= pow2(top) - 1;
        if (cb == 0) return cst(0);
        if (cb == pow2(top) - 1) return a;
        // highest possible bit: equivalent to a comparison
        if (top > 0 && cb == pow2(top - 1)) return in.test(s, Constraint::GE, addc(a, -cb), "high bit") ? cst(cb) : cst(0);
      }
      // one bit: equivalent to a comparison of the value modulo the next power of two
      if ((cb & (cb - 1)) == 0) {
        int k = 0;
        while (pow2(k) <= cb) ++k;
        L m = in.canon(s, a, k, false);
        return in.test(s, Constraint::GE, addc(m, -cb), "bit") ? cst(cb) : cst(0);
      }
      // high mask inside the word: a - (a & low)
      i128 inv = (pow2(w) - 1) & ~cb;
      if ((inv & (inv + 1)) == 0) {
        int k = 0;
        while (pow2(k) <= inv) ++k;
        if (inv == 0) return a;
        return lin::sub(a, in.canon(s, a, k, false));
      }
      // general constant mask: sum of bits
      int nb = 0;
      for (int i = 0; i < w; ++i) if (cb >> i & 1) ++nb;
      if (nb <= 8) {
        L r = cst(0);
        for (int i = 0; i < w; ++i) if (cb >> i & 1) {
          Def d{Def::Bit, 0, {a}, "", i};
          int bt = defAtom(d, "bit" + std::to_string(i), 0, 1);
          r = lin::add(r, mulc(atom(bt), pow2(i)));
        }
        // the bits together cannot exceed the value
        s.n.assumeGE(lin::sub(a, r));
        // if only the top-most possible bits remain, the value exceeds them by less than the lowest one
        return r;
      }
    }
    Def d{Def::UF, 0, {std::min(a, b), std::max(a, b)}, "and", w};
    i128 bl, bh;
    s.n.ival(b, &bl, &bh);
    int r = defAtom(d, "and", 0, pow2(w) - 1);
    s.n.assumeGE(lin::sub(a, atom(r)));
    s.n.assumeGE(lin::sub(b, atom(r)));
    return atom(r);
  }
  i128 bl, bh;
  s.n.ival(b, &bl, &bh);
  auto lowz = [&](L e) {  // number of provably zero low bits
    int k = 0;
    while (k < 63 && divisible(e, pow2(k + 1))) ++k;
    return k;
  };
  if (op == llvm::Instruction::Or || op == llvm::Instruction::Xor) {
    if (kb && cb == 0) return a;
    int za = lowz(a), zb = lowz(b);
    auto below = [&](L e, i128 l, i128 h, int k) {
      if (l >= 0 && h < pow2(k)) return true;
      return k > 0 && !isConst(e) && s.n.entailsGE(e) && s.n.entailsGE(lin::sub(cst(pow2(k) - 1), e));
    };
    if (below(b, bl, bh, za)) return lin::add(a, b);
    if (below(a, al, ah, zb)) return lin::add(a, b);
    if (a == b) return op == llvm::Instruction::Or ? a : cst(0);
    if (op == llvm::Instruction::Xor && kb && cb == pow2(w) - 1) return lin::sub(cst(pow2(w) - 1), a);
    // setting one bit: a + 2^i*(1-bit_i(a))
    if (kb && cb > 0 && (cb & (cb - 1)) == 0) {
      int i = 0;
      while (pow2(i) < cb) ++i;
      L bt;
      if (ah < pow2(i)) bt = cst(0);
      else { Def d{Def::Bit, 0, {a}, "", i}; bt = atom(defAtom(d, "bit" + std::to_string(i), 0, 1)); s.n.assumeGE(lin::sub(a, mulc(bt, pow2(i)))); }
      if (op == llvm::Instruction::Or) return lin::add(a, lin::sub(cst(cb), mulc(bt, cb)));
      return lin::add(a, lin::sub(cst(cb), mulc(bt, 2 * cb)));
    }
    Def d{Def::UF, 0, {std::min(a, b), std::max(a, b)}, op == llvm::Instruction::Or ? "or" : "xor", w};
    int top = w;
    if (ah < kInf && bh < kInf && al >= 0 && bl >= 0) { top = 0; while (pow2(top) <= std::max(ah, bh)) ++top; if (top > w) top = w; }
    int r = defAtom(d, op == llvm::Instruction::Or ? "or" : "xor", 0, pow2(w) - 1);
    s.n.assumeGE(lin::sub(cst(pow2(top) - 1), atom(r)));
    if (op == llvm::Instruction::Or) { s.n.assumeGE(lin::sub(atom(r), a)); s.n.assumeGE(lin::sub(atom(r), b)); }
    s.n.assumeGE(lin::sub(lin::add(a, b), atom(r)));
    return atom(r);
  }
  throw Broken{"bitwise"};
}

// e = d*q + r, floor division of a non-negative e
void divmod(Interp& in, State& s, L e, L d, L* q, L* r, const char*) {
  i128 c, ev;
  e = s.n.norm(e);
  d = s.n.norm(d);
  if (isConst(d, &c)) {
    if (isConst(e, &ev) && ev >= 0) { *q = cst(ev / c); *r = cst(ev % c); return; }
    if (divisible(e, c)) { *q = divc(e, c); *r = cst(0); return; }
    // split off the divisible part
    LinT dv, rest;
    rest.c = ((lin::get(e).c % c) + c) % c;
    dv.c = lin::get(e).c - rest.c;
    for (auto& p : lin::get(e).t) if (p.second % c == 0) dv.t.push_back(p); else rest.t.push_back(p);
    L D = intern(std::move(dv)), R = intern(std::move(rest));
    i128 lo, hi;
    s.n.ival(R, &lo, &hi);
    if (lo >= 0 && hi < c) { *q = divc(D, c); *r = R; return; }
    if (s.n.entailsGE(R) && s.n.entailsGE(lin::sub(cst(c - 1), R))) { *q = divc(D, c); *r = R; return; }
    Def dq{Def::Div, 0, {e, d}, "", 0};
    i128 el, eh;
    int qa = defAtom(dq, "q", -kInf, kInf);
    s.n.ival(e, &el, &eh);
    L Q = atom(qa);
    // 0 <= e - c*Q <= c-1
    s.n.assumeGE(lin::sub(e, mulc(Q, c)));
    s.n.assumeGE(addc(lin::sub(mulc(Q, c), e), c - 1));
    if (el > -kInf) s.n.assumeGE(addc(Q, -floordiv(el, c)));
    if (eh < kInf) s.n.assumeGE(lin::sub(cst(floordiv(eh, c)), Q));
    *q = Q;
    *r = lin::sub(e, mulc(Q, c));
    return;
  }
  Def dq{Def::Div, 0, {e, d}, "", 0}, dr{Def::Rem, 0, {e, d}, "", 0};
  *q = atom(defAtom(dq, "q", 0, kInf));
  *r = atom(defAtom(dr, "r", 0, kInf));
  s.n.assumeGE(addc(lin::sub(d, *r), -1));
  s.n.assumeGE(lin::sub(e, *r));
  s.n.assumeGE(lin::sub(e, *q));
}

// Unrolls a phi-copy along the edge from -> to
static void takeEdge(Interp& in, FInfo& fi, State& s, Env& env, const llvm::BasicBlock* from, const llvm::BasicBlock* to) {
  std::vector<std::pair<int, Value>> upd;
  for (auto& I : *to) {
    auto* ph = dyn_cast<llvm::PHINode>(&I);
    if (!ph) break;
    upd.push_back({fi.num[ph], in.operand(s, env, fi, ph->getIncomingValueForBlock(from))});
  }
  for (auto& u : upd) env[u.first] = u.second;
}

std::vector<Outcome> Interp::call(const llvm::Function* F, std::vector<Value> args, State st) {
  ++calls;
  std::vector<Outcome> out;
  if (spec && spec->model(*this, st, F, args, out)) return out;
  if (builtin(st, F, cur, args, out)) { extModels.insert(qname(F)); return out; }
  if (F->isDeclaration()) {
    unmodelled.insert(qname(F));
    if (st.imprecise.empty()) st.imprecise = "call of unmodelled external function " + qname(F) + " at " + loc();
    Outcome o;
    llvm::Type* rt = F->getReturnType();
    // conservatively forget the contents of objects passed by pointer
    for (auto& a : args) if (a.k == VPtr && a.obj >= 0 && get(st, a.obj) && !get(st, a.obj)->ro) havocContent(st, a.obj, "external call");
    o.st = std::move(st);
    o.ret = rt->isVoidTy() ? Value() : rt->isPointerTy() ? vptr(OBJ_TOP, cst(0)) : rt->isIntegerTy() ? useInt(*this, o.st, vunk(), (int)rt->getIntegerBitWidth()) : vunk(64);
    out.push_back(std::move(o));
    return out;
  }
  int depth = 0;
  for (auto& f : stack) if (f.F == F) ++depth;
  if (depth > 4) {
    if (st.imprecise.empty()) st.imprecise = "recursion of " + qname(F) + " cut";
    Outcome o;
    llvm::Type* rt = F->getReturnType();
    o.st = std::move(st);
    o.ret = rt->isVoidTy() ? Value() : rt->isPointerTy() ? vptr(OBJ_TOP, cst(0)) : rt->isIntegerTy() ? useInt(*this, o.st, vunk(), (int)rt->getIntegerBitWidth()) : vunk(64);
    out.push_back(std::move(o));
    return out;
  }
  if (spec) spec->onCall(*this, st, F, args);
  usedFns.insert(qname(F));
  const llvm::Instruction* sv = cur;
  out = exec(F, args, st);
  cur = sv;
  if (spec) {
    std::vector<Outcome> o2;
    for (auto& o : out) {
      try {
        spec->onReturn(*this, o.st, F, args, o.ret);
        if (!o.st.dead()) o2.push_back(std::move(o));
      } catch (PathEnd&) {
      }
    }
    out.swap(o2);
  }
  return out;
}

std::vector<Outcome> Interp::exec(const llvm::Function* F, std::vector<Value>& args, State& st0) {
  auto& fp = finfo[F];
  if (!fp) fp.reset(new FInfo(F));
  FInfo& fi = *fp;
  if (stack.size() > 60) throw Broken{"call depth"};
  ProfRec* prof = nullptr;
  auto tp0 = std::chrono::steady_clock::now();
  if (debug) {
    if (!g_prof) { g_prof = new std::map<std::string, ProfRec>(); signal(SIGTERM, profDump); }
    prof = &(*g_prof)[qname(F)];
    prof->calls++;
  }
  size_t nb = fi.rpo.size();
  std::vector<std::vector<Pend>> pend(nb);
  std::vector<std::vector<Disj>> disj(nb);
  std::vector<Outcome> outs;
  {
    Pend p;
    p.st = std::move(st0);
    p.env.resize(fi.nvals);
    size_t i = 0;
    for (auto& a : F->args()) { if (i < args.size()) p.env[fi.num[&a]] = args[i]; ++i; }
    pend[0].push_back(std::move(p));
  }
  size_t frameIdx = stack.size();
  Env dummy;
  stack.push_back(FrameRef{F, &dummy, nullptr, &args, nullptr});
  std::set<int> myAllocas;
  struct Pop { Interp& in; size_t n; ~Pop() { in.stack.resize(n); } } pop{*this, frameIdx};

  auto pushTo = [&](const llvm::BasicBlock* from, const llvm::BasicBlock* to, State&& s, Env&& env) {
    Pend p;
    p.st = std::move(s);
    p.env = std::move(env);
    takeEdge(*this, fi, p.st, p.env, from, to);
    pend[fi.idx[to]].push_back(std::move(p));
  };
  static const llvm::Instruction* const kNone = nullptr;
  (void)kNone;
  for (;;) {
    size_t bi = 0;
    while (bi < nb && pend[bi].empty()) ++bi;
    if (bi == nb) break;
    const llvm::BasicBlock* BB = fi.rpo[bi];
    std::vector<Pend> in;
    in.swap(pend[bi]);
    stack[frameIdx].env = &dummy;
    stack[frameIdx].at = nullptr;
    cur = BB->getTerminator();
    if (prof) { prof->maxin = std::max(prof->maxin, (long)in.size()); if (fi.head[bi]) prof->disj += (long)in.size(); }
    // ---- reduce the number of states
    const std::vector<int>& live = fi.live[bi];
    std::vector<Pend> work;
    if (fi.head[bi]) {
      // nested heads start over
      auto* Lp = fi.LI.getLoopFor(BB);
      if (Lp) for (size_t j = bi + 1; j < nb; ++j) if (fi.head[j] && Lp->contains(fi.rpo[j])) disj[j].clear();
      for (auto& p : in) {
        gcState(p.st, &p.env, &live);
        if (p.st.dead()) continue;
        std::string key = shapeKey(p.st, &p.env, &live, disj[bi].size() > 40);
        bool sub = false;
        std::vector<Disj*> same;
        for (auto& d : disj[bi]) {
          if (d.key != key) continue;
          same.push_back(&d);
          if (leq(p.st, &p.env, d.st, &d.env, &live, 0)) { sub = true; break; }
        }
        if (sub) continue;
        if ((int)same.size() < (boost ? Kloop + 2 : Kloop)) {
          Disj d;
          d.st = p.st; d.env = p.env; d.key = key;
          disj[bi].push_back(std::move(d));
          work.push_back(std::move(p));
          continue;
        }
        Disj* best = nullptr;
        int bd = 1 << 30;
        for (auto* d : same) {
          int c = diffCount(d->st, &d->env, p.st, &p.env, &live);
          if (c <= bd) { bd = c; best = d; }   // later disjuncts preferred (loop-carried)
        }
        State C; Env ec;
        bool widen = best->njoin >= (fi.smallLoop[bi] ? std::max(Mjoin, 12) : Mjoin);
        if (debug > 2) fprintf(stderr, "JOIN%s at %s (njoin %d)\n A:\n%s\n B:\n%s\n", widen ? "/WIDEN" : "", loc().c_str(), best->njoin, dump(best->st).c_str(), dump(p.st).c_str());
        if (!joinStates(best->st, &best->env, p.st, &p.env, &live, widen, &C, &ec, nullptr)) {
          Disj d;
          d.st = p.st; d.env = p.env; d.key = key;
          disj[bi].push_back(std::move(d));
          if (disj[bi].size() > 200) throw Broken{"too many disjuncts at a loop head in " + qname(F)};
          work.push_back(std::move(p));
          continue;
        }
        if (debug > 2) fprintf(stderr, " => %s\n", dump(C).c_str());
        best->njoin++;
        if (best->njoin > 60) throw Broken{"no fixpoint at loop head in " + qname(F)};
        best->st = C; best->env = ec;
        Pend np;
        np.st = std::move(C);
        np.env = std::move(ec);
        // replace a work item derived from the same disjunct
        work.push_back(std::move(np));
      }
    } else if ((int)in.size() > 1) {
      const int Kb = boost ? Kblock * 4 : Kblock;
      bool many = (int)in.size() > Kb;
      std::map<std::string, std::vector<Pend>> groups;
      std::vector<std::string> order;
      if (many || fi.exitTarget[bi]) {
        struct KL { bool& f; bool o; ~KL() { f = o; } } kl{keepLoads, keepLoads};
        keepLoads = true;
        for (auto& p : in) {
          gcState(p.st, &p.env, &live);
          if (p.st.dead()) continue;
          std::string key = shapeKey(p.st, &p.env, &live, false);
          auto& g = groups[key];
          if (g.empty()) order.push_back(key);
          bool sub = false;
          for (auto& q : g) if (leq(p.st, &p.env, q.st, &q.env, &live, 0)) { sub = true; break; }
          if (sub) continue;
          std::vector<Pend> keep;
          for (auto& q : g) if (!leq(q.st, &q.env, p.st, &p.env, &live, 0)) keep.push_back(std::move(q));
          g.swap(keep);
          g.push_back(std::move(p));
        }
        size_t tot = 0;
        for (auto& g : groups) tot += g.second.size();
        int lim = (int)tot > Kb ? std::max(1, Kb / std::max(1, (int)groups.size())) : 1 << 20;
        for (auto& key : order) {
          auto& g = groups[key];
          while ((int)g.size() > lim) {
            size_t bx = 0, by = 1; int bd = 1 << 30;
            for (size_t x = 0; x < g.size(); ++x) for (size_t y = x + 1; y < g.size(); ++y) {
              int c = diffCount(g[x].st, &g[x].env, g[y].st, &g[y].env, &live);
              if (c < bd) { bd = c; bx = x; by = y; }
            }
            State C; Env ec;
            if (!joinStates(g[bx].st, &g[bx].env, g[by].st, &g[by].env, &live, false, &C, &ec, nullptr)) break;
            g[bx].st = std::move(C); g[bx].env = std::move(ec);
            g.erase(g.begin() + by);
          }
          for (auto& q : g) work.push_back(std::move(q));
        }
      } else work.swap(in);
    } else work.swap(in);
    // ---- transfer
    for (auto& w : work) {
      struct Item { State st; Env env; llvm::BasicBlock::const_iterator it; };
      std::vector<Item> todo;
      {
        Item x{std::move(w.st), std::move(w.env), BB->getFirstNonPHI()->getIterator()};
        todo.push_back(std::move(x));
      }
      while (!todo.empty()) {
        Item x = std::move(todo.back());
        todo.pop_back();
        State& s = x.st;
        Env& env = x.env;
        bool done = false;
        while (!done) {
          const llvm::Instruction& I = *x.it;
          cur = &I;
          stack[frameIdx].env = &env;
          stack[frameIdx].at = &I;
          if (++steps > maxSteps) throw Broken{"step limit"};
          if (stop && *stop) throw Stopped();
          if (isa<llvm::DbgInfoIntrinsic>(I)) { ++x.it; continue; }
          auto setv = [&](const Value& v) { env[fi.num[&I]] = v; };
          bool isCall = isa<llvm::CallBase>(I);
          State snap;
          if (isCall || isa<llvm::StoreInst>(I)) snap = s;
          try {
            switch (I.getOpcode()) {
              case llvm::Instruction::Alloca: {
                auto& A = cast<llvm::AllocaInst>(I);
                i128 n = 1;
                L sz;
                if (auto* c = dyn_cast<llvm::ConstantInt>(A.getArraySize())) { n = (i128)c->getZExtValue(); sz = cst(n * (i128)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue()); }
                else sz = mulc(U(s, operand(s, env, fi, A.getArraySize())), (i128)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue());
                int id = fresh(s, "local " + A.getName().str() + " of " + qname(F), sz);
                mut(s, id)->site = 5;
                myAllocas.insert(id);
                if (auto* AT = dyn_cast<llvm::ArrayType>(A.getAllocatedType())) if (AT->getNumElements() > 32) mut(s, id)->site = 4;
                setv(vptr(id, cst(0)));
                break;
              }
              case llvm::Instruction::Load: {
                Value p = operand(s, env, fi, I.getOperand(0));
                { struct WO { bool& f; ~WO() { f = false; } } wo{watchOn}; watchOn = true; setv(load(s, p, I.getType())); }
                break;
              }
              case llvm::Instruction::Store: {
                Value v = operand(s, env, fi, I.getOperand(0)), p = operand(s, env, fi, I.getOperand(1));
                llvm::Type* ty = I.getOperand(0)->getType();
                if (v.k == VAgg) {
                  auto* sty = dyn_cast<llvm::StructType>(ty);
                  if (!sty) throw Broken{"store of array value"};
                  auto* sl = DL->getStructLayout(sty);
                  for (unsigned k = 0; k < sty->getNumElements(); ++k) {
                    Value q = p; q.e = addc(q.e, (i128)sl->getElementOffset(k).getFixedValue());
                    store(s, q, aggs[v.obj][k], (int)DL->getTypeStoreSize(sty->getElementType(k)).getFixedValue());
                  }
                } else store(s, p, v, (int)DL->getTypeStoreSize(ty).getFixedValue());
                break;
              }
              case llvm::Instruction::GetElementPtr: {
                auto* g = cast<llvm::GEPOperator>(&I);
                Value p = operand(s, env, fi, g->getPointerOperand());
                if (p.k != VPtr) { setv(vptr(OBJ_TOP, cst(0))); break; }
                L off = p.e;
                for (auto gi = llvm::gep_type_begin(g), ge = llvm::gep_type_end(g); gi != ge; ++gi) {
                  if (auto* sty = gi.getStructTypeOrNull()) {
                    unsigned k = (unsigned)cast<llvm::ConstantInt>(gi.getOperand())->getZExtValue();
                    off = addc(off, (i128)DL->getStructLayout(sty)->getElementOffset(k).getFixedValue());
                  } else {
                    Value ix = useInt(*this, s, operand(s, env, fi, gi.getOperand()), 64);
                    i128 es = (i128)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                    off = lin::add(off, mulc(S(s, ix), es));
                  }
                }
                if (p.obj < 0 && p.obj != OBJ_TOP) {
                  // arithmetic on null: only zero offsets keep it null
                  if (!isConst(s.n.norm(off)) || constOf(s.n.norm(off)) != 0) { p.e = off; setv(p); break; }
                }
                p.e = off;
                setv(p);
                break;
              }
              case llvm::Instruction::ICmp: {
                auto& C = cast<llvm::ICmpInst>(I);
                Value a = operand(s, env, fi, I.getOperand(0)), b = operand(s, env, fi, I.getOperand(1));
                auto pr = C.getPredicate();
                Constraint::K k = Constraint::EQ; L e = cst(0); bool neg = false, free = false, known = false, kv = false;
                bool eq = pr == llvm::CmpInst::ICMP_EQ || pr == llvm::CmpInst::ICMP_NE;
                neg = pr == llvm::CmpInst::ICMP_NE;
                if (I.getOperand(0)->getType()->isPointerTy()) {
                  auto isTop = [](const Value& v) { return (v.k == VPtr && v.obj == OBJ_TOP) || v.k == VUnk || v.k == VUndef; };
                  if (a.k == VFn || b.k == VFn) { if (eq && (a.k != b.k)) { known = true; kv = neg; } else if (eq) { known = true; kv = (a.obj == b.obj) != neg; } else free = true; }
                  else if (isTop(a) || isTop(b)) free = true;
                  else if (a.obj == b.obj) {
                    if (eq) { k = Constraint::EQ; e = lin::sub(a.e, b.e); }
                    else {
                      k = Constraint::GE;
                      switch (pr) {
                        case llvm::CmpInst::ICMP_UGE: case llvm::CmpInst::ICMP_SGE: e = lin::sub(a.e, b.e); break;
                        case llvm::CmpInst::ICMP_ULE: case llvm::CmpInst::ICMP_SLE: e = lin::sub(b.e, a.e); break;
                        case llvm::CmpInst::ICMP_UGT: case llvm::CmpInst::ICMP_SGT: e = addc(lin::sub(a.e, b.e), -1); break;
                        default: e = addc(lin::sub(b.e, a.e), -1); break;
                      }
                    }
                  } else if (eq) { known = true; kv = neg; }
                  else free = true;
                } else {
                  int w = (int)I.getOperand(0)->getType()->getIntegerBitWidth();
                  a = useInt(*this, s, a, w); b = useInt(*this, s, b, w);
                  if (eq) {
                    // equality modulo 2^w
                    L ua, ub;
                    i128 c;
                    L na = s.n.norm(b.e);
                    if (isConst(na, &c) && (c < 0 || (w > 1 && c >= 0 && false))) { ua = S(s, a); ub = S(s, b); }
                    else { ua = U(s, a); ub = U(s, b); }
                    k = Constraint::EQ; e = lin::sub(ua, ub);
                  } else {
                    bool sg = C.isSigned();
                    L x1 = sg ? S(s, a) : U(s, a), y1 = sg ? S(s, b) : U(s, b);
                    k = Constraint::GE;
                    switch (pr) {
                      case llvm::CmpInst::ICMP_UGE: case llvm::CmpInst::ICMP_SGE: e = lin::sub(x1, y1); break;
                      case llvm::CmpInst::ICMP_ULE: case llvm::CmpInst::ICMP_SLE: e = lin::sub(y1, x1); break;
                      case llvm::CmpInst::ICMP_UGT: case llvm::CmpInst::ICMP_SGT: e = addc(lin::sub(x1, y1), -1); break;
                      default: e = addc(lin::sub(y1, x1), -1); break;
                    }
                  }
                }
                bool val;
                if (!known && !free && decide(s, k, e, &val)) { known = true; kv = val != neg; }
                if (known) { setv(vcst(kv, 1)); break; }
                // both outcomes
                Item y{s, env, std::next(x.it)};
                if (!free) {
                  if (k == Constraint::EQ) { y.st.n.assumeEQ(e); s.n.assumeNE(e); }
                  else { bound(y.st, e); bound(s, addc(mulc(e, -1), -1)); }
                }
                y.env[fi.num[&I]] = vcst(!neg, 1);
                setv(vcst(neg, 1));
                if (!y.st.dead()) todo.push_back(std::move(y));
                if (s.dead()) { done = true; }
                break;
              }
              case llvm::Instruction::Add: case llvm::Instruction::Sub: case llvm::Instruction::Mul: {
                int w = (int)I.getType()->getIntegerBitWidth();
                Value a = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), w), b = useInt(*this, s, operand(s, env, fi, I.getOperand(1)), w);
                bool nsw = cast<llvm::OverflowingBinaryOperator>(I).hasNoSignedWrap();
                L r;
                L ea = a.k == VPtr ? U(s, a) : a.e, eb = b.k == VPtr ? U(s, b) : b.e;
                if (nsw) { ea = S(s, a); eb = S(s, b); }
                if (I.getOpcode() == llvm::Instruction::Add) r = lin::add(ea, eb);
                else if (I.getOpcode() == llvm::Instruction::Sub) r = lin::sub(ea, eb);
                else {
                  i128 c;
                  L na = s.n.norm(ea), nb2 = s.n.norm(eb);
                  if (isConst(nb2, &c)) r = mulc(na, c);
                  else if (isConst(na, &c)) r = mulc(nb2, c);
                  else {
                    L ua = nsw ? na : U(s, a), ub = nsw ? nb2 : U(s, b);
                    Def d{Def::UF, 0, {std::min(ua, ub), std::max(ua, ub)}, "mul", w};
                    i128 l1, h1, l2, h2;
                    s.n.ival(ua, &l1, &h1); s.n.ival(ub, &l2, &h2);
                    int at = defAtom(d, "mul", -kInf, kInf);
                    if (l1 >= 0 && l2 >= 0) {
                      s.n.assumeGE(atom(at));
                      if (h1 < pow2(50) && h2 < pow2(50)) s.n.assumeGE(lin::sub(cst(h1 * h2), atom(at)));
                      if (l1 >= 1) s.n.assumeGE(lin::sub(atom(at), ub));
                      if (l2 >= 1) s.n.assumeGE(lin::sub(atom(at), ua));
                      // a <= h1  =>  a*b <= h1*b
                      if (h1 < pow2(40)) s.n.assumeGE(lin::sub(mulc(ub, h1), atom(at)));
                      if (h2 < pow2(40)) s.n.assumeGE(lin::sub(mulc(ua, h2), atom(at)));
                    }
                    r = atom(at);
                  }
                }
                if (nsw && w <= 64) {
                  L lo = addc(r, pow2(w - 1)), hi = lin::sub(cst(pow2(w - 1) - 1), r);
                  if (checkOverflow && memObs) {
                    obligeGE(s, prop, "signed arithmetic does not overflow", lo, "below minimum");
                    obligeGE(s, prop, "signed arithmetic does not overflow", hi, "above maximum");
                    if (s.dead()) throw PathEnd();
                  }
                }
                setv(vint(r, w));
                break;
              }
              case llvm::Instruction::Shl: {
                int w = (int)I.getType()->getIntegerBitWidth();
                Value a = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), w), b = useInt(*this, s, operand(s, env, fi, I.getOperand(1)), w);
                i128 c;
                L nb2 = s.n.norm(b.e);
                if (isConst(nb2, &c) && c >= 0 && c < w) { setv(vint(mulc(a.e, pow2((int)c)), w)); break; }
                {
                  Def d{Def::UF, 0, {U(s, a), U(s, b)}, "shl", w};
                  setv(vint(atom(defAtom(d, "shl", 0, pow2(w) - 1)), w));
                }
                break;
              }
              case llvm::Instruction::LShr: case llvm::Instruction::AShr: {
                int w = (int)I.getType()->getIntegerBitWidth();
                Value a = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), w), b = useInt(*this, s, operand(s, env, fi, I.getOperand(1)), w);
                i128 c;
                L nb2 = s.n.norm(b.e);
                L ea = I.getOpcode() == llvm::Instruction::LShr ? U(s, a) : S(s, a);
                if (isConst(nb2, &c) && c >= 0 && c < w) {
                  L q, r;
                  divmod(*this, s, ea, cst(pow2((int)c)), &q, &r, "shr");
                  setv(vint(q, w));
                  break;
                }
                Def d{Def::UF, 0, {ea, U(s, b)}, "shr", w};
                int at = defAtom(d, "shr", 0, pow2(w) - 1);
                if (I.getOpcode() == llvm::Instruction::LShr || s.n.entailsGE(ea)) s.n.assumeGE(lin::sub(ea, atom(at)));
                setv(vint(atom(at), w));
                break;
              }
              case llvm::Instruction::UDiv: case llvm::Instruction::URem: case llvm::Instruction::SDiv: case llvm::Instruction::SRem: {
                int w = (int)I.getType()->getIntegerBitWidth();
                Value a = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), w), b = useInt(*this, s, operand(s, env, fi, I.getOperand(1)), w);
                bool sg = I.getOpcode() == llvm::Instruction::SDiv || I.getOpcode() == llvm::Instruction::SRem;
                bool dv = I.getOpcode() == llvm::Instruction::SDiv || I.getOpcode() == llvm::Instruction::UDiv;
                L x1 = sg ? S(s, a) : U(s, a), y1 = sg ? S(s, b) : U(s, b);
                if (memObs) { bool ok = s.n.entailsNE(y1); oblige(s, prop, "divisor not zero", ok, "division by " + str(s.n.norm(y1))); if (!ok) { s.n.assumeNE(y1); if (s.dead()) throw PathEnd(); } }
                L q, r;
                if (!sg || (test(s, Constraint::GE, x1, "sdiv") && test(s, Constraint::GE, y1, "sdiv"))) {
                  divmod(*this, s, x1, y1, &q, &r, "div");
                } else {
                  i128 c;
                  // pointer differences divided by the element size
                  if (isConst(s.n.norm(y1), &c) && c > 0 && divisible(s.n.norm(x1), c)) { q = divc(s.n.norm(x1), c); r = cst(0); }
                  else if (isConst(s.n.norm(y1), &c) && c > 0 && s.n.entailsGE(mulc(x1, -1))) {
                    divmod(*this, s, mulc(x1, -1), y1, &q, &r, "div");
                    q = mulc(q, -1); r = mulc(r, -1);
                  } else {
                    Def d1{Def::UF, 0, {x1, y1}, "sdiv", w}, d2{Def::UF, 0, {x1, y1}, "srem", w};
                    q = atom(defAtom(d1, "sdiv", -pow2(w - 1), pow2(w - 1) - 1)); r = atom(defAtom(d2, "srem", -pow2(w - 1), pow2(w - 1) - 1));
                  }
                }
                setv(vint(dv ? q : r, w));
                break;
              }
              case llvm::Instruction::And: case llvm::Instruction::Or: case llvm::Instruction::Xor: {
                int w = (int)I.getType()->getIntegerBitWidth();
                Value a = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), w), b = useInt(*this, s, operand(s, env, fi, I.getOperand(1)), w);
                setv(vint(bitwise(*this, s, I.getOpcode(), a, b, w), w));
                break;
              }
              case llvm::Instruction::Trunc: {
                Value a = operand(s, env, fi, I.getOperand(0));
                int w = (int)I.getType()->getIntegerBitWidth();
                a = useInt(*this, s, a, (int)I.getOperand(0)->getType()->getIntegerBitWidth());
                if (w == 1) {
                  i128 c;
                  L n = s.n.norm(a.e);
                  if (isConst(n, &c)) { setv(vcst((c & 1) ? 1 : 0, 1)); break; }
                  i128 lo, hi;
                  s.n.ival(n, &lo, &hi);
                  if (lo >= 0 && hi <= 1) { setv(vcst(test(s, Constraint::EQ, n, "bool") ? 0 : 1, 1)); break; }
                  Def d{Def::Bit, 0, {U(s, a)}, "", 0};
                  L bt = atom(defAtom(d, "bit0", 0, 1));
                  setv(vcst(test(s, Constraint::EQ, bt, "bool") ? 0 : 1, 1));
                  break;
                }
                setv(vint(a.k == VPtr ? U(s, a) : a.e, w));
                break;
              }
              case llvm::Instruction::ZExt: {
                int w0 = (int)I.getOperand(0)->getType()->getIntegerBitWidth();
                Value a = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), w0);
                setv(vint(U(s, a), (int)I.getType()->getIntegerBitWidth()));
                break;
              }
              case llvm::Instruction::SExt: {
                int w0 = (int)I.getOperand(0)->getType()->getIntegerBitWidth();
                Value a = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), w0);
                setv(vint(S(s, a), (int)I.getType()->getIntegerBitWidth()));
                break;
              }
              case llvm::Instruction::PtrToInt: {
                Value a = operand(s, env, fi, I.getOperand(0));
                if (a.k == VPtr && a.obj != OBJ_TOP) setv(vint(U(s, a), 64));
                else setv(useInt(*this, s, vunk(64), 64));
                break;
              }
              case llvm::Instruction::IntToPtr: {
                Value a = operand(s, env, fi, I.getOperand(0));
                i128 c;
                if (a.k == VInt && isConst(s.n.norm(a.e), &c) && c == 0) { setv(vnull()); break; }
                if (a.k == VInt) {
                  Value r = vptr(OBJ_TOP, cst(0));
                  L n = s.n.norm(a.e);
                  for (auto& p : lin::get(n).t) for (auto& q : addrAtoms) if (q.second == p.first && p.second == 1) r = vptr(q.first, lin::sub(n, atom(p.first)));
                  setv(r);
                } else setv(vptr(OBJ_TOP, cst(0)));
                break;
              }
              case llvm::Instruction::BitCast: case llvm::Instruction::Freeze: case llvm::Instruction::AddrSpaceCast:
                setv(operand(s, env, fi, I.getOperand(0)));
                break;
              case llvm::Instruction::Select: {
                Value c = useInt(*this, s, operand(s, env, fi, I.getOperand(0)), 1);
                bool z = test(s, Constraint::EQ, s.n.norm(c.e), "select");
                setv(operand(s, env, fi, I.getOperand(z ? 2 : 1)));
                break;
              }
              case llvm::Instruction::ExtractValue: {
                auto& X = cast<llvm::ExtractValueInst>(I);
                Value a = operand(s, env, fi, I.getOperand(0));
                for (unsigned k : X.indices()) { if (a.k != VAgg) { a = vunk(64); break; } a = aggs[a.obj][k]; }
                setv(a);
                break;
              }
              case llvm::Instruction::InsertValue: {
                auto& X = cast<llvm::InsertValueInst>(I);
                Value a = operand(s, env, fi, I.getOperand(0)), b = operand(s, env, fi, I.getOperand(1));
                std::vector<Value> el;
                unsigned n = I.getType()->isStructTy() ? I.getType()->getStructNumElements() : (unsigned)I.getType()->getArrayNumElements();
                if (a.k == VAgg) el = aggs[a.obj]; else el.resize(n);
                el[*X.idx_begin()] = b;
                aggs.push_back(el);
                Value v; v.k = VAgg; v.obj = (int)aggs.size() - 1;
                setv(v);
                break;
              }
              case llvm::Instruction::Br: {
                auto& B = cast<llvm::BranchInst>(I);
                if (B.isUnconditional()) { pushTo(BB, B.getSuccessor(0), std::move(s), std::move(env)); done = true; break; }
                Value c = useInt(*this, s, operand(s, env, fi, B.getCondition()), 1);
                bool z = test(s, Constraint::EQ, s.n.norm(c.e), "branch");
                pushTo(BB, B.getSuccessor(z ? 1 : 0), std::move(s), std::move(env));
                done = true;
                break;
              }
              case llvm::Instruction::Switch: {
                auto& W = cast<llvm::SwitchInst>(I);
                int w = (int)W.getCondition()->getType()->getIntegerBitWidth();
                Value c = useInt(*this, s, operand(s, env, fi, W.getCondition()), w);
                bool anyNeg = false;
                for (auto& cs : W.cases()) if (cs.getCaseValue()->getSExtValue() < 0) anyNeg = true;
                L v = anyNeg ? S(s, c) : U(s, c);
                bool fin = false;
                for (auto& cs : W.cases()) {
                  i128 cv = anyNeg ? (i128)cs.getCaseValue()->getSExtValue() : (i128)cs.getCaseValue()->getZExtValue();
                  L e = addc(v, -cv);
                  bool r;
                  if (decide(s, Constraint::EQ, e, &r)) {
                    if (r) { pushTo(BB, cs.getCaseSuccessor(), std::move(s), std::move(env)); fin = true; break; }
                    continue;
                  }
                  State t = s;
                  Env te = env;
                  t.n.assumeEQ(e);
                  if (!t.dead()) pushTo(BB, cs.getCaseSuccessor(), std::move(t), std::move(te));
                  s.n.assumeNE(e);
                  if (s.dead()) { fin = true; break; }
                }
                if (!fin) pushTo(BB, W.getDefaultDest(), std::move(s), std::move(env));
                done = true;
                break;
              }
              case llvm::Instruction::Ret: {
                Outcome o;
                if (I.getNumOperands()) {
                  o.ret = operand(s, env, fi, I.getOperand(0));
                }
                o.st = std::move(s);
                outs.push_back(std::move(o));
                done = true;
                break;
              }
              case llvm::Instruction::Unreachable: {
                done = true;
                break;
              }
              case llvm::Instruction::Call: {
                auto& C = cast<llvm::CallBase>(I);
                const llvm::Function* callee = C.getCalledFunction();
                std::vector<Value> av;
                for (auto& a : C.args()) {
                  if (a->getType()->isMetadataTy()) { av.push_back(vunk(64)); continue; }
                  av.push_back(operand(s, env, fi, a.get()));
                }
                std::vector<Outcome> os;
                bool ext = false;
                if (!callee) {
                  if (C.isInlineAsm()) {
                    if (s.imprecise.empty()) s.imprecise = "inline assembly at " + loc();
                    if (!I.getType()->isVoidTy()) setv(vunk(64));
                    break;
                  }
                  Value fv = operand(s, env, fi, C.getCalledOperand());
                  if (fv.k == VFn) callee = fnTable[fv.obj];
                  else if (fv.k == VPtr && fv.obj >= 0 && get(s, fv.obj) && !get(s, fv.obj)->ext.empty()) {
                    const Obj* eo = get(s, fv.obj);
                    i128 slot;
                    if (!isConst(s.n.norm(fv.e), &slot)) throw Broken{"virtual call through unknown slot"};
                    std::string meth = extMethod(eo->ext, (int)(slot / 8));
                    if (spec && spec->extCall(*this, s, eo->ext, meth, av, os)) ext = true;
                    else throw Broken{"no model of " + eo->ext + "::" + meth};
                  } else {
                    if (memObs) oblige(s, prop, "call target known", fv.k == VPtr && fv.obj == OBJ_TOP, "call through invalid function pointer");
                    if (s.imprecise.empty()) s.imprecise = "indirect call of unknown target at " + loc();
                    if (!I.getType()->isVoidTy()) setv(I.getType()->isPointerTy() ? vptr(OBJ_TOP, cst(0)) : vunk(I.getType()->isIntegerTy() ? (int)I.getType()->getIntegerBitWidth() : 64));
                    break;
                  }
                }
                if (!ext) os = call(callee, std::move(av), std::move(s));
                for (size_t k = 0; k < os.size(); ++k) {
                  if (os[k].st.dead()) continue;
                  Item y;
                  y.st = std::move(os[k].st);
                  y.env = env;
                  if (!I.getType()->isVoidTy()) y.env[fi.num[&I]] = os[k].ret;
                  y.it = std::next(x.it);
                  todo.push_back(std::move(y));
                }
                done = true;
                break;
              }
              case llvm::Instruction::UIToFP: case llvm::Instruction::SIToFP: case llvm::Instruction::FAdd: case llvm::Instruction::FSub: case llvm::Instruction::FMul: case llvm::Instruction::FDiv: case llvm::Instruction::FNeg: case llvm::Instruction::FPExt: case llvm::Instruction::FPTrunc:
                setv(vunk(64));
                break;
              default:
                throw Broken{std::string("unsupported instruction ") + I.getOpcodeName() + " at " + loc()};
            }
            if (!done) {
              if (s.dead()) break;
              ++x.it;
            }
          } catch (NeedSplit& sp) {
            if (isCall || isa<llvm::StoreInst>(I)) s = std::move(snap);
            for (auto& c : sp.cases) {
              Item y{s, env, x.it};
              if (applyCase(y.st, c)) todo.push_back(std::move(y));
            }
            done = true;
          } catch (PathEnd&) {
            done = true;
          } catch (Overflow&) {
            throw Broken{"coefficient overflow at " + loc()};
          }
        }
        if ((long)todo.size() > peak) peak = (long)todo.size();
        if (todo.size() > 4000) throw Broken{"too many states in one block of " + qname(F)};
      }
    }
    stack[frameIdx].env = &dummy;
    stack[frameIdx].at = nullptr;
  }
  // leave the frame: locals die
  stack[frameIdx].env = &dummy;
  stack[frameIdx].at = nullptr;
  for (auto& o : outs)
    for (int id : myAllocas) o.st.heap.erase(id);
  if (spec) for (auto& o : outs) spec->beforeMerge(*this, o.st, F);
  mergeOutcomes(outs, boost ? Kret * 4 : Kret);
  if (prof) { prof->outs += (long)outs.size(); prof->t += std::chrono::duration<double>(std::chrono::steady_clock::now() - tp0).count(); }
  cur = nullptr;
  stack.resize(frameIdx);
  if (!stack.empty()) cur = stack.back().at;
  return outs;
}
