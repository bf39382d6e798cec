#include "interp.hpp"
#include "finfo.hpp"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
using namespace lin;
using llvm::dyn_cast;
using llvm::isa;
using llvm::cast;

Value vint(L e, int w) { Value v; v.k = VInt; v.w = (uint8_t)w; v.e = e; v.obj = 0; return v; }
Value vcst(i128 c, int w) { return vint(cst(c), w); }
Value vptr(int obj, L off) { Value v; v.k = VPtr; v.w = 64; v.obj = obj; v.e = off; return v; }
Value vnull() { return vptr(OBJ_NULL, cst(0)); }
Value vunk(int w) { Value v; v.k = VUnk; v.w = (uint8_t)w; v.obj = 0; v.e = cst(0); return v; }

static std::deque<VerT>& vers() { static auto* v = new std::deque<VerT>(); return *v; }
static std::map<VerT, int>& verTab() { static auto* v = new std::map<VerT, int>(); return *v; }
const VerT& verInfo(int v) { return vers()[v]; }
int Interp::newVer(const VerT& v) {
  if (v.k != VerT::Base) {
    auto it = verTab().find(v);
    if (it != verTab().end()) return it->second;
  }
  vers().push_back(v);
  int id = (int)vers().size() - 1;
  if (v.k != VerT::Base) verTab()[v] = id;
  return id;
}
int Interp::baseVer(const std::string& name) {
  VerT v{};
  v.k = VerT::Base; v.base = (int)vers().size(); v.off = v.len = v.srcOff = cst(0); v.name = name; v.src = -1; v.n = 0;
  return newVer(v);
}

// ------------------------------------------------------------------ FInfo
FInfo::FInfo(const llvm::Function* f) : F(f), DT(const_cast<llvm::Function&>(*f)), LI(DT) {
  for (auto& a : f->args()) num[&a] = nvals++;
  for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) num[&i] = nvals++;
  // post-order DFS, successors leaving the loop first
  std::set<const llvm::BasicBlock*> vis;
  std::vector<const llvm::BasicBlock*> post;
  std::function<void(const llvm::BasicBlock*)> dfs = [&](const llvm::BasicBlock* b) {
    vis.insert(b);
    std::vector<const llvm::BasicBlock*> su(llvm::succ_begin(b), llvm::succ_end(b));
    std::stable_sort(su.begin(), su.end(), [&](const llvm::BasicBlock* x, const llvm::BasicBlock* y) {
      return LI.getLoopDepth(x) < LI.getLoopDepth(y);
    });
    for (auto* s : su) if (!vis.count(s)) dfs(s);
    post.push_back(b);
  };
  dfs(&f->getEntryBlock());
  rpo.assign(post.rbegin(), post.rend());
  for (size_t i = 0; i < rpo.size(); ++i) idx[rpo[i]] = (int)i;
  head.resize(rpo.size());
  exitTarget.resize(rpo.size());
  for (size_t i = 0; i < rpo.size(); ++i) {
    head[i] = LI.isLoopHeader(rpo[i]);
    for (auto* s : llvm::successors(rpo[i])) {
      if (LI.getLoopDepth(s) < LI.getLoopDepth(rpo[i])) exitTarget[idx[s]] = true;
      // irreducible back edges are treated as loop heads as well
      if (idx[s] <= (int)i) head[idx[s]] = true;
    }
  }
  smallLoop.resize(rpo.size());
  for (size_t i = 0; i < rpo.size(); ++i) {
    auto* lp = LI.getLoopFor(rpo[i]);
    if (!head[i] || !lp || lp->getHeader() != rpo[i] || !lp->getSubLoops().empty()) continue;
    bool calls = false;
    size_t ni = 0;
    for (auto* b : lp->blocks()) for (auto& I : *b) {
      ++ni;
      if (auto* cb = dyn_cast<llvm::CallBase>(&I)) if (!isa<llvm::IntrinsicInst>(I)) {
        auto* cf = cb->getCalledFunction();
        if (!cf || cf->size() > 12) calls = true;
        else for (auto& b2 : *cf) for (auto& J : b2) if (isa<llvm::CallBase>(J) && !isa<llvm::IntrinsicInst>(J)) calls = true;
      }
    }
    smallLoop[i] = !calls && ni < 150;
  }
  {
    std::set<i128> cs, sh;
    for (auto& b : *f) for (auto& I : b) {
      if (isa<llvm::ICmpInst>(I)) for (auto& op : I.operands()) if (auto* ci = dyn_cast<llvm::ConstantInt>(op.get())) if (ci->getBitWidth() <= 64 && ci->getBitWidth() > 1) cs.insert((i128)ci->getSExtValue());
      if (I.getOpcode() == llvm::Instruction::Shl) if (auto* ci = dyn_cast<llvm::ConstantInt>(I.getOperand(1))) if (ci->getZExtValue() < 32) sh.insert((i128)ci->getZExtValue());
    }
    std::set<i128> t;
    for (i128 c : cs) for (i128 d = -1; d <= 1; ++d) {
      t.insert(c + d);
      for (i128 k : sh) t.insert((c + d) * pow2((int)k));
    }
    thr.assign(t.begin(), t.end());
  }
  // liveness
  size_t n = rpo.size();
  std::vector<std::vector<char>> in(n, std::vector<char>(nvals, 0)), out = in;
  bool ch = true;
  while (ch) {
    ch = false;
    for (int i = (int)n - 1; i >= 0; --i) {
      std::vector<char> o(nvals, 0);
      for (auto* s : llvm::successors(rpo[i])) {
        int si = idx[s];
        for (int v = 0; v < nvals; ++v) if (in[si][v]) o[v] = 1;
        // remove phi defs of s, add phi operands for this edge
        for (auto& I : *s) {
          auto* ph = dyn_cast<llvm::PHINode>(&I);
          if (!ph) break;
          o[num[ph]] = 0;
        }
      }
      for (auto* s : llvm::successors(rpo[i]))
        for (auto& I : *s) {
          auto* ph = dyn_cast<llvm::PHINode>(&I);
          if (!ph) break;
          const llvm::Value* v = ph->getIncomingValueForBlock(rpo[i]);
          auto it = num.find(v);
          if (it != num.end()) o[it->second] = 1;
        }
      std::vector<char> li = o;
      for (auto it = rpo[i]->rbegin(); it != rpo[i]->rend(); ++it) {
        const llvm::Instruction& I = *it;
        if (isa<llvm::PHINode>(I)) break;
        if (!I.getType()->isVoidTy()) li[num[&I]] = 0;
        if (isa<llvm::DbgInfoIntrinsic>(I)) continue;
        for (auto& op : I.operands()) {
          auto f2 = num.find(op.get());
          if (f2 != num.end()) li[f2->second] = 1;
        }
      }
      if (o != out[i] || li != in[i]) { ch = true; out[i] = o; in[i] = li; }
    }
  }
  live.resize(n);
  for (size_t i = 0; i < n; ++i) for (int v = 0; v < nvals; ++v) if (in[i][v]) live[i].push_back(v);
  liveOut = out;
}
const std::vector<int>& FInfo::liveAfter(const llvm::Instruction* I) {
  auto it = la.find(I);
  if (it != la.end()) return it->second;
  std::vector<char> li = liveOut[idx[I->getParent()]];
  for (auto r = I->getParent()->rbegin(); &*r != I; ++r) {
    const llvm::Instruction& J = *r;
    if (isa<llvm::DbgInfoIntrinsic>(J)) continue;
    if (!J.getType()->isVoidTy()) li[num[&J]] = 0;
    for (auto& op : J.operands()) {
      auto f2 = num.find(op.get());
      if (f2 != num.end()) li[f2->second] = 1;
    }
  }
  if (!I->getType()->isVoidTy()) li[num[I]] = 0;
  std::vector<int> r;
  for (int v = 0; v < nvals; ++v) if (li[v]) r.push_back(v);
  return la[I] = r;
}

// ------------------------------------------------------------------ basics
Interp::Interp(llvm::Module* m) : M(m), DL(&m->getDataLayout()) { cst(0); }

const std::string& Interp::dname(const llvm::Function* F) {
  auto it = nameCache.find(F);
  if (it != nameCache.end()) return it->second;
  return nameCache[F] = llvm::demangle(F->getName().str());
}
static std::string stripArgs(const std::string& d) {
  // cut the argument list: first '(' at template depth 0 (not part of "operator()")
  int depth = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    char c = d[i];
    if (d.compare(i, 9, "operator<") == 0 && (i == 0 || !isalnum(d[i - 1]))) {
      i += 8;
      while (i + 1 < d.size() && (d[i + 1] == '<' || d[i + 1] == '=')) ++i;
      continue;
    }
    if (d.compare(i, 10, "operator()") == 0) { i += 9; continue; }
    if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
    if (c == '<') ++depth;
    else if (c == '>') --depth;
    else if (c == '(' && depth <= 0) return d.substr(0, i);
  }
  return d;
}
const std::string& Interp::qname(const llvm::Function* F) {
  auto it = qnameCache.find(F);
  if (it == qnameCache.end()) it = qnameCache.emplace(F, qname0(F)).first;
  return it->second;
}
std::string Interp::qname0(const llvm::Function* F) {
  std::string s = stripArgs(dname(F));
  // drop return type of templates ("bool ns::f<1>")
  int depth = 0;
  size_t last = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '<') ++depth;
    else if (s[i] == '>') --depth;
    else if (s[i] == ' ' && depth == 0 && s.compare(i - std::min<size_t>(i, 8), 8, "operator") != 0) {
      if (s.compare(i + 1, 6, "const)") != 0) last = i + 1;
    }
  }
  if (s.compare(0, 9, "operator ") == 0) return s;
  if (s.find("(anonymous namespace)") != std::string::npos) return s;
  return s.substr(last);
}
std::vector<const llvm::Function*> Interp::findAll(const std::string& qn) {
  std::vector<const llvm::Function*> r;
  for (auto& f : *M) if (qname(&f) == qn) r.push_back(&f);
  return r;
}
const llvm::Function* Interp::find(const std::string& qn, size_t nth) {
  auto r = findAll(qn);
  if (r.size() <= nth) throw Broken{"function not found in the sources: " + qn};
  return r[nth];
}
static std::string dbgLoc(const llvm::Instruction* I) {
  if (!I) return "?";
  if (auto dl = I->getDebugLoc()) {
    std::string f = dl->getFilename().str();
    size_t p = f.rfind('/');
    if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(dl.getLine());
  }
  return "?";
}
std::string Interp::loc() {
  std::string l = dbgLoc(cur);
  if (!stack.empty()) l += " in " + qname(stack.back().F);
  return l;
}
std::string Interp::chain() {
  std::string s;
  for (auto& f : stack) {
    s += qname(f.F);
    s += " -> ";
  }
  s += dbgLoc(cur);
  return s;
}
int Interp::fresh(State& s, const std::string& name, L size) {
  auto o = std::make_shared<Obj>();
  o->id = nextObj++;
  o->name = name;
  o->size = size;
  int id = o->id;
  s.heap[id] = o;
  return id;
}
Obj* Interp::mut(State& s, int id) {
  auto it = s.heap.find(id);
  if (it == s.heap.end()) {
    auto g = gheap.find(id);
    if (g == gheap.end()) return nullptr;
    it = s.heap.emplace(id, g->second).first;
  }
  auto o = std::make_shared<Obj>(*it->second);
  Obj* p = o.get();
  it->second = o;
  return p;
}
const Obj* Interp::get(State& s, int id) {
  auto it = s.heap.find(id);
  if (it != s.heap.end()) return it->second.get();
  auto g = gheap.find(id);
  if (g != gheap.end()) return g->second.get();
  return nullptr;
}
int Interp::globalObj(const llvm::GlobalVariable* g) {
  auto it = gobj.find(g);
  if (it != gobj.end()) return it->second;
  auto o = std::make_shared<Obj>();
  o->id = nextObj++;
  o->name = "global " + llvm::demangle(g->getName().str());
  o->size = cst((i128)DL->getTypeAllocSize(g->getValueType()).getFixedValue());
  o->ro = g->isConstant();
  o->gv = g;
  gheap[o->id] = o;
  gobj[g] = o->id;
  objGlobal[o->id] = g;
  return o->id;
}
int Interp::addrAtom(int obj) {
  auto it = addrAtoms.find(obj);
  if (it != addrAtoms.end()) return it->second;
  int a = newAtom("addr" + std::to_string(obj), 4096, pow2(62));
  addrAtoms[obj] = a;
  return a;
}
void Interp::oblige(State& s, const std::string& p, const std::string& rule, bool ok, const std::string& detail, const std::string& key) {
  std::string k = rule + " @ " + (key.empty() ? loc() : key);
  ObRec& r = obs[p][k];
  if (r.loc.empty()) r.loc = key.empty() ? loc() : key;
  if (ok) { ++r.ok; return; }
  if (!s.imprecise.empty()) {
    ++r.und;
    if (r.detail.empty()) r.detail = "undecided (" + s.imprecise + "): " + detail;
    return;
  }
  if (!r.fail) {
    r.detail = detail;
    r.chain = chain();
    if (debug) {
      fprintf(stderr, "FAIL %s %s: %s\n  chain %s\n", p.c_str(), k.c_str(), detail.c_str(), r.chain.c_str());
      if (debug > 1) fprintf(stderr, "%s\n", dump(s).c_str());
    }
  }
  ++r.fail;
}
bool Interp::obligeGE(State& s, const std::string& p, const std::string& rule, L e, const std::string& detail) {
  bool ok = s.n.entailsGE(e);
  oblige(s, p, rule, ok, detail + " [cannot show " + str(s.n.norm(e)) + " >= 0]");
  if (!ok) s.n.assumeGE(e);
  return ok;
}
bool Interp::obligeEQ(State& s, const std::string& p, const std::string& rule, L e, const std::string& detail) {
  bool ok = s.n.entailsEQ(e);
  oblige(s, p, rule, ok, detail + " [cannot show " + str(s.n.norm(e)) + " == 0]");
  if (!ok) s.n.assumeEQ(e);
  return ok;
}
std::string Interp::dump(State& s) {
  std::string r = "facts:\n" + s.n.str();
  for (auto& g : s.ghost) r += "  ghost " + g.first + " = " + (g.second.k == VInt ? str(s.n.norm(g.second.e)) : "obj" + std::to_string(g.second.obj) + "+" + str(s.n.norm(g.second.e))) + "\n";
  for (auto& h : s.heap) {
    const Obj* o = h.second.get();
    r += "  obj" + std::to_string(o->id) + " '" + o->name + "' size " + str(s.n.norm(o->size)) + (o->alive ? "" : " DEAD") + (o->ver >= 0 ? " ver" + std::to_string(o->ver) : "") + "\n";
    for (auto& c : o->cells) {
      const Value& v = c.second;
      r += "     +" + std::to_string(c.first) + ": ";
      if (v.k == VInt) r += "i" + std::to_string(v.w) + " " + str(s.n.norm(v.e));
      else if (v.k == VPtr) r += v.obj == OBJ_NULL ? "null" : "obj" + std::to_string(v.obj) + "+" + str(s.n.norm(v.e));
      else if (v.k == VFn) r += "fn";
      else r += "?";
      r += "\n";
    }
  }
  if (!s.imprecise.empty()) r += "  IMPRECISE: " + s.imprecise + "\n";
  return r;
}

// ------------------------------------------------------------------ numeric helpers
L Interp::canon(State& s, L e, int w, bool sg) {
  e = s.n.norm(e);
  if (w >= 128) return e;
  i128 lo = sg ? -pow2(w - 1) : 0, W = pow2(w), hi = lo + W - 1;
  i128 il, ih;
  s.n.ival(e, &il, &ih);
  if (il >= lo && ih <= hi) return e;
  if (opaqueMod && !sg && !isConst(e)) {
    Def d{Def::Mod, 0, {e}, "", w};
    return atom(defAtom(d, "mod", 0, W - 1));
  }
  i128 v;
  if (isConst(e, &v)) {
    i128 k = floordiv(v - lo, W);
    return cst(v - k * W);
  }
  if (il <= -kInf || ih >= kInf) {
    if (s.n.entailsGE(addc(e, -lo)) && s.n.entailsGE(lin::sub(cst(hi), e))) return e;
    L q, r;
    divmod(*this, s, addc(e, -lo), cst(W), &q, &r, "mod");
    return addc(r, lo);
  }
  i128 k0 = floordiv(il - lo, W), k1 = floordiv(ih - lo, W);
  if (k0 == k1) return addc(e, -(k0 * W));
  // k = 0 first
  std::vector<i128> ks;
  if (k0 <= 0 && 0 <= k1) ks.push_back(0);
  for (i128 k = k0; k <= k1 && ks.size() < 8; ++k) if (k != 0) ks.push_back(k);
  if (k1 - k0 + 1 > 5) {
    if (s.n.entailsGE(addc(e, -lo)) && s.n.entailsGE(lin::sub(cst(hi), e))) return e;
    // coefficients that vanish modulo 2^w can be dropped
    LinT t; t.c = lin::get(e).c;
    bool ch = false;
    for (auto& p : lin::get(e).t) {
      if (p.second % W == 0) { ch = true; continue; }
      if (p.second >= W || p.second <= -W) { ch = true; t.t.push_back({p.first, p.second % W}); continue; }
      t.t.push_back(p);
    }
    t.c = lin::get(e).c;
    if (ch) return canon(s, intern(std::move(t)), w, sg);
    L q, r;
    divmod(*this, s, addc(e, -lo), cst(W), &q, &r, "mod");
    return addc(r, lo);
  }
  for (i128 k : ks) {
    L lo_c = addc(e, -lo - k * W);            // e - kW - lo >= 0
    L hi_c = lin::sub(cst(hi + k * W), e);    // hi + kW - e >= 0
    if (s.n.entailsGE(lo_c) && s.n.entailsGE(hi_c)) return addc(e, -(k * W));
  }
  NeedSplit sp;
  sp.why = "wrap";
  for (i128 k : ks)
    sp.cases.push_back({{Constraint::GE, addc(e, -lo - k * W)}, {Constraint::GE, lin::sub(cst(hi + k * W), e)}});
  throw sp;
}
L Interp::U(State& s, const Value& v) {
  if (v.k == VPtr) return lin::add(v.obj >= 0 ? atom(addrAtom(v.obj)) : cst(0), v.e);
  if (v.k != VInt) throw Broken{"integer operand of unknown kind"};
  return canon(s, v.e, v.w, false);
}
L Interp::S(State& s, const Value& v) {
  if (v.k == VPtr) return U(s, v);
  if (v.k != VInt) throw Broken{"integer operand of unknown kind"};
  return canon(s, v.e, v.w, true);
}
bool Interp::decide(State& s, Constraint::K k, L e, bool* val) {
  switch (k) {
    case Constraint::GE:
      if (s.n.entailsGE(e)) { *val = true; return true; }
      if (s.n.entailsGE(addc(mulc(e, -1), -1))) { *val = false; return true; }
      return false;
    case Constraint::EQ:
      e = s.n.norm(e);
      if (isConst(e)) { *val = constOf(e) == 0; return true; }
      if (s.n.entailsNE(e)) { *val = false; return true; }
      if (s.n.entailsEQ(e)) { s.n.assumeEQ(e); *val = true; return true; }
      return false;
    case Constraint::NE: {
      bool r;
      if (!decide(s, Constraint::EQ, e, &r)) return false;
      *val = !r;
      return true;
    }
  }
  return false;
}
bool Interp::test(State& s, Constraint::K k, L e, const char* why) {
  bool r;
  if (decide(s, k, e, &r)) return r;
  NeedSplit sp;
  sp.why = why;
  if (k == Constraint::GE) {
    sp.cases.push_back({{Constraint::GE, e}});
    sp.cases.push_back({{Constraint::GE, addc(mulc(e, -1), -1)}});
  } else {
    sp.cases.push_back({{Constraint::EQ, e}});
    sp.cases.push_back({{Constraint::NE, e}});
  }
  throw sp;
}

// ------------------------------------------------------------------ memory
bool Interp::access(State& s, const Value& p, L n, bool write, const char* what) {
  if (p.k != VPtr || p.obj == OBJ_TOP) {
    if (s.imprecise.empty()) s.imprecise = std::string("access through untracked pointer at ") + loc();
    if (memObs) oblige(s, prop, std::string(what) + ": pointer valid", false, "untracked pointer");
    return false;
  }
  if (p.obj == OBJ_NULL) {
    bool ok = s.n.entailsEQ(n);
    if (memObs) oblige(s, prop, std::string(what) + ": pointer not null", ok, "null pointer access");
    if (!ok) throw PathEnd();
    return false;
  }
  const Obj* o = get(s, p.obj);
  if (!o || !o->alive) {
    bool z = s.n.entailsEQ(n);
    if (memObs) oblige(s, prop, std::string(what) + ": memory still live", z, std::string("access to released memory '") + (o ? o->name : "stack object") + "'");
    if (!z) throw PathEnd();
    return false;
  }
  if (memObs) {
    if (write) oblige(s, prop, std::string(what) + ": memory writable", !o->ro, "write to read-only '" + o->name + "'");
    if (!o->ext.empty()) return true;
    i128 c;
    L off = s.n.norm(p.e);
    // fast path for constant offsets into constant-size objects
    i128 nv, sz;
    if (isConst(off, &c) && isConst(n, &nv) && isConst(o->size, &sz)) {
      bool ok = c >= 0 && c + nv <= sz;
      oblige(s, prop, std::string(what) + ": within bounds", ok, "offset " + i128s(c) + "+" + i128s(nv) + " of '" + o->name + "' size " + i128s(sz));
      if (!ok) throw PathEnd();
      return true;
    }
    if (s.n.entailsEQ(n)) return true;
    bool a = obligeGE(s, prop, std::string(what) + ": not before start", off, "'" + o->name + "'");
    bool b = obligeGE(s, prop, std::string(what) + ": not past end", lin::sub(o->size, lin::add(off, n)), "'" + o->name + "' size " + str(s.n.norm(o->size)) + " offset " + str(off) + " len " + str(s.n.norm(n)));
    if (s.dead()) throw PathEnd();
    return a && b;
  }
  return true;
}

static i128 bytesConst(const llvm::DataLayout& DL, const llvm::Constant* c, i64 off, int n, bool* ok, const llvm::Constant** ptrOut);
static i128 bytesConst(const llvm::DataLayout& DL, const llvm::Constant* c, i64 off, int n, bool* ok, const llvm::Constant** ptrOut) {
  llvm::Type* ty = c->getType();
  i64 sz = (i64)DL.getTypeAllocSize(ty).getFixedValue();
  if (off < 0 || off + n > sz) { *ok = false; return 0; }
  if (isa<llvm::ConstantAggregateZero>(c) || isa<llvm::ConstantPointerNull>(c)) { *ok = true; return 0; }
  if (isa<llvm::UndefValue>(c)) { *ok = false; return 0; }
  if (auto* ci = dyn_cast<llvm::ConstantInt>(c)) {
    llvm::APInt v = ci->getValue().zextOrTrunc(128);
    v = v.lshr(off * 8);
    if (n < 16) v = v.trunc(n * 8).zext(128);
    *ok = true;
    i128 r = ((i128)v.extractBitsAsZExtValue(64, 64) << 64) | (i128)(unsigned __int128)v.extractBitsAsZExtValue(64, 0);
    return r;
  }
  if (auto* cd = dyn_cast<llvm::ConstantDataSequential>(c)) {
    i64 es = (i64)cd->getElementByteSize();
    i64 i = off / es;
    if (off % es + n <= es) return bytesConst(DL, cd->getElementAsConstant((unsigned)i), off % es, n, ok, ptrOut);
    // several elements
    i128 r = 0;
    for (int k = 0; k < n; ++k) {
      i128 b = bytesConst(DL, c, off + k, 1, ok, ptrOut);
      if (!*ok) return 0;
      r |= b << (8 * k);
    }
    return r;
  }
  if (auto* st = dyn_cast<llvm::ConstantStruct>(c)) {
    auto* sl = DL.getStructLayout(st->getType());
    unsigned i = sl->getElementContainingOffset((uint64_t)off);
    return bytesConst(DL, st->getOperand(i), off - (i64)sl->getElementOffset(i).getFixedValue(), n, ok, ptrOut);
  }
  if (auto* ca = dyn_cast<llvm::ConstantArray>(c)) {
    i64 es = (i64)DL.getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
    return bytesConst(DL, ca->getOperand((unsigned)(off / es)), off % es, n, ok, ptrOut);
  }
  if (ty->isPointerTy() && off == 0 && n == 8) { *ok = true; *ptrOut = c; return 0; }
  *ok = false;
  return 0;
}
Value Interp::initLoad(const llvm::GlobalVariable* g, i64 off, int nbytes, bool isPtr, bool* ok) {
  *ok = false;
  if (!g->hasInitializer()) return vunk(nbytes * 8);
  const llvm::Constant* pc = nullptr;
  i128 v = bytesConst(*DL, g->getInitializer(), off, nbytes, ok, &pc);
  if (!*ok) return vunk(nbytes * 8);
  if (pc) return constVal(pc, nullptr);
  if (isPtr) { if (v == 0) return vnull(); *ok = false; return vunk(64); }
  return vcst(v, nbytes * 8);
}
Value Interp::constVal(const llvm::Constant* c, State* s) {
  if (auto* ci = dyn_cast<llvm::ConstantInt>(c)) {
    int w = (int)ci->getBitWidth();
    if (w > 64) throw Broken{"wide integer constant"};
    if (w == 1) return vcst(ci->isOne() ? 1 : 0, 1);
    return vcst((i128)ci->getSExtValue(), w);
  }
  if (isa<llvm::ConstantPointerNull>(c)) return vnull();
  if (auto* f = dyn_cast<llvm::Function>(c)) {
    Value v; v.k = VFn; v.w = 64;
    auto it = std::find(fnTable.begin(), fnTable.end(), f);
    if (it == fnTable.end()) { fnTable.push_back(f); v.obj = (int)fnTable.size() - 1; }
    else v.obj = (int)(it - fnTable.begin());
    v.e = cst(0);
    return v;
  }
  if (auto* g = dyn_cast<llvm::GlobalVariable>(c)) return vptr(globalObj(g), cst(0));
  if (auto* ga = dyn_cast<llvm::GlobalAlias>(c)) return constVal(ga->getAliasee(), s);
  if (isa<llvm::UndefValue>(c)) {
    Value v; v.k = VUndef; v.w = c->getType()->isIntegerTy() ? (uint8_t)c->getType()->getIntegerBitWidth() : 64;
    return v;
  }
  if (auto* ce = dyn_cast<llvm::ConstantExpr>(c)) {
    if (ce->getOpcode() == llvm::Instruction::GetElementPtr) {
      llvm::APInt off(64, 0);
      auto* gep = cast<llvm::GEPOperator>(ce);
      if (gep->accumulateConstantOffset(*DL, off)) {
        Value b = constVal(cast<llvm::Constant>(gep->getPointerOperand()), s);
        if (b.k == VPtr) { b.e = addc(b.e, (i128)off.getSExtValue()); return b; }
      }
    }
    if (ce->getOpcode() == llvm::Instruction::BitCast || ce->getOpcode() == llvm::Instruction::AddrSpaceCast)
      return constVal(ce->getOperand(0), s);
    if (ce->getOpcode() == llvm::Instruction::PtrToInt) {
      Value b = constVal(ce->getOperand(0), s);
      if (b.k == VPtr) return vint(lin::add(b.obj >= 0 ? atom(addrAtom(b.obj)) : cst(0), b.e), 64);
    }
  }
  if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
    std::vector<Value> el;
    unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) el.push_back(constVal(c->getAggregateElement(i), s));
    aggs.push_back(el);
    Value v; v.k = VAgg; v.obj = (int)aggs.size() - 1;
    return v;
  }
  return vunk(c->getType()->isIntegerTy() ? (int)c->getType()->getIntegerBitWidth() : 64);
}

void Interp::flush(Obj* o) {
  if (o->cells.empty()) return;
  if (o->ver < 0) o->ver = baseVer(o->name);
  for (auto& c : o->cells) {
    VerT v{};
    v.k = VerT::Store; v.base = o->ver; v.off = cst(c.first); v.val = c.second; v.n = c.second.w / 8 ? c.second.w / 8 : 1; v.len = cst(v.n); v.src = -1; v.srcOff = cst(0);
    o->ver = newVer(v);
  }
  o->cells.clear();
}
void Interp::instSummary(State& s, const Obj* o, int y) {
  int x = o->summ;
  if (x < 0) return;
  L Y = atom(y);
  // copy every fact about x with y
  Num& n = s.n;
  i128 lo, hi;
  n.range(x, &lo, &hi);
  n.assumeGE(addc(Y, -lo));
  n.assumeGE(lin::sub(cst(hi), Y));
  std::vector<L> g;
  for (L e : n.ge) if (coef(e, x) != 0) g.push_back(substAtom(e, x, Y));
  for (L e : g) n.assumeGE(e);
  L xn = n.norm(atom(x));
  if (xn != atom(x)) n.assumeEQ(lin::sub(Y, xn));
  else
    for (auto& p : std::vector<std::pair<int, L>>(n.sub)) if (coef(p.second, x) != 0) n.assumeEQ(lin::sub(atom(p.first), substAtom(p.second, x, Y)));
}
void Interp::weakUpdate(State& s, Obj* o, const Value& v, int nbytes) {
  if (o->summ < 0) return;
  if (v.k != VInt || nbytes != o->summN) { o->summ = -1; return; }
  int x = o->summ;
  int y = newAtom("elem", atoms[x].lo, atoms[x].hi);
  L Y = atom(y), X = atom(x), V;
  V = S(s, v);
  std::vector<L> cand;
  Num& n = s.n;
  i128 lo, hi;
  n.range(x, &lo, &hi);
  cand.push_back(addc(Y, -lo));
  cand.push_back(lin::sub(cst(hi), Y));
  for (L e : n.ge) if (coef(e, x) != 0) cand.push_back(substAtom(e, x, Y));
  L xn = n.norm(X);
  if (xn != X) { cand.push_back(lin::sub(Y, xn)); cand.push_back(lin::sub(xn, Y)); }
  std::vector<L> cv;  // candidates from v
  L vn = n.norm(V);
  n.ival(vn, &lo, &hi);
  cv.push_back(addc(Y, -lo));
  cv.push_back(lin::sub(cst(hi), Y));
  for (auto& p : lin::get(vn).t) {
    if (p.second != 1 && p.second != -1) continue;
    // a = (Y - rest)/k
    L rest = substAtom(vn, p.first, cst(0));
    L av = mulc(lin::sub(Y, rest), p.second);
    for (L e : n.ge) if (coef(e, p.first) != 0) cv.push_back(substAtom(e, p.first, av));
    i128 al, ah;
    n.range(p.first, &al, &ah);
    cv.push_back(addc(av, -al));
    cv.push_back(lin::sub(cst(ah), av));
  }
  std::vector<L> keep;
  for (L c : cand) if (n.entailsGE(substAtom(c, y, vn))) keep.push_back(c);
  for (L c : cv) if (n.entailsGE(substAtom(c, y, n.norm(X)))) keep.push_back(c);
  for (L c : keep) n.assumeGE(c);
  o->summ = y;
}
static Value asKind(State& s, Interp& in, const Value& v, int nbytes, bool isPtr) {
  if (v.k == VUndef || v.k == VUnk) return v;
  if (isPtr) {
    if (v.k == VPtr || v.k == VFn) return v;
    if (v.k == VInt && isConst(s.n.norm(v.e)) && constOf(s.n.norm(v.e)) == 0) return vnull();
    return vptr(OBJ_TOP, cst(0));
  }
  if (v.k == VInt) {
    if (v.w == nbytes * 8) return v;
    if (v.w > nbytes * 8) { return vint(v.e, nbytes * 8); }   // low bytes (little endian)
    return vunk(nbytes * 8);
  }
  if (v.k == VPtr && nbytes == 8) return vint(in.U(s, v), 64);
  return vunk(nbytes * 8);
}
static void elemRange(int nbytes, i128* lo, i128* hi) {
  if (nbytes <= 2) { *lo = 0; *hi = pow2(nbytes * 8) - 1; }
  else { *lo = -pow2(nbytes * 8 - 1); *hi = pow2(nbytes * 8 - 1) - 1; }
}
Value Interp::readVer(State& s, int ver, L off, int nbytes, bool isPtr, int depth) {
  off = s.n.norm(off);
  for (int d = 0; d < 24; ++d) {
    const VerT& v = vers()[ver];
    if (v.k == VerT::Base) break;
    L len = s.n.norm(v.len), vo = s.n.norm(v.off);
    L rel = s.n.norm(lin::sub(off, vo));
    // disjoint?
    if (s.n.entailsGE(addc(mulc(rel, -1), -nbytes)) || s.n.entailsGE(lin::sub(rel, len))) { ver = v.base; continue; }
    if (v.k == VerT::Store) {
      if (v.n == nbytes && s.n.entailsEQ(rel)) return asKind(s, *this, v.val, nbytes, isPtr);
      break;
    }
    // inside?
    if (s.n.entailsGE(rel) && s.n.entailsGE(lin::sub(addc(len, -nbytes), rel))) {
      if (v.k == VerT::Copy) { off = s.n.norm(lin::add(v.srcOff, rel)); ver = v.src; continue; }
      if (v.k == VerT::Fill) {
        if (v.n == nbytes) return asKind(s, *this, v.val, nbytes, isPtr);
        i128 c;
        if (v.n == 1 && v.val.k == VInt && isConst(s.n.norm(v.val.e), &c) && c == 0) return isPtr ? vnull() : vcst(0, nbytes * 8);
      }
    }
    break;
  }
  if (!isPtr && !verGlobal.empty()) {
    auto g = verGlobal.find(ver);
    i128 k;
    if (g != verGlobal.end() && isConst(off, &k)) { bool ok; Value v = initLoad(g->second, (i64)k, nbytes, false, &ok); if (ok) return v; }
  }
  if (isPtr) return vptr(OBJ_TOP, cst(0));
  if (watchOn && !watch.empty()) {
    auto w = watch.find(ver);
    if (w != watch.end()) for (auto& g : w->second) {
      auto it = s.ghost.find(g);
      if (it == s.ghost.end()) continue;
      L d = s.n.norm(lin::sub(off, it->second.e));
      if (s.n.entailsGE(addc(d, -1)) || s.n.entailsGE(addc(mulc(d, -1), -1)) || s.n.entailsEQ(d)) {
        auto vg = s.ghost.find("v" + g);
        if (watchCanon && nbytes == 1 && vg != s.ghost.end() && s.n.entailsEQ(d)) return vint(vg->second.e, 8);
        continue;
      }
      NeedSplit sp;
      sp.cases.push_back({{Constraint::EQ, d}});
      sp.cases.push_back({{Constraint::GE, addc(d, -1)}});
      sp.cases.push_back({{Constraint::GE, addc(mulc(d, -1), -1)}});
      sp.why = "watched offset";
      throw sp;
    }
  }
  i128 lo, hi;
  elemRange(nbytes, &lo, &hi);
  // congruence: an existing load of the same version at a provably equal offset
  Def dd{Def::Load, ver, {off}, "", nbytes};
  int a = defAtom(dd, "mem", lo, hi);
  if (!s.n.sub.empty()) {
    auto same = [&](int b) {
      if (b == a) return false;
      int d = atoms[b].def;
      if (d < 0) return false;
      const Def& D = defs[d];
      if (D.kind != Def::Load || D.ver != ver || D.n != nbytes || D.args.size() != 1 || D.args[0] == off) return false;
      return s.n.norm(D.args[0]) == off;
    };
    int other = -1;
    for (auto& b : s.n.bnd) if (same(b.a)) other = b.a;
    if (other < 0) for (L e : s.n.ge) { for (auto& q : lin::get(e).t) if (same(q.first)) other = q.first; if (other >= 0) break; }
    if (other < 0) for (auto& p : s.n.sub) if (same(p.first)) other = p.first;
    if (other >= 0) s.n.assumeEQ(lin::sub(atom(a), atom(other)));
  }
  return vint(atom(a), nbytes * 8);
}
Value Interp::readCell(State& s, int obj, L off, int nbytes, bool isPtr) {
  const Obj* o = get(s, obj);
  if (!o) throw PathEnd();
  off = s.n.norm(off);
  i128 c;
  // vtable pointer of an external object, and its entries: marker
  if (!o->ext.empty() && isConst(off, &c) && c >= 0 && c % 8 == 0 && isPtr) return vptr(obj, off);
  if (isConst(off, &c)) {
    i64 k = (i64)c;
    auto it = o->cells.find(k);
    if (it != o->cells.end()) {
      const Value& v = it->second;
      int vb = v.k == VInt ? (v.w + 7) / 8 : 8;
      if (v.k == VUnk || v.k == VUndef) vb = v.w ? (v.w + 7) / 8 : nbytes;
      if (vb >= nbytes) return asKind(s, *this, v, nbytes, isPtr);
    }
    // overlapping cell?
    for (auto& cc : o->cells) {
      int vb = cc.second.k == VInt ? (cc.second.w + 7) / 8 : 8;
      if (cc.second.k == VUnk || cc.second.k == VUndef) vb = cc.second.w ? (cc.second.w + 7) / 8 : 8;
      if (cc.first < k + nbytes && k < cc.first + vb) {
        // extract a byte field from a constant
        i128 cv;
        if (cc.first <= k && cc.second.k == VInt && isConst(s.n.norm(cc.second.e), &cv) && k + nbytes <= cc.first + vb) {
          unsigned __int128 u = (unsigned __int128)cv;
          u >>= 8 * (k - cc.first);
          u &= (((unsigned __int128)1) << (8 * nbytes)) - 1;
          return isPtr ? (u == 0 ? vnull() : vptr(OBJ_TOP, cst(0))) : vcst((i128)u, nbytes * 8);
        }
        // concatenation of constants (memcpy'd smaller cells)
        unsigned __int128 acc = 0;
        bool good = nbytes <= 8;
        for (int b = 0; good && b < nbytes;) {
          auto j = o->cells.find(k + b);
          if (j == o->cells.end() || j->second.k != VInt || !isConst(s.n.norm(j->second.e), &cv)) { good = false; break; }
          int jb = j->second.w / 8;
          unsigned __int128 m = ((unsigned __int128)cv) & ((((unsigned __int128)1) << (8 * jb)) - 1);
          acc |= m << (8 * b);
          b += jb;
          if (b > nbytes) good = false;
        }
        if (good && !isPtr) return vcst((i128)acc, nbytes * 8);
        return isPtr ? vptr(OBJ_TOP, cst(0)) : vunk(nbytes * 8);
      }
    }
    if (o->ver >= 0) {
      Value v = readVer(s, o->ver, off, nbytes, isPtr);
      if (o->summ >= 0 && nbytes == o->summN && v.k == VInt && lin::get(v.e).t.size() == 1 && atoms[lin::get(v.e).t[0].first].def >= 0)
        instSummary(s, o, lin::get(v.e).t[0].first);
      return v;
    }
    if (o->gv) {
      bool ok;
      Value v = initLoad(o->gv, k, nbytes, isPtr, &ok);
      if (ok) return v;
      return isPtr ? vptr(OBJ_TOP, cst(0)) : vunk(nbytes * 8);
    }
    if (o->fill == 0) return isPtr ? vnull() : vcst(0, nbytes * 8);
    Value u; u.k = VUndef; u.w = (uint8_t)(nbytes * 8); u.e = cst(0);
    return u;
  }
  // symbolic offset
  if (o->gv && o->cells.empty() && o->ver < 0 && o->gv->hasInitializer() && o->gv->isConstant()) {
    i128 lo, hi;
    s.n.ival(off, &lo, &hi);
    i128 sz = constOf(o->size);
    if (lo < 0) lo = 0;
    if (hi > sz - nbytes) hi = sz - nbytes;
    bool ok = true;
    i128 mn = kInf, mx = -kInf;
    if (!isPtr && hi - lo < 70000) {
      // stride = gcd of coefficients
      i128 g = 0;
      for (auto& p : lin::get(off).t) g = gcd128(g, p.second);
      if (g < 1) g = 1;
      i128 r0 = ((lin::get(off).c % g) + g) % g;
      for (i128 x = lo; x <= hi && ok; ++x) {
        if (((x % g) + g) % g != r0) continue;
        Value v = initLoad(o->gv, (i64)x, nbytes, false, &ok);
        if (ok && v.k == VInt && isConst(v.e)) {
          i128 cv = constOf(v.e);
          if (nbytes > 2 && cv >= pow2(nbytes * 8 - 1)) cv -= pow2(nbytes * 8);
          mn = std::min(mn, cv); mx = std::max(mx, cv);
        } else ok = false;
      }
    } else ok = false;
    Def dd{Def::Load, -1000 - o->id, {off}, "", nbytes};
    i128 elo, ehi;
    elemRange(nbytes, &elo, &ehi);
    if (isPtr) return vptr(OBJ_TOP, cst(0));
    int a = defAtom(dd, "gmem", elo, ehi);
    if (ok && mn <= mx) { s.n.assumeGE(addc(atom(a), -mn)); s.n.assumeGE(lin::sub(cst(mx), atom(a))); }
    return vint(atom(a), nbytes * 8);
  }
  {
    Obj* m = mut(s, obj);
    if (m->ver < 0 && m->fill == 0 && m->cells.empty()) {
      VerT v{};
      v.k = VerT::Fill; v.base = fillBase(); v.off = cst(0); v.len = m->size; v.val = vcst(0, 8); v.n = 1; v.src = -1; v.srcOff = cst(0);
      m->ver = newVer(v);
    }
    if (m->ver < 0) m->ver = baseVer(m->name);
    flush(m);
    Value v = readVer(s, m->ver, off, nbytes, isPtr);
    if (m->summ >= 0 && nbytes == m->summN && v.k == VInt && lin::get(v.e).t.size() == 1 && atoms[lin::get(v.e).t[0].first].def >= 0)
      instSummary(s, m, lin::get(v.e).t[0].first);
    return v;
  }
}
Value Interp::loadW(State& s, const Value& p, int nbytes, bool isPtr, bool checked) {
  if (!checked && !access(s, p, cst(nbytes), false, "load")) {
    if (p.k != VPtr || p.obj < 0) return isPtr ? vptr(OBJ_TOP, cst(0)) : vint(atom(newAtom("unk", -pow2(nbytes * 8 - 1), pow2(nbytes * 8 - 1) - 1)), nbytes * 8);
  }
  Value v = readCell(s, p.obj, p.e, nbytes, isPtr);
  if (v.k == VUnk) {
    if (isPtr) return vptr(OBJ_TOP, cst(0));
    i128 lo, hi;
    elemRange(nbytes, &lo, &hi);
    Value r = vint(atom(newAtom("unk", lo, hi)), nbytes * 8);
    // remember it so that repeated loads agree
    i128 c;
    if (isConst(s.n.norm(p.e), &c)) {
      Obj* o = mut(s, p.obj);
      auto it = o->cells.find((i64)c);
      if (it != o->cells.end() && it->second.k == VUnk && (it->second.w == nbytes * 8 || it->second.w == 0)) it->second = r;
    }
    return r;
  }
  return v;
}
Value Interp::load(State& s, const Value& p, llvm::Type* ty) {
  if (ty->isPointerTy()) return loadW(s, p, 8, true);
  if (ty->isIntegerTy()) {
    int w = (int)ty->getIntegerBitWidth();
    int nb = (w + 7) / 8;
    Value v = loadW(s, p, nb, false);
    if (v.k == VInt && w != v.w) v = vint(v.e, w);
    return v;
  }
  access(s, p, cst((i128)DL->getTypeStoreSize(ty).getFixedValue()), false, "load");
  return vunk(64);
}
void Interp::store(State& s, const Value& p, const Value& v0, int nbytes, bool checked) {
  Value v = v0;
  if (v.k == VInt && v.w < nbytes * 8) v = vint(U(s, v), nbytes * 8);
  if (!checked && !access(s, p, cst(nbytes), true, "store")) {
    if (p.k != VPtr || p.obj < 0) { if (s.imprecise.empty()) s.imprecise = "store through untracked pointer at " + loc(); return; }
  }
  if (spec) spec->onStore(*this, s, p, v, nbytes);
  L off = s.n.norm(p.e);
  Obj* o = mut(s, p.obj);
  i128 c;
  if (isConst(off, &c) && o->ver < 0) {
    i64 k = (i64)c;
    for (auto it = o->cells.begin(); it != o->cells.end();) {
      int vb = it->second.k == VInt ? (it->second.w + 7) / 8 : 8;
      if (it->second.k == VUnk || it->second.k == VUndef) vb = it->second.w ? (it->second.w + 7) / 8 : 8;
      if (it->first < k + nbytes && k < it->first + vb) {
        if (it->first != k || vb > nbytes) {
          // partially overwritten: split constants into bytes, else forget
          Value ov = it->second;
          i64 of = it->first;
          it = o->cells.erase(it);
          i128 cv;
          if (ov.k == VInt && isConst(s.n.norm(ov.e), &cv))
            for (int b = 0; b < vb; ++b)
              if (of + b < k || of + b >= k + nbytes) o->cells[of + b] = vcst((i128)((((unsigned __int128)cv) >> (8 * b)) & 255), 8);
          if (!(ov.k == VInt && isConst(s.n.norm(ov.e), &cv)))
            for (int b = 0; b < vb; ++b)
              if (of + b < k || of + b >= k + nbytes) o->cells[of + b] = vunk(8);
          it = o->cells.begin();
          continue;
        }
        it = o->cells.erase(it);
      } else ++it;
    }
    if (v.k == VUndef) { v = vunk(nbytes * 8); v.k = VUndef; }
    if (v.k == VInt) v.w = (uint8_t)(nbytes * 8);
    o->cells[k] = v;
    weakUpdate(s, o, v, nbytes);
    return;
  }
  if (o->ver < 0) {
    if (o->fill == 0) {
      VerT f{};
      f.k = VerT::Fill; f.base = fillBase(); f.off = cst(0); f.len = o->size; f.val = vcst(0, 8); f.n = 1; f.src = -1; f.srcOff = cst(0);
      o->ver = newVer(f);
    } else o->ver = baseVer(o->name);
  }
  flush(o);
  weakUpdate(s, o, v, nbytes);
  if (v.k == VUndef || v.k == VUnk) { o->ver = baseVer(o->name); return; }
  VerT t{};
  t.k = VerT::Store; t.base = o->ver; t.off = off; t.len = cst(nbytes); t.val = v; t.n = nbytes; t.src = -1; t.srcOff = cst(0);
  if (t.val.k == VInt) t.val.e = s.n.norm(t.val.e);
  o->ver = newVer(t);
}
void Interp::havocContent(State& s, int obj, const std::string& why) {
  Obj* o = mut(s, obj);
  o->cells.clear();
  o->ver = baseVer(o->name);
  o->summ = -1;
  (void)why;
}
void Interp::copyMem(State& s, const Value& dst, const Value& src, L n) {
  access(s, src, n, false, "memcpy source");
  access(s, dst, n, true, "memcpy destination");
  if (s.n.entailsEQ(n)) return;
  if (dst.k != VPtr || dst.obj < 0) return;
  i128 nc, so, dn;
  if (src.k == VPtr && src.obj >= 0) {
    const Obj* o = get(s, src.obj);
    L soff = s.n.norm(src.e), doff = s.n.norm(dst.e);
    n = s.n.norm(n);
    const Obj* od = get(s, dst.obj);
    if (isConst(n, &nc) && isConst(soff, &so) && isConst(doff, &dn) && o->ver < 0 && od->ver < 0) {
      // cell-wise copy
      std::vector<std::pair<i64, Value>> cp;
      if (o->gv && o->cells.empty() && nc <= 4096) {
        if (o->gv->isConstant() && nc > 64) goto generic;
        for (i128 b = 0; b < nc; ++b) {
          bool ok;
          Value v = initLoad(o->gv, (i64)(so + b), 1, false, &ok);
          if (!ok) goto generic;
          cp.push_back({(i64)(dn + b), v});
        }
      } else {
        if (o->fill == 0 && nc > 64 && o->cells.empty()) {
          Obj* m = mut(s, dst.obj);
          i128 sz;
          if (isConst(m->size, &sz) && dn == 0 && sz == nc) { m->cells.clear(); m->fill = 0; m->summ = -1; return; }
        }
        for (auto& c : o->cells) if (c.first >= so && c.first < so + nc) cp.push_back({(i64)(c.first - so + dn), c.second});
      }
      Obj* m = mut(s, dst.obj);
      m->summ = -1;
      for (auto it = m->cells.begin(); it != m->cells.end();) {
        if (it->first >= dn && it->first < dn + nc) it = m->cells.erase(it);
        else ++it;
      }
      for (auto& c : cp) m->cells[c.first] = c.second;
      return;
    }
  generic:
    {
      int sv;
      i128 gsz;
      if (o->gv && o->cells.empty() && o->ver < 0 && o->gv->isConstant() && o->gv->hasInitializer() && isConst(o->size, &gsz) && gsz <= 64) {
        int& v = literalVer[src.obj];     // (a literal: not part of the state)
        if (!v) { v = baseVer(o->name) + 1; verGlobal[v - 1] = o->gv; }
        sv = v - 1;
      } else if (o->gv && o->cells.empty() && o->ver < 0) {
        Obj* m = mut(s, src.obj);
        m->ver = baseVer(m->name);   // opaque but shared content
        if (m->gv->isConstant() && m->gv->hasInitializer()) verGlobal[m->ver] = m->gv;
        sv = m->ver;
        gheap[src.obj] = std::make_shared<Obj>(*m);
      } else {
        Obj* m = mut(s, src.obj);
        if (m->ver < 0) {
          if (m->fill == 0) {
            VerT f{};
            f.k = VerT::Fill; f.base = fillBase(); f.off = cst(0); f.len = m->size; f.val = vcst(0, 8); f.n = 1; f.src = -1; f.srcOff = cst(0);
            m->ver = newVer(f);
          } else m->ver = baseVer(m->name);
        }
        flush(m);
        sv = m->ver;
      }
      Obj* m = mut(s, dst.obj);
      if (m->ver < 0) m->ver = baseVer(m->name);
      flush(m);
      m->summ = -1;
      VerT t{};
      t.k = VerT::Copy; t.base = m->ver; t.off = doff; t.len = n; t.src = sv; t.srcOff = soff; t.n = 1; t.val = vcst(0, 8);
      m->ver = newVer(t);
      return;
    }
  }
  havocContent(s, dst.obj, "copy from untracked source");
}
void Interp::fillMem(State& s, const Value& dst, L byte, L n) {
  access(s, dst, n, true, "memset");
  if (s.n.entailsEQ(n)) return;
  if (dst.k != VPtr || dst.obj < 0) return;
  Obj* o = mut(s, dst.obj);
  n = s.n.norm(n);
  L off = s.n.norm(dst.e);
  i128 b, sz, nc, oc;
  bool cb = isConst(s.n.norm(byte), &b);
  if (cb && (b & 255) == 0 && isConst(off, &oc) && oc == 0 && s.n.entailsEQ(lin::sub(n, o->size))) {
    o->cells.clear(); o->ver = -1; o->fill = 0; o->summ = -1;
    return;
  }
  if (cb && (b & 255) == 0 && isConst(off, &oc) && isConst(n, &nc) && nc <= 64 && o->ver < 0 && isConst(o->size, &sz)) {
    for (auto it = o->cells.begin(); it != o->cells.end();) {
      if (it->first >= oc && it->first < oc + nc) it = o->cells.erase(it);
      else ++it;
    }
    i128 k = 0;
    while (k < nc) {
      int st = (nc - k >= 8 && (oc + k) % 8 == 0) ? 8 : (nc - k >= 4 && (oc + k) % 4 == 0) ? 4 : 1;
      o->cells[(i64)(oc + k)] = vcst(0, st * 8);
      k += st;
    }
    return;
  }
  if (o->ver < 0) o->ver = baseVer(o->name);
  flush(o);
  o->summ = -1;
  VerT t{};
  t.k = VerT::Fill; t.base = o->ver; t.off = off; t.len = n; t.val = vint(byte, 8); t.n = 1; t.src = -1; t.srcOff = cst(0);
  o->ver = newVer(t);
}
void Interp::freeObj(State& s, const Value& p) {
  if (p.k == VPtr && p.obj == OBJ_NULL) return;
  if (p.k != VPtr || p.obj == OBJ_TOP) { if (s.imprecise.empty()) s.imprecise = "delete of untracked pointer at " + loc(); return; }
  const Obj* o = get(s, p.obj);
  if (memObs) oblige(s, prop, "delete: object live", o && o->alive && !o->gv, "double free or free of non-heap object");
  if (!o || !o->alive) throw PathEnd();
  Obj* m = mut(s, p.obj);
  m->alive = false;
  m->cells.clear();
  m->ver = -1;
  m->summ = -1;
}
Value Interp::mkInput(State& s, const std::string& name, L size, bool ro) {
  int id = fresh(s, name, size);
  Obj* o = mut(s, id);
  o->ro = ro;
  o->ver = baseVer(name);
  return vptr(id, cst(0));
}
