// Joins, widening, inclusion tests and garbage collection of abstract states.
#include "interp.hpp"
#include "finfo.hpp"
using namespace lin;

std::string Interp::extMethod(const std::string& cls, int slot) {
  auto it = extTables.find(cls);
  if (it == extTables.end() || slot < 0 || slot >= (int)it->second.size()) throw Broken{"no virtual table for " + cls};
  return it->second[slot];
}

static void flatten(Interp& in, const std::vector<Value>& v, std::vector<Value>* out);
// Values of the calling frames that are live after the active calls (flattened, without duplicates).
// They are the same in every state of the current activation.
static const std::vector<Value>& frameRoots(Interp& in) {
  static std::vector<Value> none;
  // all frames below the innermost one are suspended at a call
  size_t n = in.stack.size();
  if (n == 0) return none;
  auto& f = in.stack[n - 1];
  if (!f.roots) {
    f.roots = std::make_shared<std::vector<Value>>();
    std::vector<Value> r;
    for (size_t i = 0; i + 1 < n; ++i) {
      auto& g = in.stack[i];
      if (!g.at || !g.env) continue;
      auto it = in.finfo.find(g.F);
      if (it == in.finfo.end()) continue;
      for (int k : it->second->liveAfter(g.at)) {
        const Value& v = (*g.env)[k];
        if (v.k == VInt && lin::isConst(v.e)) continue;
        if (v.k == VUndef || v.k == VUnk || v.k == VFn) continue;
        r.push_back(v);
      }
    }
    std::vector<Value> fl;
    flatten(in, r, &fl);
    std::set<std::tuple<int, int, int, int>> seen;
    for (auto& v : fl) if (seen.insert(std::make_tuple((int)v.k, (int)v.w, v.obj, v.e)).second) f.roots->push_back(v);
  }
  return *f.roots;
}
static std::vector<Value> rootsOf(Interp& in, State& s, const Env* env, const std::vector<int>* live, const Value* extra) {
  std::vector<Value> r;
  if (env && live) for (int i : *live) r.push_back((*env)[i]);
  if (extra) r.push_back(*extra);
  auto& fr = frameRoots(in);
  r.insert(r.end(), fr.begin(), fr.end());
  for (auto& v : in.extraRoots) r.push_back(v);
  for (auto& g : s.ghost) r.push_back(g.second);
  return r;
}
static void flatten(Interp& in, const std::vector<Value>& v, std::vector<Value>* out) {
  for (auto& x : v) {
    if (x.k == VAgg) flatten(in, in.aggs[x.obj], out);
    else out->push_back(x);
  }
}
const VerT& verInfo(int v);

static void verAtoms(Interp& in, int ver, std::set<int>* at, std::set<int>* seen, std::vector<int>* objs, int depth = 0) {
  while (ver >= 0 && seen->insert(ver).second) {
    const VerT& v = verInfo(ver);
    if (v.k == VerT::Base) return;
    for (L e : {v.off, v.len, v.srcOff}) for (auto& p : lin::get(e).t) at->insert(p.first);
    if (v.k != VerT::Copy) {
      if (v.val.k == VInt) for (auto& p : lin::get(v.val.e).t) at->insert(p.first);
      if (v.val.k == VPtr && v.val.obj >= 0) objs->push_back(v.val.obj);
    }
    if (v.k == VerT::Copy) verAtoms(in, v.src, at, seen, objs, depth + 1);
    ver = v.base;
  }
}

static void reach(Interp& in, State& s, const std::vector<Value>& roots, std::set<int>* objs, std::set<int>* at) {
  std::vector<Value> fl;
  flatten(in, roots, &fl);
  std::vector<int> work;
  std::set<int> seenVer;
  auto visit = [&](const Value& v) {
    if (v.k == VInt) for (auto& p : lin::get(v.e).t) at->insert(p.first);
    if (v.k == VPtr) {
      for (auto& p : lin::get(v.e).t) at->insert(p.first);
      if (v.obj >= 0 && objs->insert(v.obj).second) work.push_back(v.obj);
    }
  };
  for (auto& v : fl) visit(v);
  for (auto& h : s.heap) if (h.second->gv) if (objs->insert(h.first).second) work.push_back(h.first);
  while (!work.empty()) {
    int id = work.back();
    work.pop_back();
    auto it = s.heap.find(id);
    if (it == s.heap.end()) continue;
    const Obj* o = it->second.get();
    if (!o->alive) continue;
    for (auto& p : lin::get(o->size).t) at->insert(p.first);
    for (auto& c : o->cells) visit(c.second);
    if (o->summ >= 0) at->insert(o->summ);
    if (o->ver >= 0) {
      std::vector<int> ob;
      verAtoms(in, o->ver, at, &seenVer, &ob);
      for (int x : ob) if (objs->insert(x).second) work.push_back(x);
    }
  }
  for (auto& r : s.eqr) for (L e : {r.oa, r.ob, r.len}) for (auto& p : lin::get(e).t) at->insert(p.first);
}

void Interp::gcState(State& s, const Env* env, const std::vector<int>* live, const Value* extra) {
  std::set<int> objs, at;
  std::vector<Value> r = rootsOf(*this, s, env, live, extra);
  // allocas of active frames that are only reachable through dead SSA values may go
  reach(*this, s, r, &objs, &at);
  for (auto it = s.heap.begin(); it != s.heap.end();) {
    if (!objs.count(it->first)) it = s.heap.erase(it);
    else ++it;
  }
  for (auto& a : addrAtoms) if (objs.count(a.first)) at.insert(a.second);
  if (keepLoads) {
    std::set<int> vers;
    for (auto& h : s.heap) if (h.second->ver >= 0) vers.insert(h.second->ver);
    auto consider = [&](int a) {
      if (at.count(a)) return;
      int d = atoms[a].def;
      if (d < 0 || defs[d].kind != Def::Load || !vers.count(defs[d].ver)) return;
      for (L o : defs[d].args) {
        for (auto& q : lin::get(o).t) if (!at.count(q.first)) return;
      }
      at.insert(a);
    };
    for (auto& b : s.n.bnd) consider(b.a);
    for (auto& p : s.n.sub) consider(p.first);
    for (L e : s.n.ge) for (auto& q : lin::get(e).t) consider(q.first);
  }
  s.n.gc(at);
}

static bool cellKeyed(const Value& v, State& s, bool coarse, std::string* out) {
  if (v.k == VInt && v.w <= 8 && !coarse) {
    L n = s.n.norm(v.e);
    if (isConst(n)) { *out = "c" + i128s(constOf(n)); return true; }
  }
  return false;
}

std::string Interp::shapeKey(State& s, const Env* env, const std::vector<int>* live, bool coarse) {
  std::string k;
  std::map<int, int> num;
  std::vector<int> order;
  auto ptr = [&](const Value& v) {
    if (v.k == VFn) { k += "F" + std::to_string(v.obj); return; }
    if (v.k != VPtr) return;
    if (v.obj == OBJ_NULL) { k += "N"; return; }
    if (v.obj == OBJ_TOP) { k += "T"; return; }
    auto it = num.find(v.obj);
    if (it == num.end()) {
      const Obj* o = get(s, v.obj);
      num[v.obj] = (int)order.size();
      order.push_back(v.obj);
      k += "P" + std::to_string(order.size() - 1);
      if (!o) k += "x";
      else { if (!o->alive) k += "d"; if (o->gv) k += "g" + std::to_string(o->id); if (o->ro) k += "r"; k += std::to_string(o->site); }
    } else k += "P" + std::to_string(it->second);
  };
  std::vector<Value> fl;
  flatten(*this, rootsOf(*this, s, env, live, nullptr), &fl);
  for (auto& v : fl) {
    ptr(v);
    std::string c;
    if (v.k == VInt && (v.w == 1 || v.w == 8) && cellKeyed(v, s, false, &c) && (v.w == 1 || c == "c0" || c == "c1")) k += c;
    k += ",";
  }
  k += "|";
  for (auto& g : s.ghost) if (g.first[0] == '!') { i128 c; if (g.second.k == VInt && isConst(s.n.norm(g.second.e), &c)) k += g.first + "=" + i128s(c) + ";"; }
  for (auto& h : s.heap) if (h.second->gv) { Value v = vptr(h.first, cst(0)); ptr(v); }
  for (size_t i = 0; i < order.size(); ++i) {
    const Obj* o = get(s, order[i]);
    if (!o || !o->alive) continue;
    k += "[";
    bool small = o->cells.size() <= 200;
    for (auto& c : o->cells) {
      if (c.second.k == VPtr || c.second.k == VFn) { k += std::to_string(c.first) + ":"; ptr(c.second); k += ","; }
      else {
        std::string cc;
        if (small && o->site != 4 && cellKeyed(c.second, s, coarse, &cc)) k += std::to_string(c.first) + cc + ",";
      }
    }
    k += "]";
  }
  if (!s.imprecise.empty()) k += "~";
  if (spec) k += spec->shapeTag(*this, s);
  return k;
}

// ------------------------------------------------------------------ parallel walk
struct Slot {
  int kind;           // 0 env/root (index), 1 cell, 2 object size, 3 ghost, 4 summary, 5 ignored root
  int obj = 0;        // paired object index
  i64 key = 0;
  const std::string* g = nullptr;
  Value a, b, out;
};
struct Pairing {
  std::map<int, int> a2b, b2a;
  std::vector<std::pair<int, int>> order;
  bool pair(int a, int b) {
    auto ia = a2b.find(a);
    if (ia != a2b.end()) return ia->second == b;
    if (b2a.count(b)) return false;
    a2b[a] = b; b2a[b] = a;
    order.push_back({a, b});
    return true;
  }
};
static Value missingCell(const Obj* o, i64 k, const Value& other, Interp& in) {
  int nb = other.k == VInt ? other.w / 8 : 8;
  if (o->ver >= 0) { Value v = vunk(nb * 8); return v; }
  if (o->gv && o->cells.empty()) {
    bool ok;
    Value v = in.initLoad(o->gv, k, nb, other.k == VPtr || other.k == VFn, &ok);
    if (ok) return v;
    return vunk(nb * 8);
  }
  // an overlapping cell of another width: unknown
  for (auto& c : o->cells) {
    int w = c.second.k == VInt ? (c.second.w + 7) / 8 : 8;
    if (c.first < k + nb && k < c.first + w) return vunk(nb * 8);
  }
  if (o->gv) {
    bool ok;
    Value v = in.initLoad(o->gv, k, nb, other.k == VPtr || other.k == VFn, &ok);
    return ok ? v : vunk(nb * 8);
  }
  if (o->fill == 0) return (other.k == VPtr || other.k == VFn) ? vnull() : vcst(0, nb * 8);
  Value u; u.k = VUndef; u.w = (uint8_t)(nb * 8); u.e = cst(0);
  return u;
}
// Pairs the two object graphs.  Equal constants are not reported as slots (the caller starts from a
// copy of A's cells).  Objects physically shared by both states are reported in `shared`.
static bool walk(Interp& in, State& A, const Env* ea, State& B, const Env* eb, const std::vector<int>* live, const Value* xa, const Value* xb, Pairing* P, std::vector<Slot>* slots, std::vector<int>* shared) {
  auto pv = [&](const Value& a, const Value& b) -> bool {
    if (a.k == VPtr && b.k == VPtr && a.obj >= 0 && b.obj >= 0) {
      auto ia = P->a2b.find(a.obj);
      if (ia != P->a2b.end()) return ia->second == b.obj;
      const Obj* oa = in.get(A, a.obj);
      const Obj* ob = in.get(B, b.obj);
      if (oa != ob) {
        if (!oa != !ob) return false;
        if (oa && ob && (oa->alive != ob->alive || oa->gv != ob->gv || oa->ext != ob->ext || oa->ro != ob->ro)) return false;
      }
      return P->pair(a.obj, b.obj);
    }
    return true;
  };
  auto add = [&](int kind, int obj, i64 key, const std::string* g, const Value& a, const Value& b) -> bool {
    if (!pv(a, b)) return false;
    slots->emplace_back();
    Slot& s = slots->back();
    s.kind = kind; s.obj = obj; s.key = key; s.g = g; s.a = a; s.b = b;
    return true;
  };
  for (auto& v : frameRoots(in)) if (!add(5, 0, 0, nullptr, v, v)) return false;
  for (auto& v : in.extraRoots) if (!add(5, 0, 0, nullptr, v, v)) return false;
  {
    if (A.ghost.size() != B.ghost.size()) return false;
    auto ia = A.ghost.begin(), ib = B.ghost.begin();
    for (; ia != A.ghost.end(); ++ia, ++ib) {
      if (ia->first != ib->first) return false;
      if (!add(3, 0, 0, &ia->first, ia->second, ib->second)) return false;
    }
  }
  if (ea && eb && live)
    for (int i : *live) {
      if ((*ea)[i].k == VAgg || (*eb)[i].k == VAgg) { if ((*ea)[i] == (*eb)[i]) { add(0, 0, i, nullptr, (*ea)[i], (*eb)[i]); continue; } return false; }
      if (!add(0, 0, i, nullptr, (*ea)[i], (*eb)[i])) return false;
    }
  if (xa && xb) { if (xa->k == VAgg) { if (!(*xa == *xb)) return false; } if (!add(0, 0, -1, nullptr, *xa, *xb)) return false; }
  std::set<int> gs;
  for (auto& h : A.heap) if (h.second->gv) gs.insert(h.first);
  for (auto& h : B.heap) if (h.second->gv) gs.insert(h.first);
  for (int g : gs) if (!P->pair(g, g)) return false;
  for (size_t i = 0; i < P->order.size(); ++i) {
    int ia = P->order[i].first, ib = P->order[i].second;
    const Obj* oa = in.get(A, ia);
    const Obj* ob = in.get(B, ib);
    if (!oa || !ob) { if (ia != ib) return false; continue; }
    if (!oa->alive) continue;
    if (oa == ob) {
      // shared: all slots coincide
      if (shared) shared->push_back((int)i);
      bool ok = true;
      for (auto& c : oa->cells) if (c.second.k == VPtr && c.second.obj >= 0) if (!pv(c.second, c.second)) { ok = false; break; }
      if (!ok) return false;
      continue;
    }
    if (!oa->gv && oa->size != ob->size) if (!add(2, (int)i, 0, nullptr, vint(oa->size, 0), vint(ob->size, 0))) return false;
    if (!oa->gv && oa->size == ob->size && !lin::isConst(oa->size)) if (!add(2, (int)i, 0, nullptr, vint(oa->size, 0), vint(ob->size, 0))) return false;
    auto ca = oa->cells.begin(), cb = ob->cells.begin();
    while (ca != oa->cells.end() || cb != ob->cells.end()) {
      i64 k;
      Value va, vb;
      if (cb == ob->cells.end() || (ca != oa->cells.end() && ca->first < cb->first)) { k = ca->first; va = ca->second; vb = missingCell(ob, k, va, in); ++ca; }
      else if (ca == oa->cells.end() || cb->first < ca->first) { k = cb->first; vb = cb->second; va = missingCell(oa, k, vb, in); ++cb; }
      else {
        k = ca->first; va = ca->second; vb = cb->second; ++ca; ++cb;
        if (va == vb && (va.k == VFn || (va.k == VInt && lin::isConst(va.e)))) continue;
      }
      if (!add(1, (int)i, k, nullptr, va, vb)) return false;
    }
    if (oa->summ >= 0 && ob->summ >= 0 && oa->summN == ob->summN) if (!add(4, (int)i, 0, nullptr, vint(atom(oa->summ), 0), vint(atom(ob->summ), 0))) return false;
  }
  return true;
}
// distinct non-constant expressions stored in an object
static void exprsOf(const Obj* o, std::set<L>* out) {
  if (!lin::isConst(o->size)) out->insert(o->size);
  for (auto& c : o->cells) if ((c.second.k == VInt || c.second.k == VPtr) && !lin::isConst(c.second.e)) out->insert(c.second.e);
  if (o->summ >= 0) out->insert(atom(o->summ));
}

// cheap distance between two states (a heuristic for choosing what to join)
int Interp::diffCount(State& A, const Env* ea, State& B, const Env* eb, const std::vector<int>* live) {
  int n = 0;
  auto cmp = [&](const Value& a, const Value& b) {
    if (a == b) return;
    if (a.k != b.k) { n += 3; return; }
    if (a.k == VInt || a.k == VPtr) { if (A.n.norm(a.e) != B.n.norm(b.e)) ++n; }
  };
  if (ea && eb && live) for (int i : *live) cmp((*ea)[i], (*eb)[i]);
  for (auto ia = A.ghost.begin(), ib = B.ghost.begin(); ia != A.ghost.end() && ib != B.ghost.end(); ++ia, ++ib) cmp(ia->second, ib->second);
  for (auto& h : A.heap) {
    auto it = B.heap.find(h.first);
    if (it == B.heap.end()) { ++n; continue; }
    if (it->second == h.second) continue;
    const Obj* oa = h.second.get();
    const Obj* ob = it->second.get();
    if (oa->ver != ob->ver) ++n;
    auto ca = oa->cells.begin(), cb = ob->cells.begin();
    while (ca != oa->cells.end() || cb != ob->cells.end()) {
      if (cb == ob->cells.end() || (ca != oa->cells.end() && ca->first < cb->first)) { ++n; ++ca; }
      else if (ca == oa->cells.end() || cb->first < ca->first) { ++n; ++cb; }
      else { cmp(ca->second, cb->second); ++ca; ++cb; }
    }
  }
  return n;
}

// ------------------------------------------------------------------ inclusion
bool Interp::leq(State& s, const Env* es, State& d, const Env* ed, const std::vector<int>* live, int) {
  if (s.dead()) return true;
  if (!s.imprecise.empty() && d.imprecise.empty()) return false;
  Pairing P;
  std::vector<Slot> sl;
  // A = d, B = s
  std::vector<int> shared;
  if (!walk(*this, d, ed, s, es, live, nullptr, nullptr, &P, &sl, &shared)) return false;
  // quick rejection on constants
  for (auto& x : sl) {
    if (x.a.k != x.b.k || x.a.k != VInt || !lin::isConst(x.a.e)) continue;
    i128 lo, hi, c = constOf(x.a.e);
    s.n.ival(s.n.norm(x.b.e), &lo, &hi);
    if (lo > c || hi < c) { if (!(x.a.w > 0 && x.a.w < 64)) return false; if (lo == hi && (lo - c) % pow2(x.a.w) != 0) return false; }
  }
  bool reflushed = false;
  std::map<int, L> sg;          // atoms of d -> expressions of s
  std::map<int, int> vm;        // versions
  for (auto& pr : P.order) {
    const Obj* od = get(d, pr.first);
    const Obj* os = get(s, pr.second);
    if (!od || !os || !od->alive) continue;
    if (od->ver < 0 && os->ver >= 0) return false;
    if (od->ver >= 0) {
      int sv = os->ver;
      if (sv < 0) {
        if (verInfo(od->ver).k != VerT::Base) return false;
        // give the cells of s a version (no semantic change)
        Obj* m = mut(s, pr.second);
        if (m->gv && m->cells.empty()) return false;
        if (m->fill == 0) return false;
        m->ver = baseVer(m->name);
        flush(m);
        reflushed = true;
        sv = m->ver;
      } else if (!os->cells.empty() && os != od) { Obj* m = mut(s, pr.second); flush(m); sv = m->ver; reflushed = true; }
      if (od->ver != sv && verInfo(od->ver).k != VerT::Base) return false;
      auto it = vm.find(od->ver);
      if (it != vm.end() && it->second != sv) return false;
      vm[od->ver] = sv;
    }
    if (od->fill != os->fill && od->ver < 0) return false;
    if (od->summ >= 0 && os->summ < 0) return false;
  }
  // slots may have changed kinds through flush: recompute
  if (reflushed) {
    sl.clear();
    shared.clear();
    P = Pairing();
    if (!walk(*this, d, ed, s, es, live, nullptr, nullptr, &P, &sl, &shared)) return false;
  }
  {
    std::set<L> ex;
    for (int i : shared) exprsOf(get(d, P.order[i].first), &ex);
    for (L e : ex) for (auto& p : lin::get(e).t) sg.emplace(p.first, atom(p.first));
  }
  std::function<bool(int, L*)> sigmaAtom;
  int depthGuard = 0;
  auto sigma = [&](L e, L* out) -> bool {
    L r = cst(lin::get(e).c);
    std::vector<std::pair<int, i128>> t = lin::get(e).t;
    for (auto& p : t) {
      L x;
      if (!sigmaAtom(p.first, &x)) return false;
      r = lin::add(r, mulc(x, p.second));
    }
    *out = r;
    return true;
  };
  sigmaAtom = [&](int a, L* out) -> bool {
    auto it = sg.find(a);
    if (it != sg.end()) { *out = it->second; return true; }
    if (atoms[a].def >= 0 && depthGuard < 8) {
      Def df = defs[atoms[a].def];
      ++depthGuard;
      bool ch = false, ok = true;
      std::vector<L> na;
      for (L e : df.args) { L x; if (!sigma(e, &x)) { ok = false; break; } if (x != e) ch = true; na.push_back(x); }
      --depthGuard;
      if (ok && df.kind == Def::Load && df.ver >= 0) {
        auto v = vm.find(df.ver);
        int nv = v == vm.end() ? df.ver : v->second;
        if (nv != df.ver || ch) {
          Value r = readVer(s, nv, na[0], df.n, false);
          if (r.k == VInt) { *out = r.e; sg[a] = r.e; return true; }
          return false;
        }
      } else if (ok && ch) {
        Def nd = df;
        nd.args = na;
        for (auto& e : nd.args) e = s.n.norm(e);
        int x = defAtom(nd, atoms[a].name, atoms[a].lo, atoms[a].hi);
        *out = atom(x); sg[a] = *out;
        return true;
      }
    }
    *out = atom(a);
    return true;
  };
  // pass 1: identical slots fix their atoms; pass 2: solve
  std::vector<Slot*> rest;
  for (auto& x : sl) {
    if (x.a.k != x.b.k) {
      if (x.a.k == VUnk) continue;
      if (x.a.k == VUndef) return false;
      return false;
    }
    if (x.a.k == VInt) { if (x.a.w != x.b.w) return false; }
    else if (x.a.k == VFn) { if (x.a.obj != x.b.obj) return false; continue; }
    else if (x.a.k == VPtr) {
      if (x.a.obj == OBJ_TOP) { if (x.b.obj != OBJ_TOP) return false; continue; }
      if ((x.a.obj < 0 || x.b.obj < 0) && x.a.obj != x.b.obj) return false;
    } else continue;
    rest.push_back(&x);
  }
  // identity assignments for values of enclosing frames and slots that coincide
  for (auto* x : rest) if (x->kind == 5 && x->a.e == x->b.e) for (auto& p : lin::get(x->a.e).t) sg.emplace(p.first, atom(p.first));
  std::vector<Slot*> todo = rest, nxt;
  for (int round = 0; round < 6 && !todo.empty(); ++round) {
    nxt.clear();
    for (auto* x : todo) {
      L da = round == 0 ? x->a.e : x->a.e;
      L sb = s.n.norm(x->b.e);
      // unassigned, non-derived atoms
      int un = -1; int cnt = 0;
      L nd = d.n.norm(da);
      for (auto& p : lin::get(nd).t) if (!sg.count(p.first) && atoms[p.first].def < 0) { ++cnt; un = p.first; }
      if (cnt == 0) continue;
      if (cnt == 1) {
        i128 k = coef(nd, un);
        if (k == 1 || k == -1) {
          L restE = substAtom(nd, un, cst(0)), rs;
          if (!sigma(restE, &rs)) return false;
          L v = lin::sub(sb, rs);
          if (k == -1) v = mulc(v, -1);
          sg[un] = s.n.norm(v);
          continue;
        }
      }
      nxt.push_back(x);
    }
    if (nxt.size() == todo.size()) {
      // no progress: fix one atom to itself
      for (auto* x : nxt) {
        L nd = d.n.norm(x->a.e);
        bool did = false;
        for (auto& p : lin::get(nd).t) if (!sg.count(p.first) && atoms[p.first].def < 0) { sg[p.first] = atom(p.first); did = true; break; }
        if (did) break;
      }
    }
    todo = nxt;
  }
  // atoms with substitutions in d: their image is the image of the right-hand side
  for (auto& p : d.n.sub) if (!sg.count(p.first) && atoms[p.first].def < 0) { L x; if (!sigma(p.second, &x)) return false; sg[p.first] = x; }
  for (auto* x : rest) {
    L v;
    if (!sigma(x->a.e, &v)) return false;
    L diff = s.n.norm(lin::sub(v, x->b.e));
    i128 c;
    if (isConst(diff, &c)) {
      if (c == 0) continue;
      if (x->a.k == VInt && x->a.w > 0 && x->a.w < 64 && c % pow2(x->a.w) == 0) continue;
      return false;
    }
    if (!s.n.entailsEQ(diff)) return false;
  }
  // intrinsic ranges and facts
  for (auto& p : sg) {
    if (p.second == atom(p.first)) continue;
    const AtomInfo& ai = atoms[p.first];
    if (ai.lo > -kInf && !s.n.entailsGE(addc(p.second, -ai.lo))) return false;
    if (ai.hi < kInf && !s.n.entailsGE(lin::sub(cst(ai.hi), p.second))) return false;
  }
  for (auto& b : d.n.bnd) {
    L x;
    if (!sigmaAtom(b.a, &x)) return false;
    if (b.lo > -kInf && !s.n.entailsGE(addc(x, -b.lo))) return false;
    if (b.hi < kInf && !s.n.entailsGE(lin::sub(cst(b.hi), x))) return false;
  }
  for (auto& p : d.n.sub) {
    L x, y;
    if (!sigmaAtom(p.first, &x) || !sigma(p.second, &y)) return false;
    if (!s.n.entailsEQ(lin::sub(x, y))) return false;
  }
  for (L e : d.n.ge) { L x; if (!sigma(e, &x)) return false; if (!s.n.entailsGE(x)) return false; }
  for (L e : d.n.ne) { L x; if (!sigma(e, &x)) return false; if (!s.n.entailsNE(x)) return false; }
  for (auto& r : d.eqr) {
    bool f = false;
    L oa, ob, ln;
    if (!sigma(r.oa, &oa) || !sigma(r.ob, &ob) || !sigma(r.len, &ln)) return false;
    auto mv = [&](int v) { auto it = vm.find(v); return it == vm.end() ? v : it->second; };
    for (auto& q : s.eqr)
      if (q.va == mv(r.va) && q.vb == mv(r.vb) && s.n.entailsEQ(lin::sub(q.oa, oa)) && s.n.entailsEQ(lin::sub(q.ob, ob)) && s.n.entailsEQ(lin::sub(q.len, ln))) f = true;
    if (!f) return false;
  }
  return true;
}

// ------------------------------------------------------------------ join
bool Interp::joinStates(State& A, Env* ea, State& B, Env* eb, const std::vector<int>* live, bool widen, State* C, Env* ec, int* nd) {
  ++joins;
  if (widen) ++widens;
  Pairing P;
  std::vector<Slot> sl;
  const Value *xa = nullptr, *xb = nullptr;
  if (!live && ea && eb && ea->size() == 1) { xa = &(*ea)[0]; xb = &(*eb)[0]; }
  std::vector<int> shared;
  if (!walk(*this, A, ea, B, eb, live, xa, xb, &P, &sl, &shared)) return false;
  if (nd) *nd = 0;
  // objects of C
  C->heap.clear();
  C->ghost.clear();
  C->eqr.clear();
  std::map<int, int> ida;      // id in A -> id in C
  std::set<int> usedIds;
  for (auto& pr : P.order) if (pr.first == pr.second) usedIds.insert(pr.first);
  std::vector<int> cid(P.order.size());
  for (size_t i = 0; i < P.order.size(); ++i) {
    auto& pr = P.order[i];
    if (pr.first == pr.second) cid[i] = pr.first;
    else if (!usedIds.count(pr.first)) { cid[i] = pr.first; usedIds.insert(pr.first); }
    else { cid[i] = nextObj++; usedIds.insert(cid[i]); }
    ida[pr.first] = cid[i];
  }
  std::vector<std::pair<std::pair<int, int>, int>> verPairs;
  auto joinVer = [&](int va, int vb, const std::string& nm) {
    if (va == vb) return va;
    for (auto& p : verPairs) if (p.first == std::make_pair(va, vb)) return p.second;
    int v = baseVer(nm);
    verPairs.push_back({{va, vb}, v});
    return v;
  };
  for (size_t i = 0; i < P.order.size(); ++i) {
    const Obj* oa = get(A, P.order[i].first);
    const Obj* ob = get(B, P.order[i].second);
    if (!oa || !ob) continue;
    if (oa == ob) {
      // shared object: identical contents (its pointers refer to objects paired with themselves)
      if (A.heap.count(P.order[i].first)) C->heap[cid[i]] = A.heap[P.order[i].first];
      continue;
    }
    if (oa->gv && oa->cells.empty() && ob->cells.empty() && oa->ver < 0 && ob->ver < 0) {
      if (A.heap.count(P.order[i].first) || B.heap.count(P.order[i].second)) C->heap[cid[i]] = std::make_shared<Obj>(*oa);
      continue;
    }
    auto o = std::make_shared<Obj>(*oa);
    o->id = cid[i];
    if (oa->ver >= 0 || ob->ver >= 0) o->cells.clear();
    else for (auto it = o->cells.begin(); it != o->cells.end();) {
      // equal constants stay; every other cell is written back from its slot
      auto cb = ob->cells.find(it->first);
      if (cb != ob->cells.end() && it->second == cb->second && (it->second.k == VFn || (it->second.k == VInt && lin::isConst(it->second.e)))) ++it;
      else it = o->cells.erase(it);
    }
    if (oa->ver >= 0 || ob->ver >= 0) {
      int va = oa->ver, vb = ob->ver;
      bool cellsDiffer = !(oa->cells == ob->cells);
      if (va == vb && !cellsDiffer) o->ver = va;
      else if (va >= 0 && vb >= 0 && oa->cells.empty() && ob->cells.empty()) o->ver = joinVer(va, vb, oa->name);
      else if (va < 0 || vb < 0) {
        // cells on one side only: everything unknown
        o->ver = baseVer(oa->name);
      } else o->ver = va == vb ? va : joinVer(va, vb, oa->name);
      o->fill = -1;
    } else {
      if (oa->fill != ob->fill) o->fill = -1;
    }
    if (oa->summ < 0 || ob->summ < 0 || oa->summN != ob->summN) o->summ = -1;
    C->heap[cid[i]] = o;
  }
  std::vector<i128> thr = {0, 1, -1, 2, -2, 4, 5, 15, 127, 128, 255, 256, 1536, 65535, 2147483647, (i128)1 << 31, ((i128)1 << 32) - 1, (i128)1 << 32, pow2(63) - 1, pow2(64) - 1, -pow2(31), -pow2(63)};
  if (!stack.empty()) { auto fit = finfo.find(stack.back().F); if (fit != finfo.end()) thr.insert(thr.end(), fit->second->thr.begin(), fit->second->thr.end()); }
  std::sort(thr.begin(), thr.end());
  thr.erase(std::unique(thr.begin(), thr.end()), thr.end());
  // interval of an expression, refined by the relational facts at the thresholds
  auto tight = [&](const Num& n, L e, i128* lo, i128* hi) {
    n.ival(e, lo, hi);
    if (lin::get(e).t.size() < 2 || n.ge.empty()) return;
    size_t a = 0, b = thr.size();   // smallest t with e <= t, t < hi
    while (a < b) { size_t m = (a + b) / 2; if (thr[m] >= *hi || n.entailsGE(lin::sub(cst(thr[m]), e))) b = m; else a = m + 1; }
    if (a < thr.size() && thr[a] < *hi) *hi = thr[a];
    size_t c = 0, d = thr.size();   // largest t with e >= t
    while (c < d) { size_t m = (c + d) / 2; if (thr[m] <= *lo || n.entailsGE(addc(e, -thr[m]))) c = m + 1; else d = m; }
    if (c > 0 && thr[c - 1] > *lo) *lo = thr[c - 1];
  };
  // slots
  struct V { L a, b, X; L delta; bool fresh; bool basis = false; };
  std::vector<V> vars;
  std::map<std::pair<L, L>, int> byPair;
  std::map<L, int> byRaw;
  auto widthRange = [&](const Slot& s, L a, L b, i128* lo, i128* hi) {
    i128 al, ah, bl, bh;
    tight(A.n, a, &al, &ah);
    tight(B.n, b, &bl, &bh);
    i128 l = std::min(al, bl), h = std::max(ah, bh);
    int w = s.a.k == VInt ? s.a.w : 0;
    if (w == 0) { *lo = -kInf; *hi = kInf; if (l >= -pow2(63) && h < pow2(63)) { *lo = -pow2(63); *hi = pow2(63) - 1; } return; }
    i128 sl2 = -pow2(w - 1), sh = pow2(w - 1) - 1, ul = 0, uh = pow2(w) - 1;
    bool si = l >= sl2 && h <= sh, ui = l >= ul && h <= uh;
    if (w <= 16) { if (ui) { *lo = ul; *hi = uh; return; } if (si) { *lo = sl2; *hi = sh; return; } }
    else { if (si) { *lo = sl2; *hi = sh; return; } if (ui) { *lo = ul; *hi = uh; return; } }
    *lo = -kInf; *hi = kInf;
  };
  struct Pending { Slot* s; int var; };
  std::vector<Pending> pend;
  {
    std::set<L> ex;
    for (int i : shared) exprsOf(get(A, P.order[i].first), &ex);
    for (L e : ex) {
      L na = A.n.norm(e), nb = B.n.norm(e);
      if (na == nb || byRaw.count(e)) continue;
      V v; v.a = na; v.b = nb; v.X = e; v.delta = lin::sub(nb, na); v.fresh = false;
      byRaw[e] = (int)vars.size();
      byPair.emplace(std::make_pair(na, nb), (int)vars.size());
      vars.push_back(v);
    }
  }
  // raw-equal slots whose values differ keep their expression
  for (auto& s : sl) {
    s.out = s.a;
    if (s.a.k != s.b.k || (s.a.k == VInt && s.a.w != s.b.w)) {
      if (s.a.k == VUndef && s.b.k == VUndef) { s.out = s.a; continue; }
      if ((s.a.k == VPtr || s.a.k == VFn) && (s.b.k == VPtr || s.b.k == VFn)) s.out = vptr(OBJ_TOP, cst(0));
      else { int w = s.a.w ? s.a.w : s.b.w; s.out = vunk(w); }
      continue;
    }
    if (s.a.k == VFn) { if (s.a.obj != s.b.obj) s.out = vptr(OBJ_TOP, cst(0)); continue; }
    if (s.a.k == VPtr) {
      if (s.a.obj < 0 || s.b.obj < 0) { if (s.a.obj != s.b.obj) { s.out = vptr(OBJ_TOP, cst(0)); continue; } if (s.a.obj == OBJ_TOP) continue; }
      else s.out.obj = ida[s.a.obj];
    } else if (s.a.k != VInt) continue;
    L na = A.n.norm(s.a.e), nb = B.n.norm(s.b.e);
    if (na == nb && s.a.e != s.b.e) { s.out.e = na; continue; }
    if (s.a.e == s.b.e) {
      if (na != nb && !byRaw.count(s.a.e)) {
        V v; v.a = na; v.b = nb; v.X = s.a.e; v.delta = lin::sub(nb, na); v.fresh = false;
        byRaw[s.a.e] = (int)vars.size();
        byPair.emplace(std::make_pair(na, nb), (int)vars.size());
        vars.push_back(v);
      }
      continue;
    }
  }
  for (auto& s : sl) {
    if (s.a.k != s.b.k || (s.a.k != VInt && s.a.k != VPtr) || (s.a.k == VInt && s.a.w != s.b.w)) continue;
    if (s.a.k == VPtr && (s.a.obj < 0 || s.b.obj < 0) && (s.a.obj != s.b.obj || s.a.obj == OBJ_TOP)) continue;
    if (s.a.e == s.b.e) continue;
    L na = A.n.norm(s.a.e), nb = B.n.norm(s.b.e);
    if (na == nb) continue;
    if (s.kind == 5) return false;   // frames hold the same values
    if (nd) ++*nd;
    auto it = byPair.find({na, nb});
    if (it != byPair.end() && s.kind != 4) { pend.push_back({&s, it->second}); continue; }
    V v; v.a = na; v.b = nb; v.delta = lin::sub(nb, na); v.fresh = true;
    i128 lo, hi;
    widthRange(s, na, nb, &lo, &hi);
    v.X = atom(newAtom(s.kind == 4 ? "elem" : "j", lo, hi));
    if (s.kind != 4) byPair[{na, nb}] = (int)vars.size();
    pend.push_back({&s, (int)vars.size()});
    vars.push_back(v);
  }
  // linear relations between the differences
  std::vector<int> order(vars.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = (int)i;
  auto cost = [&](const V& v) {
    i128 s = (i128)lin::get(v.delta).t.size() * 1000 + (v.fresh ? 1 : 0) * 500;
    i128 c = lin::get(v.delta).c;
    if (c < 0) c = -c;
    if (c > 400) c = 400;
    return s + c;
  };
  std::stable_sort(order.begin(), order.end(), [&](int x, int y) { return cost(vars[x]) < cost(vars[y]); });
  // gaussian elimination; rows keep combination of basis variables
  struct Row { std::map<int, i128> d; std::map<int, i128> comb; };   // d: atom->coef (-1 = constant)
  std::vector<Row> rows;
  std::vector<std::pair<L, bool>> eqs;   // equalities of C to add
  for (int vi : order) {
    V& v = vars[vi];
    Row r;
    for (auto& p : lin::get(v.delta).t) r.d[p.first] = p.second;
    if (lin::get(v.delta).c) r.d[-1] = lin::get(v.delta).c;
    r.comb[vi] = 1;
    bool ok = true;
    try {
      for (auto& b : rows) {
        int piv = b.d.begin()->first;
        auto it = r.d.find(piv);
        if (it == r.d.end()) continue;
        i128 x = it->second, y = b.d.begin()->second;
        i128 g = gcd128(x, y);
        i128 mx = y / g, my = x / g;
        Row n;
        for (auto& p : r.d) n.d[p.first] = mulck(p.second, mx);
        for (auto& p : b.d) n.d[p.first] = ck(n.d[p.first] - mulck(p.second, my));
        for (auto& p : r.comb) n.comb[p.first] = mulck(p.second, mx);
        for (auto& p : b.comb) n.comb[p.first] = ck(n.comb[p.first] - mulck(p.second, my));
        for (auto q = n.d.begin(); q != n.d.end();) if (q->second == 0) q = n.d.erase(q); else ++q;
        for (auto q = n.comb.begin(); q != n.comb.end();) if (q->second == 0) q = n.comb.erase(q); else ++q;
        r = n;
      }
    } catch (Overflow&) { ok = false; }
    if (!ok) { v.basis = true; continue; }
    if (r.d.empty()) {
      // sum comb_k * delta_k = 0  =>  sum comb_k * (X_k - a_k) = 0
      i128 k = r.comb[vi];
      L rest = cst(0);
      try {
        for (auto& p : r.comb) if (p.first != vi) rest = lin::add(rest, mulc(lin::sub(vars[p.first].X, vars[p.first].a), p.second));
        if (v.fresh && (k == 1 || k == -1)) {
          v.X = lin::sub(v.a, mulc(rest, k));   // X = a - rest/k
          v.basis = false;
          v.fresh = false;
          continue;
        }
        eqs.push_back({lin::add(mulc(lin::sub(v.X, v.a), k), rest), true});
      } catch (Overflow&) {
      }
      v.basis = true;
    } else {
      v.basis = true;
      rows.push_back(r);
    }
  }
  for (auto& p : pend) p.s->out.e = vars[p.var].X;
  // intrinsic ranges of summary variables are those of their type
  // ---- facts
  Num& N = C->n;
  N = Num();
  std::vector<int> bas;
  for (size_t i = 0; i < vars.size(); ++i) if (vars[i].basis) bas.push_back((int)i);
  auto factsOf = [](const Num& n, std::vector<L>* ge, std::vector<L>* eq) {
    for (L e : n.ge) ge->push_back(e);
    for (auto& b : n.bnd) {
      if (b.lo > atoms[b.a].lo) ge->push_back(addc(atom(b.a), -b.lo));
      if (b.hi < atoms[b.a].hi) ge->push_back(lin::sub(cst(b.hi), atom(b.a)));
    }
    for (auto& p : n.sub) eq->push_back(lin::sub(atom(p.first), p.second));
  };
  std::vector<L> ga, qa, gb, qb;
  factsOf(A.n, &ga, &qa);
  factsOf(B.n, &gb, &qb);
  std::vector<L> addGe, addEq;
  for (auto& e : eqs) addEq.push_back(e.first);
  std::set<L> seen;
  auto tryRest = [&](const std::vector<L>& facts, const Num& other, int sign, bool lambda) {
    // sign=+1: facts of A, difference b-a;  sign=-1: facts of B
    for (L f : facts) {
      if (seen.count(f)) continue;
      bool direct = other.entailsGE(f);
      if (direct) { addGe.push_back(f); seen.insert(f); }
      // rewriting through the joined variables
      L full = f, fullD = f;
      bool ch = false;
      std::vector<std::pair<L, L>> cands;   // (fact in terms of X, image in the other state)
      for (int vi : bas) {
        V& v = vars[vi];
        L me = sign > 0 ? v.a : v.b;
        L dl = sign > 0 ? v.delta : mulc(v.delta, -1);
        try {
          i128 lam = 0;
          for (auto& p : lin::get(me).t) {
            i128 k = coef(full, p.first);
            if (k != 0 && (p.second == 1 || p.second == -1)) { lam = k * p.second; break; }
          }
          if (lam != 0) {
            cands.push_back({lin::add(f, mulc(lin::sub(v.X, me), lam)), lin::add(f, mulc(dl, lam))});
            full = lin::add(full, mulc(lin::sub(v.X, me), lam));
            fullD = lin::add(fullD, mulc(dl, lam));
            ch = true;
          }
          if (lambda && !direct) {
            for (i128 l2 : {(i128)1, (i128)-1}) {
              if (l2 == lam) continue;
              cands.push_back({lin::add(f, mulc(lin::sub(v.X, me), l2)), lin::add(f, mulc(dl, l2))});
            }
            i128 dc;
            if (isConst(dl, &dc) && (dc > 1 || dc < -1)) {
              // slope matching the step
              i128 lo, hi;
              other.ival(f, &lo, &hi);
              if (lo > -kInf) {
                i128 need = -lo;   // need lam*dc >= need
                if (need > 0) { i128 ad = dc < 0 ? -dc : dc; i128 l3 = (need + ad - 1) / ad; if (l3 > 1 && l3 < 1000000) { if (dc < 0) l3 = -l3; cands.push_back({lin::add(f, mulc(lin::sub(v.X, me), l3)), lin::add(f, mulc(dl, l3))}); } }
              }
            }
          }
        } catch (Overflow&) {
        }
      }
      if (ch) cands.push_back({full, fullD});
      for (auto& c : cands) {
        if (seen.count(c.first)) continue;
        if (other.entailsGE(c.second)) { addGe.push_back(c.first); seen.insert(c.first); }
      }
    }
  };
  auto tryEq = [&](const std::vector<L>& facts, const Num& other, int sign, bool lambda) {
    std::vector<L> halves;
    for (L f : facts) {
      if (other.entailsEQ(f)) { addEq.push_back(f); continue; }
      halves.push_back(f);
      halves.push_back(mulc(f, -1));
    }
    tryRest(halves, other, sign, lambda);
  };
  try {
    tryEq(qa, B.n, 1, !widen);
    tryRest(ga, B.n, 1, !widen);
    if (!widen) {
      tryEq(qb, A.n, -1, true);
      tryRest(gb, A.n, -1, true);
    } else {
      // facts of the new state that the old one already satisfies syntactically keep their bounds
    }
    // bounds of joined variables
    for (size_t i = 0; i < vars.size(); ++i) {
      V& v = vars[i];
      i128 al, ah, bl, bh;
      tight(A.n, v.a, &al, &ah);
      tight(B.n, v.b, &bl, &bh);
      i128 lo, hi;
      if (!widen) { lo = std::min(al, bl); hi = std::max(ah, bh); }
      else {
        lo = al; hi = ah;
        if (bl < al) { lo = -kInf; for (i128 t : thr) if (t <= bl && t > lo) lo = t; }
        if (bh > ah) { hi = kInf; for (i128 t : thr) if (t >= bh && t < hi) hi = t; }
      }
      if (lo > -kInf) addGe.push_back(addc(v.X, -lo));
      if (hi < kInf) addGe.push_back(lin::sub(cst(hi), v.X));
      // relational lower bounds by optimisation against 0
      if (lo < 0 && !widen && A.n.entailsGE(v.a) && B.n.entailsGE(v.b)) addGe.push_back(v.X);
      if (lo < 0 && widen && A.n.entailsGE(v.a) && B.n.entailsGE(v.b)) addGe.push_back(v.X);
    }
    if (pairJoin) for (int i : bas) for (int j : bas) if (i != j && A.n.entailsGE(lin::sub(vars[i].a, vars[j].a)) && B.n.entailsGE(lin::sub(vars[i].b, vars[j].b))) addGe.push_back(lin::sub(vars[i].X, vars[j].X));
    if (pairJoin) for (auto& g : A.ghost) {
      auto h = B.ghost.find(g.first);
      if (h == B.ghost.end() || !(h->second == g.second) || (g.second.k != VInt && g.second.k != VPtr)) continue;
      L e = g.second.e;
      if (isConst(e)) continue;
      for (int i : bas) {
        if (A.n.entailsGE(lin::sub(vars[i].a, e)) && B.n.entailsGE(lin::sub(vars[i].b, e))) addGe.push_back(lin::sub(vars[i].X, e));
        if (A.n.entailsGE(lin::sub(e, vars[i].a)) && B.n.entailsGE(lin::sub(e, vars[i].b))) addGe.push_back(lin::sub(e, vars[i].X));
      }
    }
    for (L e : addEq) N.assumeEQ(e);
    for (L e : addGe) N.assumeGE(e);
    for (L e : A.n.ne) { if (B.n.entailsNE(e)) N.assumeNE(e); else for (int vi : bas) { V& v = vars[vi]; for (auto& p : lin::get(v.a).t) { i128 k = coef(e, p.first); if (k && (p.second == 1 || p.second == -1)) { i128 lam = k * p.second; if (B.n.entailsNE(lin::add(e, mulc(v.delta, lam)))) N.assumeNE(lin::add(e, mulc(lin::sub(v.X, v.a), lam))); break; } } } }
    // a variable that is never zero on both sides
    for (int vi : bas) { V& v = vars[vi]; if (A.n.entailsNE(v.a) && B.n.entailsNE(v.b)) N.assumeNE(v.X); }
  } catch (Overflow&) {
    throw Broken{"overflow in join"};
  }
  if (N.dead) {
    if (debug) fprintf(stderr, "join produced an inconsistent state\nA:\n%s\nB:\n%s\n", dump(A).c_str(), dump(B).c_str());
    throw Broken{"join produced an inconsistent state"};
  }
  // ---- write back
  if (ec && ea) *ec = *ea;
  for (auto& s : sl) {
    switch (s.kind) {
      case 0: if (s.key < 0) (*ec)[0] = s.out; else (*ec)[s.key] = s.out; break;
      case 1: {
        auto it = C->heap.find(cid[s.obj]);
        Obj* o = const_cast<Obj*>(it->second.get());
        if (o->ver >= 0 && s.out.k == VUnk) break;
        if (o->ver >= 0 && (get(A, P.order[s.obj].first)->cells.count(s.key) == 0 || get(B, P.order[s.obj].second)->cells.count(s.key) == 0)) break;
        if (s.out.k == VUndef && s.a.k == VUndef && s.b.k == VUndef) break;
        o->cells[s.key] = s.out;
        break;
      }
      case 2: const_cast<Obj*>(C->heap[cid[s.obj]].get())->size = s.out.e; break;
      case 3: C->ghost[*s.g] = s.out; break;
      case 4: {
        Obj* o = const_cast<Obj*>(C->heap[cid[s.obj]].get());
        L x = N.norm(s.out.e);
        if (lin::get(s.out.e).t.size() == 1 && lin::get(s.out.e).c == 0 && lin::get(s.out.e).t[0].second == 1) o->summ = lin::get(s.out.e).t[0].first;
        else {
          int y = newAtom("elem", -pow2(31), pow2(31) - 1);
          N.assumeEQ(lin::sub(atom(y), x));
          o->summ = y;
        }
        break;
      }
      default: break;
    }
  }
  for (auto& r : A.eqr)
    for (auto& q : B.eqr)
      if (r.va == q.va && r.vb == q.vb && r.oa == q.oa && r.ob == q.ob && r.len == q.len) { C->eqr.push_back(r); break; }
  C->imprecise = !A.imprecise.empty() ? A.imprecise : B.imprecise;
  gcState(*C, ec, live, xa ? &(*ec)[0] : nullptr);
  if (N.ge.size() > 25) N.reduce();
  if (spec) {
    std::vector<L> ta, tb, tc;
    spec->templates(*this, A, ta);
    if (!ta.empty()) {
      spec->templates(*this, B, tb); spec->templates(*this, *C, tc);
      if (ta.size() == tb.size() && ta.size() == tc.size()) for (size_t i = 0; i < ta.size(); ++i) if (A.n.entailsGE(ta[i]) && B.n.entailsGE(tb[i])) C->n.assumeGE(tc[i]);
    }
  }
  return true;
}

void Interp::mergeOutcomes(std::vector<Outcome>& v, int K) {
  struct KL { bool& f; bool o; ~KL() { f = o; } } kl{keepLoads, keepLoads};
  keepLoads = true;
  if (v.size() <= 1) return;
  std::map<std::string, std::vector<Outcome>> groups;
  std::vector<std::string> order;
  for (auto& o : v) {
    if (o.st.dead()) continue;
    gcState(o.st, nullptr, nullptr, &o.ret);
    if (o.st.dead()) continue;
    Env e{o.ret};
    std::vector<int> lv{0};
    std::string key = shapeKey(o.st, &e, &lv, false);
    i128 c;
    if (o.ret.k == VInt) { L n = o.st.n.norm(o.ret.e); if (isConst(n, &c)) key += "=" + (o.ret.w <= 32 ? i128s(c) : std::string("k")); }
    auto& g = groups[key];
    if (g.empty()) order.push_back(key);
    bool sub = false;
    for (auto& q : g) { Env qe{q.ret}; if (leq(o.st, &e, q.st, &qe, &lv, 0)) { sub = true; break; } }
    if (sub) continue;
    std::vector<Outcome> keep;
    for (auto& q : g) { Env qe{q.ret}; if (!leq(q.st, &qe, o.st, &e, &lv, 0)) keep.push_back(std::move(q)); }
    g.swap(keep);
    g.push_back(std::move(o));
  }
  v.clear();
  for (auto& key : order) {
    auto& g = groups[key];
    while ((int)g.size() > K) {
      size_t bx = 0, by = 1; int bd = 1 << 30;
      std::vector<int> lv{0};
      for (size_t x = 0; x < g.size(); ++x) for (size_t y = x + 1; y < g.size(); ++y) {
        Env ex{g[x].ret}, ey{g[y].ret};
        int c = diffCount(g[x].st, &ex, g[y].st, &ey, &lv);
        if (c < bd) { bd = c; bx = x; by = y; }
      }
      State C; Env ec, ex{g[bx].ret}, ey{g[by].ret};
      if (!joinStates(g[bx].st, &ex, g[by].st, &ey, nullptr, false, &C, &ec, nullptr)) break;
      g[bx].st = std::move(C);
      g[bx].ret = ec[0];
      g.erase(g.begin() + by);
    }
    for (auto& q : g) v.push_back(std::move(q));
  }
}
