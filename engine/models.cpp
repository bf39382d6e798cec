// Models of the C/C++ runtime and standard library used by the analysed code.
#include "interp.hpp"
#include "finfo.hpp"
using namespace lin;
using llvm::dyn_cast;

static const i128 kMaxLen = pow2(62);

// ------------------------------------------------------------------ std::string
// Abstract layout: +0 data pointer, +8 size, +16 capacity (the real object is 32 bytes).
void Interp::strInit(State& s, const Value& p, bool) {
  if (!access(s, p, cst(32), true, "std::string")) return;
  int b = fresh(s, "string buffer", cst(strUnbounded ? pow2(62) : 16));
  Obj* ob = mut(s, b);
  ob->cells[0] = vcst(0, 8);
  ob->site = 4;
  store(s, p, vptr(b, cst(0)), 8, true);
  Value q = p; q.e = addc(p.e, 8);
  store(s, q, vcst(0, 64), 8, true);
  q.e = addc(p.e, 16);
  store(s, q, vcst(strUnbounded ? pow2(62) - 1 : 15, 64), 8, true);
}
Interp::Str Interp::strGet(State& s, const Value& p) {
  Str r;
  if (!access(s, p, cst(32), false, "std::string") && (p.k != VPtr || p.obj < 0)) {
    r.data = vptr(OBJ_TOP, cst(0)); r.size = atom(newAtom("strsize", 0, kMaxLen)); r.cap = atom(newAtom("strcap", 0, kMaxLen));
    return r;
  }
  Value q = p;
  r.data = loadW(s, q, 8, true, true);
  q.e = addc(p.e, 8);
  Value sz = loadW(s, q, 8, false, true);
  q.e = addc(p.e, 16);
  Value cp = loadW(s, q, 8, false, true);
  if (r.data.k != VPtr || sz.k != VInt || cp.k != VInt) {
    if (memObs) oblige(s, prop, "std::string: constructed", r.data.k != VUndef, "use of a string that has not been constructed");
    if (s.imprecise.empty()) s.imprecise = "untracked std::string at " + loc();
    r.data = vptr(OBJ_TOP, cst(0)); r.size = atom(newAtom("strsize", 0, kMaxLen)); r.cap = atom(newAtom("strcap", 0, kMaxLen));
    return r;
  }
  r.size = s.n.norm(sz.e);
  r.cap = s.n.norm(cp.e);
  if (strUnbounded && !isConst(r.size)) s.n.assumeGE(lin::sub(r.cap, r.size));   // (an invariant of the class)
  return r;
}
void Interp::strSetSize(State& s, const Value& p, L size) {
  Value q = p; q.e = addc(p.e, 8);
  store(s, q, vint(s.n.norm(size), 64), 8, true);
}
void Interp::strRealloc(State& s, const Value& p, L need) {
  Str st = strGet(s, p);
  if (st.data.obj < 0) return;
  if (strUnbounded) return;
  if (test(s, Constraint::GE, lin::sub(st.cap, need), "string capacity")) return;
  int cap = newAtom("cap", 0, pow2(62));
  s.n.assumeGE(lin::sub(atom(cap), need));
  s.n.assumeGE(lin::sub(atom(cap), addc(st.cap, 1)));
  int b = fresh(s, "string buffer", addc(atom(cap), 1));
  mut(s, b)->site = 4;
  if (trackContent) {
    if (!s.n.entailsEQ(st.size)) {
      bool sv = memObs; memObs = false;
      Value src = st.data; src.e = cst(0);
      copyMem(s, vptr(b, cst(0)), src, st.size);
      memObs = sv;
    }
  } else {
    mut(s, b)->ver = baseVer("string buffer");
  }
  Obj* old = mut(s, st.data.obj);
  old->alive = false; old->cells.clear(); old->ver = -1; old->summ = -1;
  store(s, p, vptr(b, cst(0)), 8, true);
  Value q = p; q.e = addc(p.e, 16);
  store(s, q, vint(atom(cap), 64), 8, true);
}
void Interp::strAppend(State& s, const Value& p, const Value& src, L n, bool isFill) {
  n = s.n.norm(n);
  if (!isFill) access(s, src, n, false, "std::string::append source");
  if (!s.n.entailsGE(n)) s.n.assumeGE(n);
  Str st = strGet(s, p);
  if (spec) spec->onStrAppend(*this, s, p, st.size, src, n, isFill);
  if (s.n.entailsEQ(n)) return;
  // the source may lie in the old buffer: remember its content first
  Value src2 = src;
  bool selfSrc = !isFill && src.k == VPtr && src.obj == st.data.obj;
  strRealloc(s, p, lin::add(st.size, n));
  Str nw = strGet(s, p);
  if (nw.data.obj >= 0) {
    bool sv = memObs; memObs = false;
    Value d = nw.data; d.e = lin::add(nw.data.e, st.size);
    if (!trackContent) {
      Obj* o = mut(s, nw.data.obj);
      o->cells.clear();
      o->ver = baseVer("string buffer");
    } else if (isFill) {
      fillMem(s, d, src.e, n);
    } else {
      if (selfSrc) src2.obj = nw.data.obj;
      copyMem(s, d, src2, n);
    }
    memObs = sv;
  }
  strSetSize(s, p, lin::add(st.size, n));
}
void Interp::strDestroy(State& s, const Value& p) {
  Str st = strGet(s, p);
  if (st.data.obj >= 0) {
    const Obj* o = get(s, st.data.obj);
    if (memObs) oblige(s, prop, "std::string destroyed once", o && o->alive, "string destroyed twice");
    if (o && o->alive) { Obj* m = mut(s, st.data.obj); m->alive = false; m->cells.clear(); m->ver = -1; }
  }
}

static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

static void assignBytes(Interp& in, State& s, const Value& str, const Value& src, L n) {
  in.access(s, src, n, false, "std::string::assign source");
  Interp::Str st = in.strGet(s, str);
  if (in.spec) in.spec->onStrAssign(in, s, str, src, n);
  if (st.data.obj < 0) return;
  bool self = src.k == VPtr && src.obj == st.data.obj;
  Value src2 = src;
  if (self) {
    // snapshot of the source region
    int t = in.fresh(s, "tmp", n);
    bool sv = in.memObs; in.memObs = false;
    if (in.trackContent && !s.n.entailsEQ(n)) in.copyMem(s, vptr(t, cst(0)), src, n);
    else in.mut(s, t)->ver = in.baseVer("tmp");
    in.memObs = sv;
    src2 = vptr(t, cst(0));
  }
  in.strSetSize(s, str, cst(0));
  in.strRealloc(s, str, n);
  Interp::Str nw = in.strGet(s, str);
  if (nw.data.obj < 0) return;
  bool sv = in.memObs; in.memObs = false;
  {
    Obj* o = in.mut(s, nw.data.obj);
    o->cells.clear();
    o->ver = in.baseVer("string buffer");
  }
  if (in.trackContent && !s.n.entailsEQ(n)) in.copyMem(s, nw.data, src2, n);
  in.memObs = sv;
  in.strSetSize(s, str, n);
  if (self) s.heap.erase(src2.obj);
}

// length of a C string: constant for string literals, otherwise bounded by the object
static L cstrLen(Interp& in, State& s, const Value& p) {
  if (p.k != VPtr || p.obj < 0) {
    in.access(s, p, cst(1), false, "C string");
    return atom(newAtom("strlen", 0, kMaxLen));
  }
  const Obj* o = in.get(s, p.obj);
  i128 off;
  if (o && o->gv && o->cells.empty() && isConst(s.n.norm(p.e), &off)) {
    for (i64 k = 0;; ++k) {
      bool ok;
      Value v = in.initLoad(o->gv, (i64)off + k, 1, false, &ok);
      if (!ok) break;
      if (constOf(v.e) == 0) return cst(k);
    }
  }
  // bytes known one by one
  if (o && isConst(s.n.norm(p.e), &off)) for (int k = 0; k < 32; ++k) {
    i128 sz;
    if (!isConst(s.n.norm(o->size), &sz) || off + k >= sz) break;
    Value v = in.loadW(s, vptr(p.obj, cst(off + k)), 1, false, true);
    if (v.k != VInt) break;
    L b = in.U(s, v);
    if (s.n.entailsEQ(b)) return cst(k);
    if (!s.n.entailsGE(addc(b, -1))) break;
  }
  in.access(s, p, cst(1), false, "C string");
  int a = newAtom("strlen", 0, kMaxLen);
  if (o) s.n.assumeGE(addc(lin::sub(o->size, lin::add(p.e, atom(a))), -1));
  return atom(a);
}

bool Interp::builtin(State& s, const llvm::Function* F, const llvm::Instruction* I, std::vector<Value>& a, std::vector<Outcome>& out) {
  std::string ln = F->getName().str();
  auto ret = [&](const Value& v) { Outcome o; o.st = std::move(s); o.ret = v; out.push_back(std::move(o)); return true; };
  Value none; none.k = VUndef;
  if (starts(ln, "llvm.dbg") || starts(ln, "llvm.lifetime") || starts(ln, "llvm.assume") || starts(ln, "llvm.experimental.noalias") || starts(ln, "llvm.donothing")) return ret(none);
  if (starts(ln, "llvm.memcpy") || starts(ln, "llvm.memmove") || ln == "memcpy" || ln == "memmove") {
    copyMem(s, a[0], a[1], U(s, a[2]));
    return ret(a[0]);
  }
  if (starts(ln, "llvm.memset") || ln == "memset") {
    fillMem(s, a[0], a[1].k == VInt ? U(s, vint(a[1].e, 8)) : cst(0), U(s, a[2]));
    return ret(a[0]);
  }
  if (ln == "llvm.trap" || ln == "abort" || ln == "exit" || ln == "_exit" || ln == "__assert_fail") { throw PathEnd(); }
  if (ln == "__cxa_pure_virtual") {
    oblige(s, prop, "no pure virtual call", false, "pure virtual function called");
    throw PathEnd();
  }
  if (ln.find("__throw_") != std::string::npos) throw PathEnd();
  if (starts(ln, "llvm.umul.with.overflow")) {
    L x = U(s, a[0]), y = U(s, a[1]);
    i128 c;
    L pr;
    if (isConst(x, &c)) pr = mulc(y, c);
    else if (isConst(y, &c)) pr = mulc(x, c);
    else { Def d{Def::UF, 0, {x, y}, "mul", 0}; pr = atom(defAtom(d, "mul", 0, kInf)); }
    bool ovf = !test(s, Constraint::GE, lin::sub(cst(pow2(a[0].w) - 1), pr), "umul overflow");
    std::vector<Value> el{vint(pr, a[0].w), vcst(ovf, 1)};
    aggs.push_back(el);
    Value v; v.k = VAgg; v.obj = (int)aggs.size() - 1;
    return ret(v);
  }
  if (starts(ln, "llvm.smax") || starts(ln, "llvm.smin") || starts(ln, "llvm.umax") || starts(ln, "llvm.umin")) {
    bool sg = ln[5] == 's', mx = ln.compare(6, 3, "max") == 0;
    L x = sg ? S(s, a[0]) : U(s, a[0]), y = sg ? S(s, a[1]) : U(s, a[1]);
    bool g = test(s, Constraint::GE, lin::sub(x, y), "minmax");
    return ret(vint((g == mx) ? x : y, a[0].w));
  }
  if (starts(ln, "llvm.expect")) return ret(a[0]);
  if (starts(ln, "llvm.abs")) {
    L x = S(s, a[0]);
    return ret(vint(test(s, Constraint::GE, x, "abs") ? x : mulc(x, -1), a[0].w));
  }
  if (ln == "_Znwm" || ln == "_Znam" || ln == "malloc" || ln == "_ZnwmRKSt9nothrow_t" || ln == "_ZnamRKSt9nothrow_t" || ln == "_ZnwmSt11align_val_t") {
    L n = U(s, a[0]);
    bool lib = ln == "malloc" || ln.find("nothrow") != std::string::npos;
    if (memObs && prop != "") {}
    if (spec) spec->onCall(*this, s, F, a);
    if (!s.n.entailsGE(lin::sub(cst(kMaxLen), n))) {
      // an allocation this large throws (or fails)
      s.n.assumeGE(lin::sub(cst(kMaxLen), n));
      if (s.dead() || !s.n.feasible()) throw PathEnd();
    }
    if (lib) {
      Outcome f; f.st = s; f.ret = vnull();
      out.push_back(std::move(f));
    }
    int o = fresh(s, (ln == "_Znam" ? "new[] " : ln == "malloc" ? "malloc " : "new ") + std::string("at ") + loc(), n);
    Obj* ob = mut(s, o);
    ob->site = ln == "_Znam" ? 2 : ln == "malloc" ? 3 : 1;
    return ret(vptr(o, cst(0)));
  }
  if (ln == "_ZdlPv" || ln == "_ZdaPv" || ln == "_ZdlPvm" || ln == "_ZdaPvm" || ln == "free") {
    int want = ln == "free" ? 3 : (ln == "_ZdaPv" || ln == "_ZdaPvm") ? 2 : 1;
    if (memObs && a[0].k == VPtr && a[0].obj >= 0) {
      const Obj* o = get(s, a[0].obj);
      if (o && o->alive && o->site >= 1 && o->site <= 3) oblige(s, prop, "delete matches new", o->site == want, "memory allocated by '" + o->name + "' released with the wrong operator");
      if (o && o->alive) oblige(s, prop, "delete: start of block", s.n.entailsEQ(a[0].e), "delete of an interior pointer");
    }
    freeObj(s, a[0]);
    return ret(none);
  }
  if (ln == "__cxa_guard_acquire") {
    bool sv = memObs; memObs = false;
    Value g = loadW(s, a[0], 1, false);
    memObs = sv;
    bool z = test(s, Constraint::EQ, U(s, g), "static guard");
    return ret(vcst(z ? 1 : 0, 32));
  }
  if (ln == "__cxa_guard_release") { store(s, a[0], vcst(1, 8), 1, true); return ret(none); }
  if (ln == "__cxa_atexit" || ln == "__cxa_guard_abort") return ret(vcst(0, 32));
  if (ln == "strlen") return ret(vint(cstrLen(*this, s, a[0]), 64));
  if (ln == "memcmp" || ln == "strcmp" || ln == "strncmp" || ln == "bcmp") {
    L n = cst(1);
    if (ln == "memcmp" || ln == "bcmp") {
      n = U(s, a[2]);
      access(s, a[0], n, false, "memcmp");
      access(s, a[1], n, false, "memcmp");
      if (s.n.entailsEQ(n)) return ret(vcst(0, 32));
    }
    Outcome e; e.st = s; e.ret = vcst(0, 32);
    if (ln == "memcmp" && a[0].k == VPtr && a[1].k == VPtr && a[0].obj >= 0 && a[1].obj >= 0) {
      Obj* x = mut(e.st, a[0].obj);
      if (x->ver >= 0) flush(x);
      int vx = x->ver;
      Obj* y = mut(e.st, a[1].obj);
      if (y->ver >= 0) flush(y);
      if (vx >= 0 && y->ver >= 0) e.st.eqr.push_back(EqR{vx, e.st.n.norm(a[0].e), y->ver, e.st.n.norm(a[1].e), n});
    }
    out.push_back(std::move(e));
    int r = newAtom("cmp", -pow2(31), pow2(31) - 1);
    s.n.assumeNE(atom(r));
    return ret(vint(atom(r), 32));
  }
  if (ln == "snprintf" || ln == "__snprintf_chk") {
    L n = U(s, a[1]);
    access(s, a[0], n, true, "snprintf");
    if (a[0].k == VPtr && a[0].obj >= 0) havocContent(s, a[0].obj, "snprintf");
    return ret(vint(atom(newAtom("snprintf", 0, pow2(31) - 1)), 32));
  }
  std::string q = qname(F);
  const std::string& dn = dname(F);
  // streams: logging only
  if (starts(q, "std::basic_ostream") || starts(q, "std::ostream::") || starts(q, "std::ios::") || starts(q, "std::basic_ios") || starts(q, "std::operator<<") || starts(q, "std::endl") || starts(q, "std::flush") || starts(q, "std::ios_base"))
    return ret(a.empty() ? none : a[0]);
  if (q == "std::allocator<char>::allocate" || q == "std::__new_allocator<char>::allocate") {
    L n = U(s, a[1]);
    s.n.assumeGE(lin::sub(cst(kMaxLen), n));
    if (s.dead() || !s.n.feasible()) throw PathEnd();
    int o = fresh(s, "vector<char> storage", n);
    mut(s, o)->site = 1;
    return ret(vptr(o, cst(0)));
  }
  if (q == "std::allocator<char>::deallocate" || q == "std::__new_allocator<char>::deallocate") { freeObj(s, a[1]); return ret(none); }
  if (starts(q, "std::allocator<") || starts(q, "std::__new_allocator<char>") || starts(q, "std::char_traits")) {
    if (F->isDeclaration() || q.find("~") != std::string::npos || q.find("::allocator") != std::string::npos || q.find("::__new_allocator") != std::string::npos) return ret(a.empty() ? none : a[0]);
  }
  // ---- std::string
  static const std::string SP = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::";
  static const std::string SP2 = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::";
  std::string m;
  if (starts(q, SP.c_str())) m = q.substr(SP.size());
  else if (starts(q, SP2.c_str())) m = q.substr(SP2.size());
  if (!m.empty()) {
    std::string args = dn.size() > q.size() ? dn.substr(dn.find('(', dn.find(m) == std::string::npos ? 0 : dn.find(m))) : "";
    if (starts(m, "basic_string")) {
      if (starts(args, "()") || args.find("(std::allocator") == 0) { strInit(s, a[0], true); return ret(none); }
      if (args.find("(unsigned long, char") == 0) {
        strInit(s, a[0], true);
        strAppend(s, a[0], vint(U(s, vint(a[2].e, 8)), 8), U(s, a[1]), true);
        return ret(none);
      }
      if (starts(m, "basic_string<") && a.size() >= 3 && a[1].k == VPtr && a[2].k == VPtr && a[1].obj == a[2].obj) { L n = lin::sub(a[2].e, a[1].e); strInit(s, a[0], true); strAppend(s, a[0], a[1], n, false); return ret(none); }
      if (args.find("(char const*, unsigned long") == 0) { strInit(s, a[0], true); strAppend(s, a[0], a[1], U(s, a[2]), false); return ret(none); }
      if (args.find("(char const*") == 0) { strInit(s, a[0], true); strAppend(s, a[0], a[1], cstrLen(*this, s, a[1]), false); return ret(none); }
      if (args.find("(std::__cxx11::basic_string<char") == 0) {
        Str o = strGet(s, a[1]);
        strInit(s, a[0], true);
        strAppend(s, a[0], o.data, o.size, false);
        if (args.find("&&") != std::string::npos) strSetSize(s, a[1], cst(0));
        return ret(none);
      }
    }
    if (m == "~basic_string") { strDestroy(s, a[0]); return ret(none); }
    if (m == "size" || m == "length") return ret(vint(strGet(s, a[0]).size, 64));
    if (m == "capacity") return ret(vint(strGet(s, a[0]).cap, 64));
    if (m == "max_size") return ret(vcst(pow2(62) - 1, 64));
    if (m == "empty") {
      Str st = strGet(s, a[0]);
      bool e = test(s, Constraint::EQ, st.size, "string empty");
      return ret(vcst(e, 1));
    }
    if (m == "data" || m == "c_str" || m == "begin" || m == "cbegin") return ret(strGet(s, a[0]).data);
    if (m == "end" || m == "cend") { Str st = strGet(s, a[0]); Value v = st.data; v.e = lin::add(v.e, st.size); return ret(v); }
    if (m == "operator[]" || m == "at") {
      Str st = strGet(s, a[0]);
      L i = U(s, a[1]);
      if (m == "at") { if (!test(s, Constraint::GE, addc(lin::sub(st.size, i), -1), "at")) throw PathEnd(); }
      else if (memObs) obligeGE(s, prop, "std::string index within size", lin::sub(st.size, i), "operator[]");
      Value v = st.data; v.e = lin::add(v.e, i);
      return ret(v);
    }
    if (m == "front") return ret(strGet(s, a[0]).data);
    if (m == "back") { Str st = strGet(s, a[0]); if (memObs) obligeGE(s, prop, "back() of non-empty string", addc(st.size, -1), "back"); Value v = st.data; v.e = addc(lin::add(v.e, st.size), -1); return ret(v); }
    if (m == "clear") { strGet(s, a[0]); strSetSize(s, a[0], cst(0)); return ret(none); }
    if (m == "reserve") { strRealloc(s, a[0], a.size() > 1 ? U(s, a[1]) : cst(0)); return ret(none); }
    if (m == "shrink_to_fit") return ret(none);
    if (m == "push_back") { strAppend(s, a[0], vint(U(s, vint(a[1].e, 8)), 8), cst(1), true); return ret(none); }
    if (m == "pop_back") { Str st = strGet(s, a[0]); if (memObs) obligeGE(s, prop, "pop_back() of non-empty string", addc(st.size, -1), "pop_back"); strSetSize(s, a[0], addc(st.size, -1)); return ret(none); }
    if (m == "resize") {
      Str st = strGet(s, a[0]);
      L n = U(s, a[1]);
      if (test(s, Constraint::GE, lin::sub(st.size, n), "resize")) strSetSize(s, a[0], n);
      else strAppend(s, a[0], a.size() > 2 ? vint(U(s, vint(a[2].e, 8)), 8) : vcst(0, 8), lin::sub(n, st.size), true);
      return ret(none);
    }
    // ranges given by two pointers or iterators
    auto range = [&](size_t i, L* n) {
      if (a.size() < i + 2 || a[i].k != VPtr || a[i + 1].k != VPtr || a[i].obj != a[i + 1].obj) return false;
      *n = lin::sub(a[i + 1].e, a[i].e);
      return true;
    };
    L rn;
    if (starts(m, "append<") && range(1, &rn)) { if (memObs) obligeGE(s, prop, "range has its end after its start", rn, "append"); strAppend(s, a[0], a[1], rn, false); return ret(a[0]); }
    if (starts(m, "assign<") && range(1, &rn)) { if (memObs) obligeGE(s, prop, "range has its end after its start", rn, "assign"); assignBytes(*this, s, a[0], a[1], rn); return ret(a[0]); }
    if (m == "insert" || starts(m, "insert<")) {
      // at the end only
      Str st = strGet(s, a[0]);
      bool iter = a.size() > 1 && a[1].k == VPtr;
      L pos = iter ? lin::sub(a[1].e, st.data.e) : a.size() > 1 ? U(s, a[1]) : cst(-1);
      if (s.n.entailsEQ(lin::sub(pos, st.size))) {
        Value r = iter ? st.data : a[0];
        if (iter && a.size() == 4 && range(2, &rn)) { strAppend(s, a[0], a[2], rn, false); Value d = strGet(s, a[0]).data; d.e = lin::add(d.e, st.size); return ret(d); }
        if (iter && a.size() == 4 && args.find("unsigned long, char)") != std::string::npos) { strAppend(s, a[0], vint(U(s, vint(a[3].e, 8)), 8), U(s, a[2]), true); Value d = strGet(s, a[0]).data; d.e = lin::add(d.e, st.size); return ret(d); }
        if (!iter && a.size() == 4 && args.find("(unsigned long, char const*, unsigned long)") == 0) { strAppend(s, a[0], a[2], U(s, a[3]), false); return ret(r); }
        if (!iter && a.size() == 4 && args.find("(unsigned long, unsigned long, char)") == 0) { strAppend(s, a[0], vint(U(s, vint(a[3].e, 8)), 8), U(s, a[2]), true); return ret(r); }
        if (!iter && a.size() == 3 && args.find("(unsigned long, std::") == 0) { Str o = strGet(s, a[2]); strAppend(s, a[0], o.data, o.size, false); return ret(r); }
      }
    }
    if (m == "append" || m == "operator+=") {
      if (args.find("(unsigned long, char)") == 0) { strAppend(s, a[0], vint(U(s, vint(a[2].e, 8)), 8), U(s, a[1]), true); return ret(a[0]); }
      if (args.find("(char const*, unsigned long)") == 0) { strAppend(s, a[0], a[1], U(s, a[2]), false); return ret(a[0]); }
      if (args.find("(char const*)") == 0) { strAppend(s, a[0], a[1], cstrLen(*this, s, a[1]), false); return ret(a[0]); }
      if (args.find("(char)") == 0) { strAppend(s, a[0], vint(U(s, vint(a[1].e, 8)), 8), cst(1), true); return ret(a[0]); }
      if (args.find("(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, unsigned long") == 0 ||
          args.find("(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, unsigned long") == 0) {
        Str o = strGet(s, a[1]);
        L pos = U(s, a[2]), n = U(s, a[3]);
        if (!test(s, Constraint::GE, lin::sub(o.size, pos), "append pos")) throw PathEnd();
        L rest = lin::sub(o.size, pos);
        if (test(s, Constraint::GE, lin::sub(n, rest), "append n")) n = rest;
        Value d = o.data; d.e = lin::add(d.e, pos);
        strAppend(s, a[0], d, n, false);
        return ret(a[0]);
      }
      if (args.find("(std::__cxx11::basic_string<char") == 0) { Str o = strGet(s, a[1]); strAppend(s, a[0], o.data, o.size, false); return ret(a[0]); }
    }
    if (m == "assign" || m == "operator=") {
      if (args.find("(char const*, unsigned long)") == 0) { assignBytes(*this, s, a[0], a[1], U(s, a[2])); return ret(a[0]); }
      if (args.find("(char const*)") == 0) { assignBytes(*this, s, a[0], a[1], cstrLen(*this, s, a[1])); return ret(a[0]); }
      if (args.find("(std::__cxx11::basic_string<char") == 0) {
        if (a[0] == a[1]) return ret(a[0]);
        Str o = strGet(s, a[1]);
        assignBytes(*this, s, a[0], o.data, o.size);
        return ret(a[0]);
      }
      if (args.find("(unsigned long, char)") == 0) { strSetSize(s, a[0], cst(0)); strAppend(s, a[0], vint(U(s, vint(a[2].e, 8)), 8), U(s, a[1]), true); return ret(a[0]); }
    }
    if (m == "swap") {
      for (int k = 0; k < 24; k += 8) {
        Value x = a[0], y = a[1];
        x.e = addc(x.e, k); y.e = addc(y.e, k);
        Value vx = loadW(s, x, 8, k == 0), vy = loadW(s, y, 8, k == 0);
        store(s, x, vy, 8); store(s, y, vx, 8);
      }
      return ret(none);
    }
    if (m == "erase" && a.size() >= 2 && a[1].k == VInt) {
      Str st = strGet(s, a[0]);
      L pos = U(s, a[1]), n = a.size() > 2 ? U(s, a[2]) : st.size;
      if (!test(s, Constraint::GE, lin::sub(st.size, pos), "erase pos")) throw PathEnd();
      L rest = lin::sub(st.size, pos);
      if (test(s, Constraint::GE, lin::sub(n, rest), "erase n")) n = rest;
      if (st.data.obj >= 0 && !s.n.entailsEQ(lin::sub(rest, n))) havocContent(s, st.data.obj, "erase");
      strSetSize(s, a[0], lin::sub(st.size, n));
      return ret(a[0]);
    }
  }
  // ---- std::vector<int> and <char>: only the bulk operations are modelled, the rest is interpreted
  static const char* VP[] = {"std::vector<int, std::allocator<int> >::", "std::vector<int, std::allocator<int>>::", "std::vector<char, std::allocator<char> >::", "std::vector<char, std::allocator<char>>::"};
  std::string vm;
  int es = 4;
  for (int i = 0; i < 4; ++i) if (starts(q, VP[i])) { vm = q.substr(strlen(VP[i])); es = i < 2 ? 4 : 1; }
  if ((vm == "assign" || vm == "resize") && a.size() > 1 && a[1].k == VInt) {
    Value x = a[0];
    Value b = loadW(s, x, 8, true);
    x.e = addc(x.e, 8);
    Value e = loadW(s, x, 8, true, true);
    L n = U(s, a[1]);
    Value v = vcst(0, 8 * es);
    if (a.size() > 2) v = loadW(s, a[2], es, false);
    L oldN = cst(0);
    if (b.k == VPtr && e.k == VPtr && b.obj == e.obj && b.obj >= 0) oldN = lin::sub(e.e, b.e);
    bool isAssign = vm == "assign";
    if (!isAssign && !s.n.entailsEQ(oldN)) {
      // keeps old elements; contents become unknown
      v = vunk(8 * es);
    }
    if (!s.n.entailsGE(lin::sub(cst(pow2(40)), n))) { s.n.assumeGE(lin::sub(cst(pow2(60)), n)); if (s.dead()) throw PathEnd(); }
    if (spec) spec->onCall(*this, s, F, a);
    if (b.k == VPtr && b.obj >= 0) {
      // storage may be reused or replaced; both are covered by a new block of exact size
      freeObj(s, b);
    }
    int id = fresh(s, es == 4 ? "vector<int> storage" : "vector<char> storage", mulc(n, es));
    Obj* o = mut(s, id);
    o->site = 1;
    if (v.k == VInt) {
      VerT f{};
      f.k = VerT::Fill; f.base = fillBase(); f.off = cst(0); f.len = mulc(n, es); f.val = v; f.n = es; f.src = -1; f.srcOff = cst(0);
      o->ver = newVer(f);
      int x0 = newAtom("elem", -pow2(8 * es - 1), pow2(8 * es - 1) - 1);
      L ve = S(s, v);
      s.n.assumeEQ(lin::sub(atom(x0), ve));
      o = mut(s, id);
      o->summ = x0; o->summN = es;
    } else o->ver = baseVer("vector");
    x = a[0];
    store(s, x, vptr(id, cst(0)), 8, true);
    x.e = addc(a[0].e, 8);
    store(s, x, vptr(id, mulc(n, es)), 8, true);
    x.e = addc(a[0].e, 16);
    store(s, x, vptr(id, mulc(n, es)), 8, true);
    return ret(none);
  }
  return false;
}
