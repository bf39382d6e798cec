#include "contracts.hpp"
using namespace lin;

const char* kOutputStringVtable = "open_vcdiff::OutputString<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>";

bool constRet(State& s, const Value& v, i128* c) { return v.k == VInt && isConst(s.n.norm(v.e), c); }
bool hasFn(Interp& in, const std::string& qn) { return !in.findAll(qn).empty(); }

const llvm::Function* fnArgs(Interp& in, const std::string& qn, size_t nargs, const char* contains) {
  static std::map<std::string, const llvm::Function*> memo;
  std::string mk = qn + "|" + std::to_string(nargs) + "|" + (contains ? contains : "");
  auto it = memo.find(mk);
  if (it != memo.end()) return it->second;
  const llvm::Function* best = nullptr;
  for (auto* f : in.findAll(qn)) {
    if (f->arg_size() != nargs) continue;
    if (contains && in.dname(f).find(contains) == std::string::npos) continue;
    if (!best || (best->isDeclaration() && !f->isDeclaration())) best = f;
  }
  if (!best) throw Broken{"function not found in the sources: " + qn + " with " + std::to_string(nargs) + " parameters"};
  memo[mk] = best;
  return best;
}

bool contractVarintParse(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) {
  const std::string q = in.qname(F);
  int w = q == "open_vcdiff::VarintBE<int>::Parse" ? 32 : q == "open_vcdiff::VarintBE<long>::Parse" ? 64 : 0;
  if (!w || a.size() != 2) return false;
  in.extModels.insert(q + " (contract verified by V01)");
  auto put = [&](State&& t, const Value& v) { Outcome o; o.st = std::move(t); o.ret = v; out.push_back(std::move(o)); };
  if (a[0].k == VPtr && a[0].obj == OBJ_NULL) { put(std::move(s), vcst(-1, w)); return true; }
  Value p = in.loadW(s, a[1], 8, true);
  if (p.k != VPtr || p.obj == OBJ_TOP || a[0].k != VPtr || a[0].obj == OBJ_TOP) {
    if (s.imprecise.empty()) s.imprecise = "varint parsed through untracked pointers at " + in.loc();
    in.store(s, a[1], vptr(OBJ_TOP, cst(0)), 8);
    put(std::move(s), vint(atom(newAtom("varint", -2, pow2(w - 1) - 1)), w));
    return true;
  }
  bool same = p.obj == a[0].obj;
  if (in.memObs) in.oblige(s, in.prop, "varint parsed between two positions of one buffer", same, "start and limit point into different objects");
  if (!same) throw PathEnd();
  L room = lin::sub(a[0].e, p.e);
  // p >= limit: end of data
  if (!in.test(s, Constraint::GE, addc(room, -1), "varint room")) { put(std::move(s), vcst(-2, w)); return true; }
  // the bytes up to the limit may be read
  in.access(s, p, room, false, "varint input");
  { State t = s; put(std::move(t), vcst(-1, w)); }
  { State t = s; t.n.assumeGE(lin::sub(cst(w == 32 ? 4 : 9), room)); if (!t.dead() && t.n.feasible()) put(std::move(t), vcst(-2, w)); }
  int k = newAtom("vlen", 1, w == 32 ? 5 : 10);
  s.n.assumeGE(lin::sub(room, atom(k)));
  in.store(s, a[1], vptr(p.obj, lin::add(p.e, atom(k))), 8);
  put(std::move(s), vint(atom(newAtom("varint", 0, pow2(w - 1) - 1)), w));
  return true;
}

bool sinkCall(Interp& in, State& s, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out) {
  auto ret = [&](const Value& v) { Outcome o; o.st = std::move(s); o.ret = v; out.push_back(std::move(o)); return true; };
  if (m == "append") {
    L n = in.U(s, a[2]);
    in.access(s, a[1], n, false, "output append");
    return ret(a[0]);
  }
  if (m == "clear" || m == "push_back" || m == "ReserveAdditionalBytes") return ret(Value());
  if (m == "size") return ret(vint(atom(newAtom("outsize", 0, pow2(62))), 64));
  return false;
}

Value cloneGraph(Interp& in, State& s, const Value& p, const std::set<int>& shared) {
  std::map<int, int> m;
  std::vector<int> todo{p.obj};
  auto owned = [&](int id) {
    if (id < 0 || shared.count(id) || m.count(id)) return false;
    auto it = s.heap.find(id);
    if (it == s.heap.end()) return false;
    const Obj& o = *it->second;
    return !o.gv && o.ext.empty() && (o.site != 0 || id == p.obj);
  };
  m[p.obj] = 0;
  std::vector<int> order{p.obj};
  for (size_t i = 0; i < order.size(); ++i) {
    for (auto& c : s.heap[order[i]]->cells)
      if (c.second.k == VPtr && owned(c.second.obj)) { m[c.second.obj] = 0; order.push_back(c.second.obj); }
  }
  for (int id : order) m[id] = in.fresh(s, s.heap[id]->name, s.heap[id]->size);
  for (int id : order) {
    ObjP src = s.heap[id];
    Obj* d = in.mut(s, m[id]);
    int nid = d->id;
    *d = *src;
    d->id = nid;
    d->name += " (clone)";
    for (auto& c : d->cells) if (c.second.k == VPtr && m.count(c.second.obj)) c.second.obj = m[c.second.obj];
  }
  return vptr(m[p.obj], p.e);
}
