#include "mgc.hpp"
#include "llvm/Demangle/Demangle.h"
using namespace lin;

bool MGC::add(State st) {
  Interp& in = c.in;
  if (st.dead()) return false;
  in.gcState(st, nullptr, nullptr);
  if (st.dead()) return false;
  std::string key = in.shapeKey(st, nullptr, nullptr, false);
  std::vector<size_t> same;
  for (size_t i = 0; i < set.size(); ++i) {
    if (set[i].key != key) continue;
    same.push_back(i);
    if (in.leq(st, nullptr, set[i].st, nullptr, nullptr, 0)) return false;
  }
  if ((int)same.size() < K) {
    D d; d.st = std::move(st); d.key = key;
    set.push_back(std::move(d));
    work.push_back(set.size() - 1);
    return true;
  }
  size_t best = same[0]; int bd = 1 << 30;
  for (size_t i : same) { int x = in.diffCount(set[i].st, nullptr, st, nullptr, nullptr); if (x <= bd) { bd = x; best = i; } }
  State C;
  bool widen = set[best].njoin >= Mjoin;
  if (in.debug > 2) fprintf(stderr, "MGC JOIN%s A:\n%s B:\n%s\n", widen ? "/W" : "", in.dump(set[best].st).c_str(), in.dump(st).c_str());
  if (!in.joinStates(set[best].st, nullptr, st, nullptr, nullptr, widen, &C, nullptr, nullptr)) {
    D d; d.st = std::move(st); d.key = key;
    set.push_back(std::move(d));
    work.push_back(set.size() - 1);
    if (set.size() > 300) throw Broken{"too many API states"};
    return true;
  }
  if (in.debug > 2) fprintf(stderr, " => %s\n", in.dump(C).c_str());
  if (++set[best].njoin > 40) throw Broken{"API-level fixpoint not reached"};
  set[best].st = std::move(C);
  bool q = false;
  for (size_t w : work) if (w == best) q = true;
  if (!q) work.push_back(best);
  return true;
}
void MGC::run(std::vector<State> init, const std::vector<Op>& ops) {
  for (auto& s : init) add(std::move(s));
  int rounds = 0;
  while (!work.empty()) {
    size_t i = work.front();
    work.erase(work.begin());
    if (++rounds > maxRounds) throw Broken{"API-level fixpoint: too many rounds"};
    for (auto& op : ops) {
      State s = set[i].st;
      ++transitions;
      auto t0 = c.in.steps;
      auto r = op.run(s);
      if (c.in.debug) fprintf(stderr, "[round %d state %zu/%zu] %s -> %zu outcomes (%ld steps)\n", rounds, i, set.size(), op.name.c_str(), r.size(), c.in.steps - t0);
      for (auto& x : r) add(std::move(x));
    }
  }
  c.counts["api_states"] += (long)set.size();
  c.counts["api_transitions"] += transitions;
}

void loadExtTable(Interp& in, const std::string& cls, const std::string& vtableOf) {
  for (auto& g : in.M->globals()) {
    std::string d = llvm::demangle(g.getName().str());
    if (d != "vtable for " + vtableOf || !g.hasInitializer()) continue;
    std::vector<std::string> t;
    auto* st = g.getInitializer();
    auto* arr = st->getAggregateElement(0u);
    for (unsigned i = 2; i < arr->getType()->getArrayNumElements(); ++i) {
      auto* f = llvm::dyn_cast<llvm::Function>(arr->getAggregateElement(i)->stripPointerCasts());
      std::string q = f ? in.qname(f) : "";
      size_t p = q.rfind("::");
      t.push_back(p == std::string::npos ? q : q.substr(p + 2));
    }
    in.extTables[cls] = t;
    return;
  }
  throw Broken{"no virtual table for " + vtableOf + " in the sources"};
}

#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
i128 typeSize(Interp& in, const std::string& cls) {
  for (const char* pre : {"class.", "struct."}) {
    auto* t = llvm::StructType::getTypeByName(in.M->getContext(), pre + cls);
    if (t && !t->isOpaque()) return (i128)in.DL->getTypeAllocSize(t).getFixedValue();
  }
  static llvm::DebugInfoFinder* f = nullptr;
  if (!f) { f = new llvm::DebugInfoFinder(); f->processModule(*in.M); }
  for (auto* t : f->types()) {
    auto* ct = llvm::dyn_cast<llvm::DICompositeType>(t);
    if (!ct || !ct->getSizeInBits()) continue;
    std::string n = ct->getName().str();
    for (auto* sc = ct->getScope(); sc; sc = sc->getScope()) { if (llvm::isa<llvm::DIFile>(sc) || llvm::isa<llvm::DICompileUnit>(sc)) break; n = sc->getName().str() + "::" + n; }
    if (n == cls) return (i128)(ct->getSizeInBits() / 8);
  }
  throw Broken{"type not found: " + cls};
}

// members of a class, from the debug information: name -> offset in bytes
std::map<std::string, i64> members(Interp& in, const std::string& cls) {
  std::map<std::string, i64> r;
  std::string last = cls.substr(cls.rfind("::") == std::string::npos ? 0 : cls.rfind("::") + 2);
  llvm::DebugInfoFinder f;
  f.processModule(*in.M);
  for (auto* t : f.types()) if (auto* ct = llvm::dyn_cast<llvm::DICompositeType>(t)) if (ct->getName() == last && !ct->isForwardDecl())
    for (auto* e : ct->getElements()) if (auto* m = llvm::dyn_cast<llvm::DIDerivedType>(e)) if (m->getTag() == llvm::dwarf::DW_TAG_member && !m->isStaticMember()) r[m->getName().str()] = (i64)m->getOffsetInBits() / 8;
  return r;
}
