// T01: what is shared between threads is not written.  An interprocedural, flow-insensitive taint analysis over the IR:
// tainted pointers lead to memory that several threads may share (static storage, the dictionary given to an encoder and
// everything reached from them); nothing may be written through them.
#include "contracts.hpp"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;
static const std::string V = "open_vcdiff::";
namespace {
struct Threads {
  Ctx& c; Interp& in; Module* M;
  Threads(Ctx& x) : c(x), in(x.in), M(x.in.M) {}
  std::set<const Function*> reach;
  std::set<const llvm::Value*> taint;            // SSA values (pointers) leading to shared memory
  std::map<const llvm::Value*, std::string> why;
  std::set<const llvm::Value*> content;          // allocas that may hold such pointers
  std::set<std::string> fields;            // class fields that may hold such pointers
  std::set<const Function*> retTaint;
  std::vector<const Function*> addrTaken;
  std::vector<std::vector<const Function*>> vtables;
  bool changed = false;
  static bool shareable(const GlobalVariable* g) {
    if (g->isConstant() || g->isThreadLocal() || g->getName().starts_with("llvm.")) return false;
    return !g->getName().starts_with("_ZGV") && !g->getName().starts_with("_ZTV") && g->getName() != "__dso_handle" && !stream(g);
  }
  static bool stream(const GlobalVariable* g) { return g->getName() == "_ZSt4cerr" || g->getName() == "_ZSt4cout" || g->getName() == "_ZSt4clog" || g->getName() == "stderr" || g->getName() == "stdout"; }
  const llvm::Value* base(const llvm::Value* v) {
    for (;;) {
      if (auto* g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand();
      else if (auto* b = dyn_cast<BitCastOperator>(v)) v = b->getOperand(0);
      else return v;
    }
  }
  std::string field(const llvm::Value* p) {
    auto* g = dyn_cast<GEPOperator>(p);
    if (!g) return "";
    auto* st = dyn_cast<StructType>(g->getSourceElementType());
    if (!st || !st->hasName() || st->getName().find("open_vcdiff") == StringRef::npos || st->getName().find("std::") != StringRef::npos) return "";
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*in.DL, off)) return "";
    return st->getName().str() + "+" + std::to_string(off.getSExtValue());
  }
  bool isT(const llvm::Value* v) {
    if (taint.count(v)) return true;
    if (auto* g = dyn_cast<GlobalVariable>(v)) return shareable(g);
    if (auto* ce = dyn_cast<ConstantExpr>(v)) { for (auto& o : ce->operands()) if (isT(o)) return true; }
    return false;
  }
  std::string reason(const llvm::Value* v) {
    auto it = why.find(v);
    if (it != why.end()) return it->second;
    if (auto* g = dyn_cast<GlobalVariable>(base(v))) return "static variable " + demangle(g->getName().str());
    return "shared memory";
  }
  void mark(const llvm::Value* v, const std::string& w) { if (taint.insert(v).second) { why[v] = w; changed = true; } }
  void visit(const Function* F) { if (F && !F->isDeclaration() && !exempt(F) && reach.insert(F).second) changed = true; }
  // Init of a dictionary and the hash table of the rolling hash are documented to be done before threads are started
  bool exempt(const Function* F) { const std::string& q = in.qname(F); return q.compare(0, 25, "open_vcdiff::RollingHash<") == 0 && q.size() > 6 && q.compare(q.size() - 6, 6, "::Init") == 0; }
  // an object under construction is not shared yet, and one that is destroyed is not shared any more
  bool lifetime(const Function* F) {
    const std::string& q = in.qname(F);
    size_t p = q.rfind("::");
    if (p == std::string::npos) return false;
    if (q[p + 2] == '~') return true;
    std::string last = q.substr(p + 2), cls = q.substr(0, p);
    size_t t = cls.find('<'); if (t != std::string::npos) cls = cls.substr(0, t);
    size_t k = cls.rfind("::"); if (k != std::string::npos) cls = cls.substr(k + 2);
    return cls == last;
  }
  std::vector<const Function*> callees(const CallBase& cb) {
    std::vector<const Function*> r;
    if (auto* f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) { r.push_back(f); return r; }
    // virtual call: the functions at that place of some table of virtual functions
    long slot = -1;
    const llvm::Value* t = nullptr;
    if (auto* ld = dyn_cast<LoadInst>(cb.getCalledOperand())) {
      t = ld->getPointerOperand();
      slot = 0;
      if (auto* g = dyn_cast<GEPOperator>(t)) { APInt off(64, 0); if (g->accumulateConstantOffset(*in.DL, off)) { slot = (long)off.getSExtValue() / 8; t = g->getPointerOperand(); } else slot = -1; }
      if (!isa<LoadInst>(t)) slot = -1;
    }
    if (slot >= 0) {
      for (auto& vt : vtables) if ((size_t)slot < vt.size() && vt[slot] && vt[slot]->getFunctionType() == cb.getFunctionType()) r.push_back(vt[slot]);
      return r;
    }
    for (auto* f : addrTaken) if (f->getFunctionType() == cb.getFunctionType()) r.push_back(f);
    return r;
  }
  void propagate() {
    do {
      changed = false;
      std::vector<const Function*> fs(reach.begin(), reach.end());
      for (auto* F : fs) for (auto& I : instructions(F)) {
        if (auto* ld = dyn_cast<LoadInst>(&I)) {
          if (!ld->getType()->isPointerTy()) continue;
          const llvm::Value* p = ld->getPointerOperand();
          if (isT(p)) mark(ld, reason(p));
          else if (content.count(base(p))) mark(ld, reason(base(p)));
          else { std::string f = field(p); if (!f.empty() && fields.count(f)) mark(ld, "what member " + f + " points to"); }
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { if (isT(g->getPointerOperand())) mark(g, reason(g->getPointerOperand())); }
        else if (isa<BitCastInst>(I) || isa<AddrSpaceCastInst>(I) || isa<FreezeInst>(I)) { if (isT(I.getOperand(0))) mark(&I, reason(I.getOperand(0))); }
        else if (isa<PHINode>(I) || isa<SelectInst>(I)) { if (I.getType()->isPointerTy()) for (auto& o : I.operands()) if (o->getType()->isPointerTy() && isT(o)) mark(&I, reason(o)); }
        else if (auto* st = dyn_cast<StoreInst>(&I)) {
          const llvm::Value* v = st->getValueOperand();
          if (!v->getType()->isPointerTy() || !isT(v)) continue;
          const llvm::Value* b = base(st->getPointerOperand());
          if (isa<AllocaInst>(b)) { if (content.insert(b).second) { why[b] = reason(v); changed = true; } }
          std::string f = field(st->getPointerOperand());
          if (!f.empty() && fields.insert(f).second) changed = true;
        } else if (auto* r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy() && isT(r->getReturnValue()) && retTaint.insert(F).second) changed = true; }
        else if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          for (auto* f : callees(*cb)) {
            visit(f);
            if (f->isDeclaration()) continue;
            for (unsigned i = lifetime(f) ? 1 : 0; i < cb->arg_size() && i < f->arg_size(); ++i) if (cb->getArgOperand(i)->getType()->isPointerTy() && isT(cb->getArgOperand(i))) mark(f->getArg(i), reason(cb->getArgOperand(i)));
            if (retTaint.count(f)) mark(cb, "result of " + in.qname(f));
          }
          // a std function that returns a reference into its argument
          for (auto* f : callees(*cb)) if (f->isDeclaration() && cb->getType()->isPointerTy() && cb->arg_size() && cb->getArgOperand(0)->getType()->isPointerTy() && isT(cb->getArgOperand(0)) && in.qname(f).compare(0, 5, "std::") == 0) mark(cb, reason(cb->getArgOperand(0)));
        }
      }
    } while (changed);
  }
  std::string where(const Instruction& I) {
    std::string r = in.qname(I.getFunction());
    if (auto& d = I.getDebugLoc()) { std::string f = d->getScope()->getFilename().str(); size_t p = f.rfind('/'); r = (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(d.getLine()) + " in " + r; }
    return r;
  }
  // inside the initialiser of a function-local static, which runs once
  bool guarded(const Instruction& I, DominatorTree& dt) {
    const Function* F = I.getFunction();
    for (auto& J : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&J)) if (auto* f = cb->getCalledFunction()) if (f->getName() == "__cxa_guard_acquire") {
      for (auto* u : cb->users()) if (auto* ic = dyn_cast<ICmpInst>(u)) for (auto* b : ic->users()) if (auto* br = dyn_cast<BranchInst>(b)) if (br->isConditional() && dt.dominates(br->getSuccessor(ic->getPredicate() == CmpInst::ICMP_NE ? 0 : 1), I.getParent())) return true;
    }
    return false;
  }
  // after a mutex was taken in the same function
  bool locked(const Instruction& I, DominatorTree& dt) {
    for (auto& J : instructions(I.getFunction())) if (auto* cb = dyn_cast<CallBase>(&J)) for (auto* f : callees(*cb)) {
      const std::string& q = in.qname(f);
      if ((q == "pthread_mutex_lock" || q == "std::mutex::lock" || q.compare(0, 16, "std::lock_guard<") == 0 || q.compare(0, 17, "std::unique_lock<") == 0) && dt.dominates(&J, &I)) return true;
    }
    return false;
  }
  void check() {
    State s;
    for (auto* F : reach) {
      DominatorTree dt(*const_cast<Function*>(F));
      c.counts["functions"]++;
      in.usedFns.insert(in.qname(F));
      for (auto& I : instructions(F)) {
        auto ob = [&](const llvm::Value* p, const std::string& rule) {
          c.counts["writes"]++;
          bool ok = !isT(p) || guarded(I, dt) || locked(I, dt);
          if (isT(p)) c.counts["writes to shared memory"]++;
          in.oblige(s, "T01", rule, ok, ok ? "" : "writes " + reason(p) + " without synchronisation", where(I));
        };
        if (auto* st = dyn_cast<StoreInst>(&I)) { if (!st->isAtomic() && !isa<AllocaInst>(base(st->getPointerOperand()))) ob(st->getPointerOperand(), "memory shared between threads is not written"); }
        else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) { (void)x; c.counts["atomics"]++; }
        else if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (auto* mi = dyn_cast<MemIntrinsic>(&I)) { ob(mi->getDest(), "memory shared between threads is not written"); continue; }
          if (isa<IntrinsicInst>(I)) continue;
          for (auto* f : callees(*cb)) {
            if (!f->isDeclaration()) continue;
            StringRef n = f->getName();
            if (n.starts_with("__cxa_")) continue;
            // whether a member owns what it points to depends on the path, so only the direct release of something shared counts
            if (in.qname(f).compare(0, 15, "operator delete") == 0 && cb->arg_size() && reason(cb->getArgOperand(0)).compare(0, 11, "what member") == 0) continue;
            const std::string& d = in.dname(f);
            bool isConst = d.size() > 6 && d.compare(d.size() - 6, 6, " const") == 0;
            bool writes = !isConst && n != "memcmp" && n != "strlen" && n != "strcmp" && n != "abort" && n != "exit";
            if (in.qname(f).find("operator<<") != std::string::npos || in.qname(f).find("basic_ostream") != std::string::npos) writes = false;
            if (writes && cb->arg_size() && cb->getArgOperand(0)->getType()->isPointerTy()) ob(cb->getArgOperand(0), "memory shared between threads is not changed or released by " + in.qname(f));
          }
        }
      }
    }
  }
  // the table of the rolling hash is complete when it becomes visible
  void published() {
    State s;
    for (auto& F : *M) {
      if (F.isDeclaration() || !exempt(&F)) continue;
      std::vector<const Instruction*> pubs;
      for (auto& I : instructions(F)) if (auto* st = dyn_cast<StoreInst>(&I)) if (isa<GlobalVariable>(base(st->getPointerOperand())) && st->getValueOperand()->getType()->isPointerTy()) pubs.push_back(&I);
      for (auto* p : pubs) {
        // instructions that can run after p
        std::set<const BasicBlock*> seen;
        std::vector<const BasicBlock*> todo(succ_begin(p->getParent()), succ_end(p->getParent()));
        std::vector<const Instruction*> after;
        for (auto it = std::next(p->getIterator()); it != p->getParent()->end(); ++it) after.push_back(&*it);
        while (!todo.empty()) { auto* b = todo.back(); todo.pop_back(); if (!seen.insert(b).second) continue; for (auto& I : *b) after.push_back(&I); for (auto* x : successors(b)) todo.push_back(x); }
        bool ok = true;
        std::string w;
        for (auto* I : after) {
          bool wr = false;
          if (auto* st = dyn_cast<StoreInst>(I)) wr = !isa<AllocaInst>(base(st->getPointerOperand()));
          else if (auto* mi = dyn_cast<MemIntrinsic>(I)) wr = !isa<AllocaInst>(base(mi->getDest()));
          if (wr) { ok = false; w = where(*I); }
        }
        in.oblige(s, "T01", "the table is filled before its address is published", ok, w, where(*p));
        c.counts["publications"]++;
      }
    }
  }
  void run() {
    for (auto& F : *M) if (!F.isDeclaration() && F.hasAddressTaken()) addrTaken.push_back(&F);
    for (auto& g : M->globals()) {
      if (!g.getName().starts_with("_ZTV") || !g.hasInitializer()) continue;
      auto* cs = dyn_cast<ConstantStruct>(g.getInitializer());
      if (!cs) continue;
      for (auto& op : cs->operands()) if (auto* arr = dyn_cast<ConstantArray>(op)) {
        std::vector<const Function*> v;
        for (unsigned i = 2; i < arr->getNumOperands(); ++i) v.push_back(dyn_cast<Function>(arr->getOperand(i)->stripPointerCasts()));
        vtables.push_back(v);
      }
    }
    long roots = 0;
    for (auto& F : *M) {
      if (F.isDeclaration()) continue;
      const std::string& q = in.qname(&F);
      bool enc = q.compare(0, V.size() + 24, V + "VCDiffStreamingEncoder::") == 0, dec = q.compare(0, V.size() + 24, V + "VCDiffStreamingDecoder::") == 0;
      bool simple = q.compare(0, V.size() + 15, V + "VCDiffEncoder::") == 0 || q.compare(0, V.size() + 15, V + "VCDiffDecoder::") == 0;
      if (!enc && !dec && !simple) continue;
      visit(&F); ++roots;
      // the dictionary is shared
      if (enc && F.arg_size() >= 2 && in.dname(&F).find("HashedDictionary const*") != std::string::npos) mark(F.getArg(1), "the dictionary");
      if (dec && F.arg_size() >= 2 && q.compare(q.size() - 15, 15, "::StartDecoding") == 0) mark(F.getArg(1), "the dictionary");
    }
    // virtual functions of the writers are called through pointers
    if (roots < 8) throw Broken{"public encoder and decoder functions not found"};
    c.counts["roots"] = roots;
    propagate();
    c.counts["tainted values"] = (long)taint.size();
    check();
    published();
  }
};
}
CHECK(T01) { Threads(c).run(); }
