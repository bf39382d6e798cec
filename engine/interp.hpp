// Abstract interpreter over LLVM IR: relational linear domain, heap shapes, disjunctive
// completion limited per program point, widening at loop heads.
#pragma once
#include "lin.hpp"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"

struct Broken { std::string why; };

enum VK : uint8_t { VUndef, VUnk, VInt, VPtr, VFn, VAgg };
enum { OBJ_NULL = -1, OBJ_TOP = -2 };
struct Value {
  VK k = VUndef;
  uint8_t w = 0;
  int obj = OBJ_TOP;   // pointer base object / function index / aggregate index
  L e = 0;             // int value (mod 2^w) or pointer offset
  bool operator==(const Value& o) const { return k == o.k && w == o.w && obj == o.obj && e == o.e; }
};
Value vint(L e, int w);
Value vcst(i128 c, int w);
Value vptr(int obj, L off);
Value vnull();
Value vunk(int w = 0);

// content versions (hash-consed)
struct VerT {
  enum K { Base, Store, Copy, Fill } k;
  int base;            // previous version (or unique id for Base)
  L off, len;          // region
  Value val;           // Store: value; Fill: byte/element value
  int src; L srcOff;   // Copy
  int n;               // Store/Fill: element bytes
  std::string name;
  bool operator<(const VerT& o) const {
    auto t = [](const VerT& v) { return std::make_tuple((int)v.k, v.base, v.off, v.len, (int)v.val.k, (int)v.val.w, v.val.obj, v.val.e, v.src, v.srcOff, v.n); };
    return t(*this) < t(o);
  }
};

struct Obj {
  int id = 0;
  std::string name;
  L size = 0;
  bool alive = true;
  bool ro = false;
  bool freed = false;
  std::map<i64, Value> cells;
  int ver = -1;          // content of bytes not in cells; -1: none
  int fill = -1;         // constant byte for unspecified content (e.g. 0), -1 none
  int summ = -1;         // summary atom: every element (of summN bytes) satisfies its facts
  int summN = 0;
  const llvm::GlobalVariable* gv = nullptr;
  std::string ext;       // external interface class ("" = none)
  int site = 0;          // allocation kind tag: 0 other,1 new,2 new[],3 malloc
};
typedef std::shared_ptr<const Obj> ObjP;

// content equality: objA[offA..+len) == objB[offB..+len)  (versions fixed)
struct EqR { int va; L oa; int vb; L ob; L len; };

struct State {
  Num n;
  std::map<int, ObjP> heap;
  std::map<std::string, Value> ghost;   // specification state; part of joins (ints and pointers)
  std::vector<EqR> eqr;
  std::string imprecise;                // non-empty: analysis lost soundness of alarm here
  bool dead() const { return n.dead; }
};

typedef std::vector<Value> Env;

struct Constraint { enum K { GE, EQ, NE } k; L e; };
struct NeedSplit { std::vector<std::vector<Constraint>> cases; const char* why; };
struct Stopped {};   // another worker has found a violation
struct PathEnd {};   // current path does not continue (exit, trap)

struct FInfo;
struct Outcome { State st; Value ret; };

struct ObRec {
  long ok = 0, fail = 0, und = 0;
  std::string detail, chain, loc;
};

struct Interp;
struct Spec {
  virtual ~Spec() {}
  // return true if handled (fills out with outcomes)
  virtual bool model(Interp&, State&, const llvm::Function*, std::vector<Value>&, std::vector<Outcome>&) { return false; }
  virtual void onCall(Interp&, State&, const llvm::Function*, std::vector<Value>&) {}
  virtual void onReturn(Interp&, State&, const llvm::Function*, const std::vector<Value>&, const Value&) {}
  // std::string mutated by append/push_back: src describes the bytes (ptr or fill)
  virtual void onStrAppend(Interp&, State&, const Value& str, L oldSize, const Value& src, L n, bool isFill) {}
  virtual void onStrAssign(Interp&, State&, const Value& str, const Value& src, L n) {}
  virtual bool extCall(Interp&, State&, const std::string& cls, const std::string& method, std::vector<Value>&, std::vector<Outcome>&) { return false; }
  virtual void onStore(Interp&, State&, const Value& ptr, const Value& v, int nbytes) {}
  virtual void beforeMerge(Interp&, State&, const llvm::Function*) {}   // may simplify ghosts before the outcomes of F are joined
  virtual std::string shapeTag(Interp&, State&) { return ""; }           // states with different tags are kept apart
  virtual void templates(Interp&, State&, std::vector<L>&) {}            // expressions whose sign joins try to keep (same order in every state)
  virtual bool wantCallback(const std::string&) { return true; }
};

struct Interp {
  llvm::Module* M;
  const llvm::DataLayout* DL;
  Spec* spec = nullptr;
  std::string only;                   // the property being checked
  std::string prop = "X00";           // property that memory obligations belong to
  bool memObs = true;
  bool checkOverflow = false;         // obligations for signed overflow (nsw)
  int Kloop = 3, Kret = 3, Kblock = 24, Mjoin = 3, Mwiden = 6;
  long steps = 0, maxSteps = 400000000;
  long joins = 0, widens = 0, calls = 0, peak = 0;
  bool trackContent = true;
  int debug = 0;
  std::map<std::string, std::map<std::string, ObRec>> obs;   // prop -> key -> rec
  std::set<std::string> usedFns, unmodelled, extModels;
  std::map<const llvm::Function*, std::string> nameCache;
  std::map<const llvm::Function*, std::unique_ptr<FInfo>> finfo;
  std::map<const llvm::GlobalVariable*, int> gobj;
  std::map<int, const llvm::GlobalVariable*> objGlobal;
  std::map<int, const llvm::GlobalVariable*> verGlobal;   // content version -> the constant it is the content of
  std::map<int, int> literalVer;
  std::map<int, ObjP> gheap;          // initial contents of globals
  std::map<int, int> addrAtoms;
  std::vector<const llvm::Function*> fnTable;
  std::vector<std::vector<Value>> aggs;
  int nextObj = 1;
  struct FrameRef { const llvm::Function* F; const Env* env; const llvm::Instruction* at; const std::vector<Value>* args; std::shared_ptr<std::vector<Value>> roots; };
  std::vector<FrameRef> stack;
  const llvm::Instruction* cur = nullptr;

  Interp(llvm::Module* m);
  // --- names
  const std::string& dname(const llvm::Function* F);
  std::unordered_map<const llvm::Function*, std::string> qnameCache;
  std::string qname0(const llvm::Function* F);
  const std::string& qname(const llvm::Function* F);   // demangled without argument list
  const llvm::Function* find(const std::string& qn, size_t nth = 0);
  std::vector<const llvm::Function*> findAll(const std::string& qn);
  std::string loc();
  std::string chain();
  // --- objects
  int fresh(State& s, const std::string& name, L size);
  Obj* mut(State& s, int id);
  const Obj* get(State& s, int id);
  int globalObj(const llvm::GlobalVariable* g);
  int addrAtom(int obj);
  int newVer(const VerT& v);
  int baseVer(const std::string& name);
  int fillBase_ = -1;
  int fillBase() { if (fillBase_ < 0) fillBase_ = baseVer("outside"); return fillBase_; }
  // --- numeric helpers
  L U(State& s, const Value& v);
  L S(State& s, const Value& v);
  L canon(State& s, L e, int w, bool sg);
  bool decide(State& s, Constraint::K k, L e, bool* val);   // true if decided
  bool test(State& s, Constraint::K k, L e, const char* why = "");  // splits if undecided
  // --- memory
  bool access(State& s, const Value& p, L n, bool write, const char* what);
  Value load(State& s, const Value& p, llvm::Type* ty);
  Value loadW(State& s, const Value& p, int nbytes, bool isPtr, bool checked = false);
  void store(State& s, const Value& p, const Value& v, int nbytes, bool checked = false);
  Value readVer(State& s, int ver, L off, int nbytes, bool isPtr, int depth = 0);
  Value readCell(State& s, int obj, L off, int nbytes, bool isPtr);
  void copyMem(State& s, const Value& dst, const Value& src, L n);
  void fillMem(State& s, const Value& dst, L byte, L n);
  void flush(Obj* o);
  void havocContent(State& s, int obj, const std::string& why);
  void freeObj(State& s, const Value& p);
  Value constVal(const llvm::Constant* c, State* s);
  Value initLoad(const llvm::GlobalVariable* g, i64 off, int nbytes, bool isPtr, bool* ok);
  void weakUpdate(State& s, Obj* o, const Value& v, int nbytes);
  void instSummary(State& s, const Obj* o, int atom);
  // --- strings
  struct Str { Value data; L size, cap; };
  Str strGet(State& s, const Value& p);
  void strInit(State& s, const Value& p, bool checkUninit);
  void strSetSize(State& s, const Value& p, L size);
  void strRealloc(State& s, const Value& p, L need);   // ensure capacity; old buffer dies unless proven big enough
  void strAppend(State& s, const Value& p, const Value& src, L n, bool isFill);
  void strDestroy(State& s, const Value& p);
  // --- execution
  std::vector<Outcome> call(const llvm::Function* F, std::vector<Value> args, State st);
  std::vector<Outcome> exec(const llvm::Function* F, std::vector<Value>& args, State& st);
  bool builtin(State& s, const llvm::Function* F, const llvm::Instruction* I, std::vector<Value>& args, std::vector<Outcome>& out);
  Value operand(State& s, const Env& env, FInfo& fi, const llvm::Value* v);
  // --- joins
  std::string shapeKey(State& s, const Env* env, const std::vector<int>* live, bool coarse);
  bool joinStates(State& A, Env* ea, State& B, Env* eb, const std::vector<int>* live, bool widen, State* C, Env* ec, int* ndiff);
  bool leq(State& s, const Env* es, State& d, const Env* ed, const std::vector<int>* live, int rigidBelow);
  int diffCount(State& A, const Env* ea, State& B, const Env* eb, const std::vector<int>* live);
  void gcState(State& s, const Env* env, const std::vector<int>* live, const Value* extra = nullptr);
  void mergeOutcomes(std::vector<Outcome>& v, int K);
  std::string extMethod(const std::string& cls, int slot);
  std::map<std::string,std::vector<std::string>> extTables;
  std::vector<Value> extraRoots;
  bool strUnbounded = false;          // strings never reallocate (for checks about contents, not lifetimes)
  bool opaqueMod = false;             // reductions modulo 2^k give an opaque defined value (R01)
  const volatile int* stop = nullptr;   // set when the rest of the analysis is not needed
  bool pairJoin = false;              // joins also look for an order between any two joined values
  bool boost = false;                 // confirmation run: keep more disjuncts
  bool keepLoads = false;             // gc keeps facts about memory contents addressed by live values
  bool watchOn = false, watchCanon = false;
  std::map<int, std::vector<std::string>> watch;   // content version -> ghosts holding offsets that reads are compared with
  // --- obligations
  void oblige(State& s, const std::string& prop, const std::string& rule, bool ok, const std::string& detail, const std::string& key = "");
  bool obligeGE(State& s, const std::string& prop, const std::string& rule, L e, const std::string& detail);
  bool obligeEQ(State& s, const std::string& prop, const std::string& rule, L e, const std::string& detail);
  std::string dump(State& s);
  // --- utility
  Value mkInput(State& s, const std::string& name, L size, bool ro = true);
  int newAtomIn(State& s, const std::string& name, i128 lo, i128 hi) { return lin::newAtom(name, lo, hi); }
};

// e = d*q + r with 0 <= r < d (floor division for constant d, non-negative e otherwise)
void divmod(Interp& in, State& s, L e, L d, L* q, L* r, const char*);
