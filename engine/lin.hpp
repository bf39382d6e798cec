// Linear integer expressions over atoms (immutable unknowns), interned.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_map>
#include <set>
#include <vector>
#include <deque>
#include <string>
#include <algorithm>
#include <memory>
#include <tuple>
#include <functional>
#include <cassert>

typedef __int128 i128;
typedef long long i64;
struct Overflow {};
static const i128 kBig = ((i128)1) << 100;
static const i128 kInf = ((i128)1) << 110;

inline i128 ck(i128 v) {
  if (v > kBig || v < -kBig) throw Overflow();
  return v;
}
inline i128 mulck(i128 a, i128 b) {
  i128 r;
  if (__builtin_mul_overflow(a, b, &r)) throw Overflow();
  return ck(r);
}
inline i128 gcd128(i128 a, i128 b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) { i128 t = a % b; a = b; b = t; }
  return a;
}
inline i128 floordiv(i128 a, i128 b) {  // b>0
  i128 q = a / b;
  if (a % b != 0 && (a < 0)) --q;
  return q;
}
std::string i128s(i128 v);
inline i128 pow2(int k) { return ((i128)1) << k; }

struct LinT {
  std::vector<std::pair<int, i128>> t;  // sorted by atom
  i128 c = 0;
  bool operator==(const LinT& o) const { return c == o.c && t == o.t; }
};
typedef int L;  // interned id

struct AtomInfo {
  i128 lo, hi;
  std::string name;
  int def;  // index into defs, or -1
};

// definition of an atom: kind + parameters
struct Def {
  enum K { Load, Rem, Div, Mod, Bit, UF, Elem } kind;
  int ver;                 // Load: content version
  std::vector<L> args;     // offsets / operands
  std::string fn;          // UF name
  int n;                   // Load: bytes; Mod: bits; Bit: index
  bool operator<(const Def& o) const {
    return std::tie(kind, ver, args, fn, n) < std::tie(o.kind, o.ver, o.args, o.fn, o.n);
  }
};

namespace lin {
extern std::deque<LinT> store;
extern std::deque<AtomInfo> atoms;
extern std::deque<Def> defs;
L intern(LinT&& x);
inline const LinT& get(L l) { return store[l]; }
L cst(i128 c);
L atom(int a);
L add(L a, L b);
L sub(L a, L b);
L mulc(L a, i128 k);
L addc(L a, i128 k);
inline bool isConst(L a) { return get(a).t.empty(); }
inline i128 constOf(L a) { return get(a).c; }
inline bool isConst(L a, i128* v) { if (!get(a).t.empty()) return false; *v = get(a).c; return true; }
L substAtom(L a, int atom, L by);
i128 coef(L a, int atom);
bool divisible(L a, i128 k);   // all coefs and constant divisible
L divc(L a, i128 k);           // requires divisible
int newAtom(const std::string& name, i128 lo, i128 hi);
int defAtom(const Def& d, const std::string& name, i128 lo, i128 hi);  // hash-consed
std::string str(L a);
void ival(L a, i128* lo, i128* hi);  // by intrinsic ranges
}

// ---------------------------------------------------------------- numeric state
struct Bnd { int a; i128 lo, hi; };

struct Num {
  std::vector<L> ge;                         // each >= 0, >= 2 atoms
  std::vector<L> ne;                         // each != 0
  std::vector<Bnd> bnd;                      // sorted by atom: refined ranges
  std::vector<std::pair<int, L>> sub;        // sorted: solved equalities atom := L
  bool dead = false;                         // known infeasible

  L norm(L a) const;
  bool range(int a, i128* lo, i128* hi) const;   // refined range of atom
  void ival(L a, i128* lo, i128* hi) const;
  void assumeGE(L e);                        // may set dead
  void assumeEQ(L e);
  void assumeNE(L e);
  bool entailsGE(L e) const;
  bool entailsEQ(L e) const;
  bool entailsNE(L e) const;
  bool feasible() const;
  void assumeBnd(int a, i128 lo, i128 hi);
  void gc(const std::set<int>& live);        // project onto live atoms (approx.)
  std::string str() const;
  void reduce();                             // drop redundant facts
 private:
  void addGe(L e);
  void recheckNe();
};
extern long g_lp_calls, g_lp_hits, g_ent_calls;
// LP: is { rows >= 0, bounds } satisfiable over rationals? 1 yes, 0 no, -1 unknown
int lpFeasible(const std::vector<L>& rows, const std::function<void(int, i128*, i128*)>& range);
