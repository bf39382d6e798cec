#include "lin.hpp"

std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0;
  std::string s;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  while (u) { s.push_back('0' + (int)(u % 10)); u /= 10; }
  if (neg) s.push_back('-');
  std::reverse(s.begin(), s.end());
  return s;
}

namespace lin {
std::deque<LinT> store;
std::deque<AtomInfo> atoms;
std::deque<Def> defs;
struct H {
  size_t operator()(const LinT* x) const {
    uint64_t h = (uint64_t)x->c * 0x9E3779B97F4A7C15ull + 17;
    for (auto& p : x->t) {
      h ^= (uint64_t)p.first * 0xC2B2AE3D27D4EB4Full + (h << 6) + (h >> 2);
      h ^= (uint64_t)p.second * 0x165667B19E3779F9ull + (h << 7) + (h >> 3);
    }
    return h;
  }
};
struct E {
  bool operator()(const LinT* a, const LinT* b) const { return *a == *b; }
};
static std::unordered_map<const LinT*, int, H, E>& table() {
  static auto* t = new std::unordered_map<const LinT*, int, H, E>();
  return *t;
}
L intern(LinT&& x) {
  auto& tb = table();
  auto it = tb.find(&x);
  if (it != tb.end()) return it->second;
  store.push_back(std::move(x));
  int id = (int)store.size() - 1;
  tb.emplace(&store[id], id);
  return id;
}
L cst(i128 c) { LinT x; x.c = ck(c); return intern(std::move(x)); }
L atom(int a) { LinT x; x.t.push_back({a, 1}); return intern(std::move(x)); }
static LinT comb(const LinT& a, const LinT& b, i128 k) {
  LinT r;
  r.t.reserve(a.t.size() + b.t.size());
  r.c = ck(a.c + mulck(b.c, k));
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
      r.t.push_back(a.t[i++]);
    } else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
      r.t.push_back({b.t[j].first, mulck(b.t[j].second, k)});
      ++j;
    } else {
      i128 v = ck(a.t[i].second + mulck(b.t[j].second, k));
      if (v != 0) r.t.push_back({a.t[i].first, v});
      ++i; ++j;
    }
  }
  return r;
}
L add(L a, L b) {
  if (isConst(a) && constOf(a) == 0) return b;
  if (isConst(b) && constOf(b) == 0) return a;
  return intern(comb(get(a), get(b), 1));
}
L sub(L a, L b) {
  if (isConst(b) && constOf(b) == 0) return a;
  return intern(comb(get(a), get(b), -1));
}
L mulc(L a, i128 k) {
  if (k == 1) return a;
  if (k == 0) return cst(0);
  LinT r;
  r.c = mulck(get(a).c, k);
  for (auto& p : get(a).t) r.t.push_back({p.first, mulck(p.second, k)});
  return intern(std::move(r));
}
L addc(L a, i128 k) {
  if (k == 0) return a;
  LinT r = get(a);
  r.c = ck(r.c + k);
  return intern(std::move(r));
}
i128 coef(L a, int at) {
  auto& t = get(a).t;
  auto it = std::lower_bound(t.begin(), t.end(), at, [](const std::pair<int, i128>& p, int v) { return p.first < v; });
  if (it != t.end() && it->first == at) return it->second;
  return 0;
}
L substAtom(L a, int at, L by) {
  i128 k = coef(a, at);
  if (k == 0) return a;
  LinT r;
  r.c = get(a).c;
  for (auto& p : get(a).t) if (p.first != at) r.t.push_back(p);
  return intern(comb(r, get(by), k));
}
bool divisible(L a, i128 k) {
  if (get(a).c % k) return false;
  for (auto& p : get(a).t) if (p.second % k) return false;
  return true;
}
L divc(L a, i128 k) {
  LinT r;
  r.c = get(a).c / k;
  for (auto& p : get(a).t) r.t.push_back({p.first, p.second / k});
  return intern(std::move(r));
}
int newAtom(const std::string& name, i128 lo, i128 hi) {
  atoms.push_back(AtomInfo{lo, hi, name, -1});
  return (int)atoms.size() - 1;
}
static std::map<Def, int>& defTable() { static auto* t = new std::map<Def, int>(); return *t; }
int defAtom(const Def& d, const std::string& name, i128 lo, i128 hi) {
  auto it = defTable().find(d);
  if (it != defTable().end()) return it->second;
  int a = newAtom(name, lo, hi);
  defs.push_back(d);
  atoms[a].def = (int)defs.size() - 1;
  defTable()[d] = a;
  return a;
}
std::string str(L a) {
  const LinT& x = get(a);
  std::string s;
  for (auto& p : x.t) {
    if (p.second > 0 && !s.empty()) s += "+";
    if (p.second == -1) s += "-";
    else if (p.second != 1) s += i128s(p.second) + "*";
    s += atoms[p.first].name + "#" + std::to_string(p.first);
  }
  if (x.c != 0 || s.empty()) {
    if (x.c >= 0 && !s.empty()) s += "+";
    s += i128s(x.c);
  }
  return s;
}
void ival(L a, i128* lo, i128* hi) {
  const LinT& x = get(a);
  i128 l = x.c, h = x.c;
  for (auto& p : x.t) {
    const AtomInfo& ai = atoms[p.first];
    if (p.second > 0) {
      l = (l <= -kInf || ai.lo <= -kInf) ? -kInf : l + p.second * ai.lo;
      h = (h >= kInf || ai.hi >= kInf) ? kInf : h + p.second * ai.hi;
    } else {
      l = (l <= -kInf || ai.hi >= kInf) ? -kInf : l + p.second * ai.hi;
      h = (h >= kInf || ai.lo <= -kInf) ? kInf : h + p.second * ai.lo;
    }
  }
  *lo = l < -kInf ? -kInf : l; *hi = h > kInf ? kInf : h;
}
}  // namespace lin

using namespace lin;

// ------------------------------------------------------------------ LP (simplex)
struct Rat {
  i128 n = 0, d = 1;
  Rat() {}
  Rat(i128 v) : n(v) {}
  Rat(i128 a, i128 b) : n(a), d(b) { fix(); }
  void fix() {
    if (d == 1) return;
    if (d < 0) { d = -d; n = -n; }
    i128 g = gcd128(n, d);
    if (g > 1) { n /= g; d /= g; }
  }
};
static inline i128 mo(i128 a, i128 b) {
  i128 r;
  if (__builtin_mul_overflow(a, b, &r)) throw Overflow();
  return r;
}
static inline i128 ao(i128 a, i128 b) {
  i128 r;
  if (__builtin_add_overflow(a, b, &r)) throw Overflow();
  return r;
}
static inline Rat operator+(const Rat& a, const Rat& b) {
  if (a.d == 1 && b.d == 1) return Rat(ao(a.n, b.n));
  return Rat(ao(mo(a.n, b.d), mo(b.n, a.d)), mo(a.d, b.d));
}
static inline Rat operator-(const Rat& a, const Rat& b) {
  if (a.d == 1 && b.d == 1) return Rat(ao(a.n, -b.n));
  return Rat(ao(mo(a.n, b.d), -mo(b.n, a.d)), mo(a.d, b.d));
}
static inline Rat operator*(const Rat& a, const Rat& b) {
  if (a.d == 1 && b.d == 1) return Rat(mo(a.n, b.n));
  return Rat(mo(a.n, b.n), mo(a.d, b.d));
}
static inline Rat operator/(const Rat& a, const Rat& b) { return Rat(mo(a.n, b.d), mo(a.d, b.n)); }
static inline int cmp(const Rat& a, const Rat& b) {
  if (a.d == b.d) return a.n < b.n ? -1 : a.n > b.n;
  i128 l = mo(a.n, b.d), r = mo(b.n, a.d);
  return l < r ? -1 : l > r;
}
static inline int sgn(const Rat& a) { return a.n < 0 ? -1 : a.n > 0; }

long g_lp_calls, g_lp_hits, g_ent_calls;

int lpFeasible(const std::vector<L>& rows, const std::function<void(int, i128*, i128*)>& range) {
  ++g_lp_calls;
  std::vector<int> vars;
  for (L r : rows) for (auto& p : get(r).t) vars.push_back(p.first);
  std::sort(vars.begin(), vars.end());
  vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  int n = (int)vars.size(), m = (int)rows.size();
  std::map<int, int> idx;
  for (int i = 0; i < n; ++i) idx[vars[i]] = i;
  int N = n + m;
  struct B { bool hl, hh; Rat lo, hi; };
  std::vector<B> b(N);
  std::vector<Rat> val(N);
  for (int i = 0; i < n; ++i) {
    i128 lo, hi;
    range(vars[i], &lo, &hi);
    b[i].hl = lo > -kInf; b[i].hh = hi < kInf;
    if (b[i].hl) b[i].lo = Rat(lo);
    if (b[i].hh) b[i].hi = Rat(hi);
    if (b[i].hl && b[i].hh && lo > hi) return 0;
    // start value: bound of smallest magnitude, or 0 when allowed
    if (b[i].hl && lo > 0) val[i] = Rat(lo);
    else if (b[i].hh && hi < 0) val[i] = Rat(hi);
    else if (b[i].hl) val[i] = Rat(lo);
    else if (b[i].hh) val[i] = Rat(hi);
    else val[i] = Rat(0);
  }
  std::vector<std::vector<Rat>> T(m, std::vector<Rat>(N));  // basic_i = sum T[i][j]*x_j over nonbasic
  std::vector<int> basic(m), where(N, -1);
  for (int i = 0; i < m; ++i) {
    Rat v(0);
    for (auto& p : get(rows[i]).t) {
      T[i][idx[p.first]] = Rat(p.second);
    }
    basic[i] = n + i;
    where[n + i] = i;
    b[n + i].hl = true; b[n + i].hh = false;
    b[n + i].lo = Rat(-get(rows[i]).c);   // sum >= -c
  }
  try {
    for (int i = 0; i < m; ++i) {
      Rat v(0);
      for (int j = 0; j < n; ++j) if (T[i][j].n) v = v + T[i][j] * val[j];
      val[n + i] = v;
    }
    for (int iter = 0; iter < 2000; ++iter) {
      // find violated basic var (smallest index: Bland)
      int vi = -1; int bestvar = N;
      bool below = false;
      for (int i = 0; i < m; ++i) {
        int x = basic[i];
        if (x >= bestvar) continue;
        if (b[x].hl && cmp(val[x], b[x].lo) < 0) { bestvar = x; vi = i; below = true; }
        else if (b[x].hh && cmp(val[x], b[x].hi) > 0) { bestvar = x; vi = i; below = false; }
      }
      if (vi < 0) return 1;
      int x = basic[vi];
      // choose entering
      int ej = -1;
      for (int j = 0; j < N; ++j) {
        if (where[j] >= 0) continue;
        int s = sgn(T[vi][j]);
        if (!s) continue;
        bool inc = below ? s > 0 : s < 0;  // need x_j to increase?
        if (inc ? (!b[j].hh || cmp(val[j], b[j].hi) < 0) : (!b[j].hl || cmp(val[j], b[j].lo) > 0)) { ej = j; break; }
      }
      if (ej < 0) return 0;
      Rat target = below ? b[x].lo : b[x].hi;
      Rat a = T[vi][ej];
      Rat theta = (target - val[x]) / a;
      // update
      val[x] = target;
      val[ej] = val[ej] + theta;
      for (int i = 0; i < m; ++i) if (i != vi && T[i][ej].n) val[basic[i]] = val[basic[i]] + T[i][ej] * theta;
      // pivot: x leaves, ej enters.  x = sum T[vi][j] x_j  =>  ej = (x - sum_{j!=ej}) / a
      std::vector<Rat>& R = T[vi];
      Rat inv = Rat(1) / a;
      for (int j = 0; j < N; ++j) {
        if (where[j] >= 0 || j == ej) continue;
        if (R[j].n) R[j] = Rat(0) - R[j] * inv;
      }
      R[ej] = Rat(0);
      R[x] = inv;
      where[ej] = vi; where[x] = -1; basic[vi] = ej;
      for (int i = 0; i < m; ++i) {
        if (i == vi) continue;
        Rat k = T[i][ej];
        if (!k.n) continue;
        T[i][ej] = Rat(0);
        for (int j = 0; j < N; ++j) if (where[j] < 0 && R[j].n) T[i][j] = T[i][j] + k * R[j];
      }
    }
  } catch (Overflow&) {
    return -1;
  }
  return -1;
}

// ------------------------------------------------------------------ Num
L Num::norm(L a) const {
  if (sub.empty()) return a;
  const LinT& x = get(a);
  if (x.t.empty()) return a;
  bool hit = false;
  for (auto& p : x.t) {
    auto it = std::lower_bound(sub.begin(), sub.end(), p.first, [](const std::pair<int, L>& q, int v) { return q.first < v; });
    if (it != sub.end() && it->first == p.first) { hit = true; break; }
  }
  if (!hit) return a;
  L r = cst(x.c);
  for (auto& p : std::vector<std::pair<int, i128>>(x.t)) {
    auto it = std::lower_bound(sub.begin(), sub.end(), p.first, [](const std::pair<int, L>& q, int v) { return q.first < v; });
    if (it != sub.end() && it->first == p.first) r = add(r, mulc(it->second, p.second));
    else r = add(r, mulc(atom(p.first), p.second));
  }
  return r;
}
bool Num::range(int a, i128* lo, i128* hi) const {
  *lo = atoms[a].lo; *hi = atoms[a].hi;
  auto it = std::lower_bound(bnd.begin(), bnd.end(), a, [](const Bnd& q, int v) { return q.a < v; });
  if (it != bnd.end() && it->a == a) {
    if (it->lo > *lo) *lo = it->lo;
    if (it->hi < *hi) *hi = it->hi;
    return true;
  }
  return false;
}
void Num::ival(L a, i128* lo, i128* hi) const {
  const LinT& x = get(a);
  i128 l = x.c, h = x.c;
  for (auto& p : x.t) {
    i128 al, ah;
    range(p.first, &al, &ah);
    i128 k = p.second;
    if (k < 0) { i128 t = al; al = ah; ah = t; }
    // now contribution in [k*al, k*ah]
    l = (l <= -kInf || al >= kInf || al <= -kInf) ? -kInf : l + k * al;
    h = (h >= kInf || ah >= kInf || ah <= -kInf) ? kInf : h + k * ah;
    if (l < -kInf) l = -kInf;
    if (h > kInf) h = kInf;
  }
  *lo = l; *hi = h;
}
void Num::assumeBnd(int a, i128 lo, i128 hi) {
  auto it = std::lower_bound(bnd.begin(), bnd.end(), a, [](const Bnd& q, int v) { return q.a < v; });
  if (it == bnd.end() || it->a != a) it = bnd.insert(it, Bnd{a, atoms[a].lo, atoms[a].hi});
  if (lo > it->lo) it->lo = lo;
  if (hi < it->hi) it->hi = hi;
  if (it->lo > it->hi) { dead = true; return; }
  if (it->lo == it->hi) {
    i128 v = it->lo;
    bnd.erase(it);
    assumeEQ(addc(atom(a), -v));
  }
}
static L tighten(L e) {
  const LinT& x = get(e);
  i128 g = 0;
  for (auto& p : x.t) g = gcd128(g, p.second);
  if (g <= 1) return e;
  LinT r;
  r.c = floordiv(x.c, g);
  for (auto& p : x.t) r.t.push_back({p.first, p.second / g});
  return intern(std::move(r));
}
void Num::addGe(L e) {
  for (L f : ge) if (f == e) return;
  // parallel constraint?
  const LinT& x = get(e);
  for (size_t i = 0; i < ge.size(); ++i) {
    const LinT& y = get(ge[i]);
    if (y.t == x.t) {
      if (y.c <= x.c) return;        // existing is at least as strong
      ge[i] = e;                     // stronger
      return;
    }
  }
  ge.push_back(e);
  // opposite?
  L ng = mulc(e, -1);
  for (L f : ge) {
    if (get(f).t == get(ng).t) {
      // e: s + c >= 0 ; f: -s + c' >= 0  => -c <= s <= c'
      i128 c = get(e).c, c2 = get(f).c;
      if (c + c2 < 0) { dead = true; return; }
      if (c + c2 == 0) { assumeEQ(e); return; }
    }
  }
}
void Num::recheckNe() {
  for (size_t i = 0; i < ne.size(); ++i) {
    L e = norm(ne[i]);
    ne[i] = e;
    i128 v;
    if (isConst(e, &v)) {
      if (v == 0) { dead = true; return; }
      ne.erase(ne.begin() + i); --i; continue;
    }
    i128 lo, hi;
    ival(e, &lo, &hi);
    if (lo > 0 || hi < 0) { ne.erase(ne.begin() + i); --i; continue; }
    if (lo == 0) { ne.erase(ne.begin() + i); --i; assumeGE(addc(e, -1)); if (dead) return; continue; }
    if (hi == 0) { ne.erase(ne.begin() + i); --i; assumeGE(addc(mulc(e, -1), -1)); if (dead) return; continue; }
  }
}
void Num::assumeGE(L e) {
  if (dead) return;
  e = tighten(norm(e));
  i128 lo, hi;
  ival(e, &lo, &hi);
  if (lo >= 0) return;
  if (hi < 0) { dead = true; return; }
  const LinT& x = get(e);
  if (x.t.size() == 1) {
    int a = x.t[0].first;
    i128 k = x.t[0].second;  // ±1 after tighten
    if (k > 0) assumeBnd(a, -x.c, kInf);
    else assumeBnd(a, -kInf, x.c);
  } else {
    addGe(e);
  }
  if (!dead && !ne.empty()) recheckNe();
  if (dead || get(e).t.size() < 2) return;
  for (size_t i = 0; i < ne.size(); ++i)
    if (ne[i] == e || ne[i] == mulc(e, -1)) {
      ne.erase(ne.begin() + i);
      assumeGE(addc(e, -1));
      return;
    }
}
void Num::assumeEQ(L e) {
  if (dead) return;
  e = norm(e);
  i128 v;
  if (isConst(e, &v)) { if (v != 0) dead = true; return; }
  {
    i128 g = 0;
    for (auto& p : get(e).t) g = gcd128(g, p.second);
    if (g > 1) {
      if (get(e).c % g) { dead = true; return; }
      e = divc(e, g);
    }
  }
  i128 lo, hi;
  ival(e, &lo, &hi);
  if (lo > 0 || hi < 0) { dead = true; return; }
  // choose atom with unit coefficient: newest without def, else newest
  int pick = -1;
  for (auto& p : get(e).t) {
    if (p.second != 1 && p.second != -1) continue;
    if (pick < 0) { pick = p.first; continue; }
    bool pd = atoms[pick].def >= 0, cd = atoms[p.first].def >= 0;
    (void)pd; (void)cd;
    if (p.first > pick) pick = p.first;
  }
  if (pick < 0) {
    L n = mulc(e, -1);
    if (get(e).t.size() == 1) {  // k*a + c = 0 with g handled => k==±1, impossible
      dead = true; return;
    }
    bool have = false;
    for (L f : ge) if (f == e) have = true;
    if (!have) ge.push_back(e);
    have = false;
    for (L f : ge) if (f == n) have = true;
    if (!have) ge.push_back(n);
    return;
  }
  i128 k = coef(e, pick);
  L rhs = mulc(substAtom(e, pick, cst(0)), -k);  // k*a + r = 0 -> a = -r/k = -k*r
  i128 al, ah;
  range(pick, &al, &ah);
  auto bi = std::lower_bound(bnd.begin(), bnd.end(), pick, [](const Bnd& q, int v) { return q.a < v; });
  if (bi != bnd.end() && bi->a == pick) bnd.erase(bi);
  for (auto& p : sub) p.second = substAtom(p.second, pick, rhs);
  auto si = std::lower_bound(sub.begin(), sub.end(), pick, [](const std::pair<int, L>& q, int v) { return q.first < v; });
  sub.insert(si, {pick, rhs});
  std::vector<L> re;
  for (size_t i = 0; i < ge.size(); ++i)
    if (coef(ge[i], pick) != 0) { re.push_back(substAtom(ge[i], pick, rhs)); ge.erase(ge.begin() + i); --i; }
  if (al > -kInf) assumeGE(addc(rhs, -al));
  if (ah < kInf) assumeGE(lin::sub(cst(ah), rhs));
  for (L r : re) assumeGE(r);
  if (!dead && !ne.empty()) recheckNe();
}
void Num::assumeNE(L e) {
  if (dead) return;
  e = norm(e);
  i128 v;
  if (isConst(e, &v)) { if (v == 0) dead = true; return; }
  i128 lo, hi;
  ival(e, &lo, &hi);
  if (lo > 0 || hi < 0) return;
  if (entailsGE(e)) { assumeGE(addc(e, -1)); return; }
  L n = mulc(e, -1);
  if (entailsGE(n)) { assumeGE(addc(n, -1)); return; }
  for (L f : ne) if (f == e || f == n) return;
  ne.push_back(e);
}

struct Key128 { uint64_t a, b; bool operator==(const Key128& o) const { return a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key128& k) const { return k.a ^ (k.b * 31); } };
static std::unordered_map<Key128, signed char, KeyH>& lpMemo() {
  static auto* m = new std::unordered_map<Key128, signed char, KeyH>();
  return *m;
}
static inline void mix(uint64_t& h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
}
static int lpMemoized(const Num& s, std::vector<L> rows) {
  std::sort(rows.begin(), rows.end());
  rows.erase(std::unique(rows.begin(), rows.end()), rows.end());
  std::vector<int> vars;
  for (L r : rows) for (auto& p : get(r).t) vars.push_back(p.first);
  std::sort(vars.begin(), vars.end());
  vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  Key128 k{0x1234567, 0x89abcdef};
  for (L r : rows) { mix(k.a, r); mix(k.b, r * 7919u + 13); }
  for (int v : vars) {
    i128 lo, hi;
    s.range(v, &lo, &hi);
    mix(k.a, (uint64_t)v); mix(k.a, (uint64_t)lo); mix(k.a, (uint64_t)(lo >> 64)); mix(k.a, (uint64_t)hi); mix(k.a, (uint64_t)(hi >> 64));
    mix(k.b, (uint64_t)v * 3); mix(k.b, (uint64_t)lo * 5); mix(k.b, (uint64_t)hi * 11 + 1);
  }
  auto& memo = lpMemo();
  auto it = memo.find(k);
  if (it != memo.end()) { ++g_lp_hits; return it->second; }
  int r = lpFeasible(rows, [&](int a, i128* lo, i128* hi) { s.range(a, lo, hi); });
  memo[k] = (signed char)r;
  return r;
}
static std::vector<L> slice(const Num& s, L goal, int hops) {
  std::set<int> at;
  for (auto& p : get(goal).t) at.insert(p.first);
  std::vector<char> used(s.ge.size(), 0);
  std::vector<L> out;
  for (int h = 0; h < hops; ++h) {
    bool ch = false;
    std::set<int> add;
    for (size_t i = 0; i < s.ge.size(); ++i) {
      if (used[i]) continue;
      bool hit = false;
      for (auto& p : get(s.ge[i]).t) if (at.count(p.first)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true;
      out.push_back(s.ge[i]);
      for (auto& p : get(s.ge[i]).t) add.insert(p.first);
    }
    at.insert(add.begin(), add.end());
    if (!ch) break;
  }
  return out;
}
bool Num::entailsGE(L e0) const {
  ++g_ent_calls;
  if (dead) return true;
  L e;
  try { e = norm(e0); } catch (Overflow&) { return false; }
  i128 lo, hi;
  ival(e, &lo, &hi);
  if (lo >= 0) return true;
  if (hi < 0) return false;   // (unless facts contradictory)
  if (get(e).t.empty()) return false;
  e = tighten(e);
  ival(e, &lo, &hi);
  if (lo >= 0) return true;
  try {
    // one fact suffices?
    for (L f : ge) {
      const LinT& y = get(f);
      bool share = false;
      for (auto& p : y.t) if (coef(e, p.first) != 0) { share = true; break; }
      if (!share) continue;
      L d = lin::sub(e, f);
      i128 l, h;
      ival(d, &l, &h);
      if (l >= 0) return true;
    }
    L neg = addc(mulc(e, -1), -1);  // -e-1 >= 0
    std::vector<L> rows = slice(*this, e, 2);
    size_t n2 = rows.size();
    if (rows.empty()) {
      // no facts: only interval reasoning (already failed)
      if (ne.empty()) return false;
    }
    rows.push_back(neg);
    int r = lpMemoized(*this, rows);
    if (r == 0) return true;
    std::vector<L> full = slice(*this, e, 100);
    if (full.size() > n2) {
      full.push_back(neg);
      r = lpMemoized(*this, full);
      if (r == 0) return true;
      rows = full;
    }
    // use one disequality by case split
    for (L d : ne) {
      bool share = false;
      for (auto& p : get(d).t) for (L q : rows) if (coef(q, p.first) != 0) { share = true; break; }
      if (!share) continue;
      std::vector<L> r1 = rows, r2 = rows;
      r1.push_back(addc(d, -1));
      r2.push_back(addc(mulc(d, -1), -1));
      if (lpMemoized(*this, r1) == 0 && lpMemoized(*this, r2) == 0) return true;
    }
  } catch (Overflow&) {
  }
  return false;
}
bool Num::entailsEQ(L e) const {
  if (dead) return true;
  e = norm(e);
  i128 v;
  if (isConst(e, &v)) return v == 0;
  return entailsGE(e) && entailsGE(mulc(e, -1));
}
bool Num::entailsNE(L e) const {
  if (dead) return true;
  e = norm(e);
  i128 v;
  if (isConst(e, &v)) return v != 0;
  L n = mulc(e, -1);
  for (L f : ne) if (norm(f) == e || norm(f) == n) return true;
  if (entailsGE(addc(e, -1))) return true;
  if (entailsGE(addc(n, -1))) return true;
  // adding e=0 makes it infeasible?
  Num t = *this;
  t.assumeEQ(e);
  return t.dead || !t.feasible();
}
bool Num::feasible() const {
  if (dead) return false;
  // component-wise feasibility of all facts
  std::vector<char> used(ge.size(), 0);
  for (size_t i = 0; i < ge.size(); ++i) {
    if (used[i]) continue;
    std::vector<L> comp = slice(*this, ge[i], 1000);
    for (size_t j = 0; j < ge.size(); ++j)
      if (std::find(comp.begin(), comp.end(), ge[j]) != comp.end()) used[j] = 1;
    if (comp.empty()) comp.push_back(ge[i]);
    if (lpMemoized(*this, comp) == 0) return false;
  }
  return true;
}
void Num::reduce() {
  for (size_t i = 0; i < ge.size();) {
    L e = ge[i];
    Num t = *this;
    t.ge.erase(t.ge.begin() + i);
    if (t.entailsGE(e)) { ge.erase(ge.begin() + i); }
    else ++i;
  }
}
void Num::gc(const std::set<int>& live0) {
  if (dead) return;
  std::set<int> live = live0;
  // substitutions of dead atoms vanish; live atoms with a substitution pull in their rhs
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto& p : sub)
      if (live.count(p.first))
        for (auto& q : get(p.second).t) if (live.insert(q.first).second) ch = true;
  }
  std::vector<std::pair<int, L>> ns;
  for (auto& p : sub) if (live.count(p.first)) ns.push_back(p);
  sub.swap(ns);
  // Fourier-Motzkin on dead atoms
  std::set<int> deadA;
  for (L e : ge) for (auto& p : get(e).t) if (!live.count(p.first)) deadA.insert(p.first);
  for (int round = 0; round < 100 && !deadA.empty(); ++round) {
    int best = -1; long bc = 1000000;
    for (int a : deadA) {
      long p = 0, n = 0;
      for (L e : ge) { i128 k = coef(e, a); if (k > 0) ++p; else if (k < 0) ++n; }
      i128 lo, hi;
      range(a, &lo, &hi);
      if (lo > -kInf) ++p;
      if (hi < kInf) ++n;
      long c = p * n - p - n;
      if (c < bc) { bc = c; best = a; }
    }
    int a = best;
    deadA.erase(a);
    std::vector<L> P, N, rest;
    for (L e : ge) { i128 k = coef(e, a); if (k > 0) P.push_back(e); else if (k < 0) N.push_back(e); else rest.push_back(e); }
    i128 lo, hi;
    range(a, &lo, &hi);
    if (lo > -kInf) P.push_back(addc(atom(a), -lo));
    if (hi < kInf) N.push_back(lin::sub(cst(hi), atom(a)));
    ge = rest;
    if (bc <= 12) {
      for (L p : P) for (L n : N) {
        try {
          i128 kp = coef(p, a), kn = -coef(n, a);
          i128 g = gcd128(kp, kn);
          L c = add(mulc(p, kn / g), mulc(n, kp / g));
          assumeGE(c);
          if (dead) return;
        } catch (Overflow&) {
        }
      }
    }
  }
  std::vector<Bnd> nb;
  std::set<int> used;
  for (L e : ge) for (auto& p : get(e).t) used.insert(p.first);
  for (auto& b : bnd) if (live.count(b.a) || used.count(b.a)) nb.push_back(b);
  bnd.swap(nb);
  std::vector<L> nn;
  for (L e : ne) {
    bool ok = true;
    for (auto& p : get(e).t) if (!live.count(p.first)) ok = false;
    if (ok) nn.push_back(e);
  }
  ne.swap(nn);
}
std::string Num::str() const {
  std::string s;
  if (dead) s += "DEAD\n";
  for (auto& p : sub) s += "  " + lin::str(atom(p.first)) + " := " + lin::str(p.second) + "\n";
  for (auto& b : bnd) s += "  " + lin::str(atom(b.a)) + " in [" + (b.lo <= -kInf ? "-inf" : i128s(b.lo)) + "," + (b.hi >= kInf ? "inf" : i128s(b.hi)) + "]\n";
  for (L e : ge) s += "  " + lin::str(e) + " >= 0\n";
  for (L e : ne) s += "  " + lin::str(e) + " != 0\n";
  return s;
}
