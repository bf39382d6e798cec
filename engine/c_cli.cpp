// L01: the command-line program.  main is analysed with stdio, the flags and the library as arbitrary as their
// documentation allows; a monitor follows files, the data given to the library and the data it produces.
#include "contracts.hpp"
using namespace lin;
static const std::string V = "open_vcdiff::";
namespace {
struct LSpec : Spec {
  std::string key;
  int tag(State& s, const std::string& k) { auto it = s.ghost.find(k); return it == s.ghost.end() ? 0 : (int)constOf(it->second.e); }
  void set(State& s, const std::string& k, int x) { s.ghost[k] = vcst(x, 32); }
  L G(State& s, const std::string& k) { return s.ghost[k].e; }
  void setL(State& s, const std::string& k, L e) { s.ghost[k] = vint(e, 64); }
  void ob(Interp& in, State& s, const std::string& rule, bool ok, const std::string& d = "") { in.oblige(s, "L01", rule, ok, d, key); if (!ok) throw PathEnd(); }
  static void put(std::vector<Outcome>& out, State&& t, const Value& r) { Outcome o; o.st = std::move(t); o.ret = r; out.push_back(std::move(o)); }
  bool knownText(Interp& in, State& s, Value p, std::string* r, int max = 64) {
    r->clear();
    if (p.k != VPtr || p.obj < 0) return false;
    for (int i = 0; i < max; ++i) {
      i128 c;
      Value b = in.loadW(s, p, 1, false, true);
      if (b.k != VInt || !isConst(s.n.norm(in.U(s, b)), &c)) return false;
      if (!c) return true;
      r->push_back((char)c);
      p.e = addc(p.e, 1);
    }
    return false;
  }
  bool knownStr(Interp& in, State& s, const Value& str, std::string* r) {
    Interp::Str t = in.strGet(s, str);
    i128 n;
    r->clear();
    if (!isConst(s.n.norm(t.size), &n) || n > 64) return false;
    for (int i = 0; i < (int)n; ++i) { i128 c; Value p = t.data; p.e = addc(p.e, i); Value b = in.loadW(s, p, 1, false, true); if (b.k != VInt || !isConst(s.n.norm(in.U(s, b)), &c)) return false; r->push_back((char)c); }
    return true;
  }
  // the file a handle stands for
  std::string file(Interp& in, State& s, const Value& h) {
    if (h.k == VPtr && h.obj >= 0) for (auto* f : {"D", "T", "X"}) if (s.ghost[std::string("h") + f].obj == h.obj) return f;
    ob(in, s, "stdio functions are given an open file", false, "not a file handle of this program");
    return "";
  }
  std::string src(State& s) { return tag(s, "!enc") ? "T" : "X"; }
  std::string dst(State& s) { return tag(s, "!enc") ? "X" : "T"; }
  // do n bytes at p equal those of the object c from offset at on?
  bool same(Interp& in, State& s, const Value& p, L n, const Value& c, L at) {
    if (s.n.entailsEQ(n)) return true;
    if (p.k != VPtr || p.obj < 0) return false;
    bool sv = in.memObs; in.memObs = false;
    bool r = false;
    State t = s;
    L x = atom(newAtom("position", 0, pow2(62)));
    t.n.assumeGE(addc(lin::sub(n, x), -1));
    try {
      Value a = in.loadW(t, vptr(p.obj, lin::add(p.e, x)), 1, false, true), b = in.loadW(t, vptr(c.obj, lin::add(at, x)), 1, false, true);
      r = a.k == VInt && b.k == VInt && t.n.entailsEQ(lin::sub(in.U(t, a), in.U(t, b)));
    } catch (NeedSplit&) { }
    in.memObs = sv;
    return r;
  }
  bool fromFile(Interp& in, State& s, const std::string& f, const Value& p, L n, L at) {
    if (s.n.entailsEQ(n)) return true;
    Value b = s.ghost["b" + f];
    if (p.k == VPtr && b.k == VPtr && b.obj >= 0 && b.obj == p.obj) {
      L d = lin::sub(p.e, b.e);
      if (s.n.entailsEQ(lin::sub(lin::add(G(s, "b0" + f), d), at)) && s.n.entailsGE(lin::sub(G(s, "bn" + f), lin::add(d, n)))) return true;
    }
    return same(in, s, p, n, s.ghost["c" + f], at);
  }
  bool fromStream(Interp& in, State& s, const Value& p, L n, L at) {
    if (s.n.entailsEQ(n)) return true;
    if (!s.n.entailsGE(lin::sub(G(s, "prod"), lin::add(at, n)))) return false;
    Value o = s.ghost["os"];
    if (o.k == VPtr && o.obj >= 0 && p.k == VPtr) {
      Interp::Str t = in.strGet(s, o);
      if (t.data.obj == p.obj && s.n.entailsEQ(lin::sub(lin::add(lin::sub(G(s, "prod"), t.size), p.e), at)) && s.n.entailsGE(lin::sub(t.size, lin::add(p.e, n)))) return true;
    }
    return same(in, s, p, n, s.ghost["st"], at);
  }
  bool mul(State& s, L a, L b, L* r) { i128 c; if (isConst(s.n.norm(a), &c)) *r = mulc(b, c); else if (isConst(s.n.norm(b), &c)) *r = mulc(a, c); else return false; return true; }
  void bad(State& s) { set(s, "!fail", 1); }
  // the library appends n arbitrary bytes to the output
  bool quiet = false;
  void onStrAppend(Interp& in, State& s, const Value& st, L, const Value&, L, bool) override {
    Value o = s.ghost["os"];
    if (!quiet && o.k == VPtr && o.obj >= 0 && st.k == VPtr && st.obj == o.obj && !s.n.entailsNE(lin::sub(st.e, o.e))) s.ghost["os"] = vnull();
  }
  void onStrAssign(Interp& in, State& s, const Value& st, const Value&, L n) override { onStrAppend(in, s, st, 0, Value(), n, false); }
  void invariants(State& s) {   // true by construction
    s.n.assumeGE(lin::sub(cst(pow2(50)), G(s, "prod")));
    for (auto* k : {"prod", "wr", "cmp", "fed"}) s.n.assumeGE(G(s, k));
    for (auto* k : {"wr", "cmp"}) s.n.assumeGE(lin::sub(G(s, "prod"), G(s, k)));
    for (auto* f : {"D", "T", "X"}) { std::string F = f; s.n.assumeGE(G(s, "pos" + F)); s.n.assumeGE(lin::sub(G(s, "size" + F), G(s, "pos" + F))); }
    if (s.dead() || !s.n.feasible()) throw PathEnd();
  }
  void produce(Interp& in, State& s, const Value& os, L n) {
    Value str = in.loadW(s, vptr(os.obj, addc(os.e, 8)), 8, true);
    if (str.k != VPtr || str.obj < 0) { ob(in, s, "the library is given a string for its output", false); return; }
    Value cur = s.ghost["os"];
    bool mine = cur.k == VPtr && cur.obj == str.obj && s.n.entailsEQ(lin::sub(cur.e, str.e));
    Interp::Str t = in.strGet(s, str);
    bool fresh = s.n.entailsEQ(t.size);
    L done = G(s, tag(s, "!cmp") ? "cmp" : "wr");
    ob(in, s, "output of the library is written before the string is cleared or another is used", (fresh || mine) && s.n.entailsGE(lin::sub(done, lin::sub(G(s, "prod"), t.size))),
       "produced " + str_(s, "prod") + ", written " + lin::str(s.n.norm(done)) + ", string holds " + lin::str(s.n.norm(t.size)));
    if (fresh) s.ghost["os"] = str;
    quiet = true;
    in.strAppend(s, str, vptr(s.ghost["st"].obj, G(s, "prod")), n, false);
    quiet = false;
    setL(s, "prod", lin::add(G(s, "prod"), n));
  }
  std::string str_(State& s, const std::string& k) { return lin::str(s.n.norm(G(s, k))); }
  // everything produced has reached the file (or was compared)
  void settled(Interp& in, State& s) {
    if (tag(s, "!made") == 0) { ob(in, s, "success only after encoding or decoding", false); return; }
    std::string f = src(s);
    ob(in, s, "success only if the whole input was used", s.n.entailsEQ(lin::sub(G(s, "fed"), G(s, "size" + f))), "used " + str_(s, "fed") + " of " + str_(s, "size" + f));
    ob(in, s, "success only if the encoder or decoder was started and finished", tag(s, "!lib") == 3, "state " + std::to_string(tag(s, "!lib")));
    if (tag(s, "!test") && !tag(s, "!enc")) {
      ob(in, s, "success of 'test' only if all decoded data was compared", s.n.entailsEQ(lin::sub(G(s, "cmp"), G(s, "prod"))), "compared " + str_(s, "cmp") + " of " + str_(s, "prod"));
      ob(in, s, "success of 'test' only if the target is not longer", s.n.entailsEQ(lin::sub(G(s, "cmp"), G(s, "sizeT"))), "compared " + str_(s, "cmp") + " of " + str_(s, "sizeT"));
    } else {
      ob(in, s, "success only if all output was written", s.n.entailsEQ(lin::sub(G(s, "wr"), G(s, "prod"))), "written " + str_(s, "wr") + " of " + str_(s, "prod"));
      ob(in, s, "success only if the output file was opened and has left the stdio buffer", !tag(s, "!dirty") && tag(s, "!opened" + dst(s)) == 2, "");
    }
  }
  void exits(Interp& in, State& s, L code) {
    in.test(s, Constraint::EQ, code);
    bool zero = s.n.entailsEQ(code), usage = tag(s, "!usage"), fail = tag(s, "!fail");
    if (usage) { ob(in, s, "a wrong command line gives exit code 1", !zero); return; }
    if (fail) { ob(in, s, "every failure gives exit code 1", !zero, "failed: " + what(s)); return; }
    ob(in, s, "exit code 0 if nothing failed", zero);
    if (zero) { settled(in, s); ob(in, s, "the asked-for operation was carried out", tag(s, "!test") ? tag(s, "!runs") == 2 && !tag(s, "!enc") : tag(s, "!runs") == 1, ""); }
  }
  std::string what(State& s) { return std::to_string(tag(s, "!fail")); }
  void made(Interp& in, State& s, bool enc) {
    if (tag(s, "!made")) { ob(in, s, "'test' decodes what was encoded and nothing failed before", tag(s, "!test") && tag(s, "!enc") && !enc && !tag(s, "!fail")); settled(in, s); ob(in, s, "the delta is written before it is read again", tag(s, "!modeX") == 1 && tag(s, "!mode_was")); }
    ob(in, s, "encode and delta encode, decode and patch decode", tag(s, "!test") ? enc == !tag(s, "!made") : enc == (tag(s, "!want") == 1));
    set(s, "!made", 1); set(s, "!runs", tag(s, "!runs") + 1); set(s, "!enc", enc); set(s, "!lib", 1); set(s, "!cmp", tag(s, "!test") && !enc);
    setL(s, "prod", cst(0)); setL(s, "wr", cst(0)); setL(s, "fed", cst(0)); setL(s, "cmp", cst(0));
    s.ghost["os"] = vnull();
    // nothing was read yet that is lost
  }
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    const std::string& q = in.qname(F);
    std::string ln = F->getName().str();
    auto ret = [&](const Value& v) { put(out, std::move(s), v); return true; };
    if (!F->isDeclaration()) return false;
    if (ln[0] != '_' && ln.compare(0, 5, "llvm.")) invariants(s);
    else if (q.compare(0, V.size(), V) == 0) invariants(s);
    // ---- the C library
    if (ln == "fopen") {
      std::string n, m, f;
      if (!knownText(in, s, a[0], &n) || !knownText(in, s, a[1], &m) || m.empty()) throw Broken{"fopen with unknown name or mode"};
      for (auto* x : {"D", "T", "X"}) if (n == std::string("file") + x) f = x;
      bool phase2 = tag(s, "!made");
      ob(in, s, "only the files named by the flags are opened", !f.empty(), "'" + n + "'");
      std::string outF = tag(s, "!test") ? (phase2 ? "" : "X") : tag(s, "!want") == 1 ? "X" : "T";
      ob(in, s, "input is opened for reading, output is opened afresh for writing", m[0] == (f == outF ? 'w' : 'r') && m.find('+') == std::string::npos, n + " opened with mode " + m);
      State t = s; bad(t); put(out, std::move(t), vnull());
      Value h = vptr(in.fresh(s, "FILE " + f, cst(8)), cst(0));
      if (f == "X" && phase2) set(s, "!mode_was", 1);
      s.ghost["h" + f] = h; set(s, "!err" + f, 0); set(s, "!eof" + f, 0); set(s, "!mode" + f, m[0] == 'w' ? 2 : 1); if (m[0] == 'w') set(s, "!opened" + f, 2);
      setL(s, "pos" + f, cst(0));
      return ret(h);
    }
    if (ln == "fclose") {
      std::string f = file(in, s, a[0]);
      if (tag(s, "!mode" + f) == 2 && tag(s, "!dirty")) {
        State t = s; bad(t); set(t, "!dirty", 0); t.ghost["h" + f] = vnull(); put(out, std::move(t), vcst(-1, 32));
        set(s, "!dirty", 0);
      }
      s.ghost["h" + f] = vnull();
      set(s, "!mode" + f, 0);
      return ret(vcst(0, 32));
    }
    if (ln == "fread") {
      std::string f = file(in, s, a[3]);
      L n, sz = in.U(s, a[1]), cnt = in.U(s, a[2]);
      if (!s.n.entailsEQ(addc(sz, -1))) throw Broken{"fread of elements larger than a byte"};
      n = cnt;
      ob(in, s, "files are read as they are", tag(s, "!mode" + f) == 1, "read from a file opened for writing");
      in.access(s, a[0], n, true, "fread");
      if (s.n.entailsEQ(n)) { if (f != "D") ob(in, s, "each read of the input asks for at least one byte", false, "a read of no bytes never reaches the end of the file"); return ret(vcst(0, 64)); }
      if (!s.n.entailsGE(addc(n, -1))) { if (f != "D") ob(in, s, "each read of the input asks for at least one byte", false, "a read of no bytes never reaches the end of the file"); }
      L rest = lin::sub(G(s, "size" + f), G(s, "pos" + f));
      {  // read error
        State t = s; bad(t); set(t, "!err" + f, 1);
        L r = atom(newAtom("bytes read", 0, pow2(62)));
        t.n.assumeGE(addc(lin::sub(n, r), -1)); t.n.assumeGE(lin::sub(rest, r));
        setL(t, "pos" + f, lin::add(G(t, "pos" + f), r)); t.ghost["b" + f] = vnull();
        if (a[0].k == VPtr && a[0].obj >= 0) in.havocContent(t, a[0].obj, "fread");
        if (!t.dead() && t.n.feasible()) put(out, std::move(t), vint(r, 64));
      }
      for (int full = 0; full < 2; ++full) {
        State t = s;
        L r = full ? n : rest;
        if (full) t.n.assumeGE(lin::sub(rest, n)); else { t.n.assumeGE(addc(lin::sub(n, rest), -1)); set(t, "!eof" + f, 1); }
        if (t.dead() || !t.n.feasible()) continue;
        if (!full && f == "T" && tag(t, "!cmp") && t.n.entailsGE(addc(lin::sub(G(t, "prod"), G(t, "sizeT")), -1))) set(t, "!fail", 4);   // target shorter than what was decoded
        if (a[0].k == VPtr && a[0].obj >= 0 && !t.n.entailsEQ(r)) { bool sv = in.memObs; in.memObs = false; Value c = t.ghost["c" + f]; c.e = G(t, "pos" + f); in.copyMem(t, a[0], c, r); in.memObs = sv; }
        t.ghost["b" + f] = a[0]; setL(t, "b0" + f, G(t, "pos" + f)); setL(t, "bn" + f, r);
        setL(t, "pos" + f, lin::add(G(t, "pos" + f), r));
        put(out, std::move(t), vint(r, 64));
      }
      return true;
    }
    if (ln == "fgetc" || ln == "getc" || ln == "_IO_getc") {
      std::string f = file(in, s, a[0]);
      { State t = s; bad(t); set(t, "!err" + f, 1); put(out, std::move(t), vcst(-1, 32)); }
      State e = s;
      e.n.assumeEQ(lin::sub(G(s, "size" + f), G(s, "pos" + f))); set(e, "!eof" + f, 1);
      if (!e.dead() && e.n.feasible()) put(out, std::move(e), vcst(-1, 32));
      s.n.assumeGE(addc(lin::sub(G(s, "size" + f), G(s, "pos" + f)), -1));
      if (s.dead() || !s.n.feasible()) return true;
      if (tag(s, "!cmp") && f == "T" && s.n.entailsEQ(lin::sub(G(s, "prod"), G(s, "pos" + f)))) set(s, "!fail", 3);   // target longer than what was decoded
      setL(s, "pos" + f, addc(G(s, "pos" + f), 1));
      return ret(vint(atom(newAtom("char", 0, 255)), 32));
    }
    if (ln == "fwrite") {
      std::string f = file(in, s, a[3]);
      L n;
      if (!mul(s, in.U(s, a[1]), in.U(s, a[2]), &n)) throw Broken{"fwrite of unknown size"};
      in.access(s, a[0], n, false, "fwrite");
      if (s.n.entailsEQ(n)) return ret(a[2]);
      ob(in, s, "output goes to the output file", f == dst(s) && tag(s, "!mode" + f) == 2 && !tag(s, "!cmp"));
      ob(in, s, "the output is what the library produced, each byte once, in order", fromStream(in, s, a[0], n, G(s, "wr")), "written before: " + str_(s, "wr"));
      { State t = s; bad(t); set(t, "!err" + f, 1); L r = atom(newAtom("written", 0, pow2(62))); t.n.assumeGE(addc(lin::sub(in.U(t, a[2]), r), -1)); if (!t.dead() && t.n.feasible()) put(out, std::move(t), vint(r, 64)); }
      setL(s, "wr", lin::add(G(s, "wr"), n)); set(s, "!dirty", 1);
      return ret(a[2]);
    }
    if (ln == "fflush") {
      if (a[0].k == VPtr && a[0].obj == OBJ_NULL) a[0] = s.ghost["h" + dst(s)];
      std::string f = file(in, s, a[0]);
      { State t = s; bad(t); set(t, "!err" + f, 1); put(out, std::move(t), vcst(-1, 32)); }
      if (tag(s, "!mode" + f) == 2) set(s, "!dirty", 0);
      return ret(vcst(0, 32));
    }
    if (ln == "ferror") { std::string f = file(in, s, a[0]); return ret(vcst(tag(s, "!err" + f), 32)); }
    if (ln == "feof") { std::string f = file(in, s, a[0]); return ret(vcst(tag(s, "!eof" + f), 32)); }
    if (ln == "ftell" || ln == "ftello") { std::string f = file(in, s, a[0]); return ret(vint(G(s, "pos" + f), 64)); }
    if (ln == "rewind") { std::string f = file(in, s, a[0]); setL(s, "pos" + f, cst(0)); set(s, "!eof" + f, 0); set(s, "!err" + f, 0); return ret(Value()); }
    if (ln == "fseek" || ln == "fseeko") {
      std::string f = file(in, s, a[0]);
      i128 w;
      if (!isConst(s.n.norm(in.S(s, a[2])), &w)) throw Broken{"fseek from unknown"};
      { State t = s; bad(t); put(out, std::move(t), vcst(-1, 32)); }
      L base = w == 0 ? cst(0) : w == 1 ? G(s, "pos" + f) : G(s, "size" + f);
      L np = lin::add(base, in.S(s, a[1]));
      if (!s.n.entailsGE(np) || !s.n.entailsGE(lin::sub(G(s, "size" + f), np))) np = atom(newAtom("position", 0, pow2(40)));
      setL(s, "pos" + f, np);
      set(s, "!eof" + f, 0);
      return ret(vcst(0, 32));
    }
    if (ln == "__errno_location") return ret(s.ghost["errno"]);
    if (ln == "strerror") return ret(s.ghost["msg"]);
    if (ln == "perror" || ln == "fprintf" || ln == "puts" || ln == "fputs" || ln == "printf") { ob(in, s, "messages do not go to the output", ln == "perror" || (ln == "fprintf" && !(a[0] == s.ghost["hX"]) && !(a[0] == s.ghost["hT"]))); return ret(vcst(0, 32)); }
    if (ln == "exit" || ln == "_exit") { exits(in, s, in.U(s, vint(a[0].e, 8))); throw PathEnd(); }
    if (ln == "strcmp" || ln == "strncmp") {
      std::string x, y;
      if (!knownText(in, s, a[0], &x) || !knownText(in, s, a[1], &y)) return false;
      if (ln == "strncmp") { i128 n; if (!isConst(s.n.norm(in.U(s, a[2])), &n)) return false; x = x.substr(0, (size_t)n); y = y.substr(0, (size_t)n); }
      return ret(vcst(x < y ? -1 : x > y ? 1 : 0, 32));
    }
    if (ln == "memcmp" || ln == "bcmp") {
      L n = in.U(s, a[2]);
      in.access(s, a[0], n, false, "memcmp"); in.access(s, a[1], n, false, "memcmp");
      i128 k;
      if (isConst(s.n.norm(n), &k) && k <= 64) {
        int r = 0;
        bool known = true;
        for (int i = 0; i < (int)k && known && !r; ++i) {
          i128 v[2];
          for (int j = 0; j < 2; ++j) { Value p = a[j]; p.e = addc(p.e, i); Value b = in.loadW(s, p, 1, false, true); if (b.k != VInt || !isConst(s.n.norm(in.U(s, b)), &v[j])) known = false; }
          if (known && v[0] != v[1]) r = v[0] < v[1] ? -1 : 1;
        }
        if (known) return ret(vcst(r, 32));
      }
      return compared(in, s, a[0], a[1], n, n, out);
    }
    // ---- strings
    static const char* SC[] = {"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::compare", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::compare"};
    if (q == SC[0] || q == SC[1]) {
      Interp::Str t = in.strGet(s, a[0]);
      Value p = t.data; L n = t.size;
      size_t i = 1;
      if (a.size() > 2 && a[1].k == VInt) {
        L pos = in.U(s, a[1]), m = in.U(s, a[2]);
        if (!in.test(s, Constraint::GE, lin::sub(t.size, pos))) throw PathEnd();
        p.e = lin::add(p.e, pos);
        n = lin::sub(t.size, pos);
        if (in.test(s, Constraint::GE, lin::sub(n, m))) n = m;
        i = 3;
      }
      Value p2; L n2;
      if (a.size() == i + 2 && a[i + 1].k == VInt) { p2 = a[i]; n2 = in.U(s, a[i + 1]); in.access(s, p2, n2, false, "compare"); }
      else if (a.size() == i + 1 && in.dname(F).find("basic_string<char", q.size()) != std::string::npos) { Interp::Str u = in.strGet(s, a[i]); p2 = u.data; n2 = u.size; }
      else { std::string x, y; if (i == 1 && knownStr(in, s, a[0], &x) && knownText(in, s, a[1], &y)) return ret(vcst(x < y ? -1 : x > y ? 1 : 0, 32)); return false; }
      return compared(in, s, p, p2, n, n2, out);
    }
    if (q == std::string(SC[0], strlen(SC[0]) - 7) + "c_str" || q == std::string(SC[1], strlen(SC[1]) - 7) + "c_str") {
      Interp::Str t = in.strGet(s, a[0]);
      if (isConst(s.n.norm(t.size)) && t.data.k == VPtr && t.data.obj >= 0) { Value p = t.data; p.e = lin::add(p.e, t.size); in.store(s, p, vcst(0, 8), 1, true); }
      return ret(t.data);
    }
    if (q.compare(0, 15, "std::operator==") == 0 || q.compare(0, 15, "std::operator!=") == 0) {
      std::string x, y;
      if (a.size() == 2 && knownStr(in, s, a[0], &x) && (knownText(in, s, a[1], &y))) return ret(vcst((x == y) == (q[13] == '='), 1));
      return false;
    }
    // ---- gflags
    if (q == "google::SetUsageMessage" || q == "gflags::SetUsageMessage" || q == "google::SetVersionString" || q == "gflags::SetVersionString" || q.find("::ShowUsageWithFlags") != std::string::npos || q.find("::ShutDownCommandLineFlags") != std::string::npos) return ret(Value());
    if (q.find("::ParseCommandLineFlags") != std::string::npos) {
      in.store(s, a[0], vint(G(s, "argc"), 32), 4);
      in.store(s, a[1], s.ghost["argv"], 8);
      return ret(vcst(1, 32));
    }
    if (q.find("::GetCommandLineFlagInfoOrDie") != std::string::npos || q.find("::GetCommandLineFlagInfo") != std::string::npos) {
      bool orDie = q.find("OrDie") != std::string::npos;
      Value r = a[orDie ? 0 : 1];
      if (orDie) for (int i = 0; i < 6; ++i) { Value p = r; p.e = addc(p.e, 32 * i); in.strInit(s, p, false); }
      Value p = r; p.e = addc(p.e, 193);
      in.store(s, p, s.ghost["isdefault"], 1);
      return orDie ? ret(Value()) : ret(vcst(1, 1));
    }
    // ---- the library
    if (q.compare(0, V.size(), V)) return false;
    std::string m = q.substr(V.size());
    auto nargs = a.size();
    if (m == "HashedDictionary::HashedDictionary" && nargs == 3) { dict(in, s, a[1], in.U(s, a[2])); set(s, "!dict", 1); s.ghost["hd"] = a[0]; return ret(Value()); }
    if (m == "HashedDictionary::Init") {
      ob(in, s, "the dictionary is initialised once", tag(s, "!dict") == 1 && a[0].obj == s.ghost["hd"].obj);
      State t = s; bad(t); put(out, std::move(t), vcst(0, 1));
      set(s, "!dict", 2);
      return ret(vcst(1, 1));
    }
    if (m == "HashedDictionary::~HashedDictionary" || m == "VCDiffStreamingEncoder::~VCDiffStreamingEncoder" || m == "VCDiffStreamingDecoder::~VCDiffStreamingDecoder") return ret(Value());
    if (m == "JSONCodeTableWriter::JSONCodeTableWriter") { s.ghost["writer"] = a[0]; set(s, "!json", 1); writerObj(in, s, a[0]); return ret(Value()); }
    if (m == "VCDiffCodeTableWriter::VCDiffCodeTableWriter") {
      ob(in, s, "the writer uses the format asked for", nargs == 2 && s.n.entailsEQ(lin::sub(in.U(s, vint(a[1].e, a[1].w)), G(s, "f_interleaved"))), "interleaved flag of the writer");
      s.ghost["writer"] = a[0]; set(s, "!json", 0); writerObj(in, s, a[0]);
      return ret(Value());
    }
    if (m == "VCDiffStreamingEncoder::VCDiffStreamingEncoder" && (nargs == 4 || nargs == 5)) {
      made(in, s, true);
      ob(in, s, "the encoder gets the dictionary, initialised", tag(s, "!dict") == 2 && a[1].k == VPtr && a[1].obj == s.ghost["hd"].obj);
      L want = lin::add(G(s, "f_interleaved"), lin::add(mulc(G(s, "f_checksum"), 2), mulc(G(s, "f_json"), 4)));
      ob(in, s, "the encoder gets the format asked for", s.n.entailsEQ(lin::sub(in.U(s, a[2]), want)), "flags " + lin::str(s.n.norm(a[2].e)));
      ob(in, s, "target matching as asked for", s.n.entailsEQ(lin::sub(in.U(s, vint(a[3].e, a[3].w)), G(s, "f_target_matches"))));
      if (nargs == 5) {
        ob(in, s, "a JSON writer exactly if JSON was asked for", a[4].k == VPtr && a[4].obj >= 0 && a[4].obj == s.ghost["writer"].obj && s.n.entailsEQ(addc(G(s, "f_json"), -tag(s, "!json"))));
      } else ob(in, s, "a JSON writer exactly if JSON was asked for", s.n.entailsEQ(G(s, "f_json")));
      s.ghost["coder"] = a[0];
      return ret(Value());
    }
    if (m == "VCDiffStreamingEncoder::StartEncodingToInterface") {
      ob(in, s, "encoding is started once", tag(s, "!lib") == 1 && tag(s, "!enc"));
      { State t = s; bad(t); put(out, std::move(t), vcst(0, 1)); }
      set(s, "!lib", 2);
      produce(in, s, a[1], more(s));
      return ret(vcst(1, 1));
    }
    if (m == "VCDiffStreamingEncoder::EncodeChunkToInterface" || m == "VCDiffStreamingDecoder::DecodeChunkToInterface") {
      bool enc = m.find("Encoder") != std::string::npos;
      ob(in, s, "chunks are passed between start and finish", tag(s, "!lib") == 2 && tag(s, "!enc") == enc);
      L n = in.U(s, a[2]);
      in.access(s, a[1], n, false, "chunk");
      std::string f = src(s);
      ob(in, s, "the library gets the bytes of the input, each once, in order", fromFile(in, s, f, a[1], n, G(s, "fed")), "fed before: " + str_(s, "fed") + ", length " + lin::str(s.n.norm(n)));
      if (!enc) {
        ob(in, s, "the decoder has the limits asked for", s.n.entailsEQ(lin::sub(G(s, "maxfile"), G(s, "f_max_target_file_size"))) && s.n.entailsEQ(lin::sub(G(s, "maxwin"), G(s, "f_max_target_window_size"))) && s.n.entailsEQ(lin::sub(G(s, "allow"), G(s, "f_allow_vcd_target"))), "");
      }
      setL(s, "fed", lin::add(G(s, "fed"), n));
      { State t = s; bad(t); set(t, "!lib", 4); put(out, std::move(t), vcst(0, 1)); }
      produce(in, s, a[3], more(s));
      return ret(vcst(1, 1));
    }
    if (m == "VCDiffStreamingEncoder::FinishEncodingToInterface") {
      bool ok = tag(s, "!lib") == 2;
      set(s, "!lib", ok ? 3 : 4);
      if (ok) produce(in, s, a[1], more(s));
      return ret(vcst(ok, 1));
    }
    if (m == "VCDiffStreamingDecoder::VCDiffStreamingDecoder") {
      made(in, s, false);
      s.ghost["coder"] = a[0];
      setL(s, "maxfile", cst(-1)); setL(s, "maxwin", cst(-1)); setL(s, "allow", cst(1));
      return ret(Value());
    }
    if (m == "VCDiffStreamingDecoder::SetMaximumTargetFileSize") { setL(s, "maxfile", in.U(s, a[1])); return ret(vcst(1, 1)); }
    if (m == "VCDiffStreamingDecoder::SetMaximumTargetWindowSize") { setL(s, "maxwin", in.U(s, a[1])); return ret(vcst(1, 1)); }
    if (m == "VCDiffStreamingDecoder::SetAllowVcdTarget") { setL(s, "allow", in.U(s, vint(a[1].e, a[1].w))); return ret(Value()); }
    if (m == "VCDiffStreamingDecoder::StartDecoding") {
      ob(in, s, "decoding is started once", tag(s, "!lib") == 1 && !tag(s, "!enc"));
      dict(in, s, a[1], in.U(s, a[2]));
      set(s, "!lib", 2);
      return ret(Value());
    }
    if (m == "VCDiffStreamingDecoder::FinishDecoding") {
      ob(in, s, "decoding is finished once", tag(s, "!lib") == 2 && !tag(s, "!enc"));
      { State t = s; bad(t); set(t, "!lib", 4); put(out, std::move(t), vcst(0, 1)); }
      set(s, "!lib", 3);
      return ret(vcst(1, 1));
    }
    return false;
  }
  // back in main nothing of what the coder held matters any more
  void beforeMerge(Interp& in, State& s, const llvm::Function* F) override {
    if (in.stack.size() != 2) return;
    if (in.qname(F).compare(0, V.size(), V)) return;
    if (!tag(s, "!made") && !tag(s, "!fail")) return;
    for (auto* k : {"os", "hd", "writer", "coder", "bD", "bT", "bX"}) s.ghost[k] = vnull();
    for (auto* k : {"b0D", "bnD", "b0T", "bnT", "b0X", "bnX"}) setL(s, k, cst(0));
    for (auto* k : {"!errD", "!eofD", "!dict", "!json"}) set(s, k, 0);
    if (!tag(s, "!fail")) return;
    for (auto* k : {"!errT", "!eofT", "!errX", "!eofX", "!dirty", "!openedT", "!openedX", "!openedD", "!lib", "!runs", "!cmp", "!mode_was", "!made"}) set(s, k, 0);
    set(s, "!fail", 1);
    for (auto* k : {"prod", "wr", "fed", "cmp"}) setL(s, k, cst(0));
  }
  void writerObj(Interp& in, State& s, const Value& w) { in.mut(s, w.obj)->ext = "CodeTableWriter"; }
  L more(State& s) { return atom(newAtom("bytes produced", 0, pow2(40))); }
  void dict(Interp& in, State& s, const Value& p, L n) {
    in.access(s, p, n, false, "dictionary");
    ob(in, s, "the dictionary is the whole dictionary file", s.n.entailsEQ(lin::sub(n, G(s, "sizeD"))) && fromFile(in, s, "D", p, n, cst(0)), "size " + lin::str(s.n.norm(n)) + " of " + str_(s, "sizeD"));
  }
  bool compared(Interp& in, State& s, const Value& p1, const Value& p2, L n1, L n2, std::vector<Outcome>& out) {
    bool cmp = tag(s, "!cmp");
    bool ab = cmp && fromStream(in, s, p1, n1, G(s, "cmp")) && fromFile(in, s, "T", p2, n2, G(s, "cmp"));
    bool ba = cmp && !ab && fromStream(in, s, p2, n2, G(s, "cmp")) && fromFile(in, s, "T", p1, n1, G(s, "cmp"));
    { State t = s; t.n.assumeEQ(lin::sub(n1, n2)); if (!t.dead() && t.n.feasible()) { if (ab || ba) setL(t, "cmp", lin::add(G(t, "cmp"), n1)); put(out, std::move(t), vcst(0, 32)); } }
    int r = newAtom("cmp", -pow2(31), pow2(31) - 1);
    s.n.assumeNE(atom(r));
    if (ab || ba) set(s, "!fail", 2);
    put(out, std::move(s), vint(atom(r), 32));
    return true;
  }
  bool extCall(Interp& in, State& s, const std::string& cls, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out) override {
    put(out, std::move(s), Value());
    return true;
  }
};
struct Cli {
  Ctx& c; Interp& in; LSpec spec;
  Cli(Ctx& x) : c(x), in(x.in) {}
  const llvm::GlobalVariable* global(const std::string& part) {
    const llvm::GlobalVariable* r = nullptr;
    for (auto& g : in.M->globals()) {
      std::string n = g.getName().str();
      if (part.compare(0, 6, "FLAGS_")) { if (n == part) r = &g; continue; }
      // _ZN3fLB10FLAGS_jsonE
      std::string enc = std::to_string(part.size()) + part;
      size_t p = n.find(enc);
      if (p != std::string::npos && (n[p + enc.size()] == 'E' || n[p + enc.size()] == 'B') && n.compare(0, 5, "_ZN3f") * n.compare(0, 5, "_ZN5f") == 0) r = &g;
    }
    if (!r && part.compare(0, 6, "FLAGS_") == 0) throw Broken{"flag not found: " + part};
    return r;
  }
  void setGlobal(State& s, const std::string& n, const Value& v, int bytes) {
    auto* g = global(n);
    if (!g) return;
    int o = in.globalObj(g);
    in.mut(s, o)->cells.clear();
    in.store(s, vptr(o, cst(0)), v, bytes, true);
    if (v.k == VInt) in.mut(s, o)->site = 4;   // not part of the shape that keeps states apart
  }
  Value text(State& s, const std::string& t) {
    Value p = c.obj(s, "text '" + t + "'", (i128)t.size() + 1);
    for (size_t i = 0; i <= t.size(); ++i) { Value q = p; q.e = cst((i128)i); in.store(s, q, vcst(i < t.size() ? (unsigned char)t[i] : 0, 8), 1, true); }
    return p;
  }
  Value strObj(State& s, const std::string& t) {
    Value p = c.obj(s, "flag", 32);
    in.strInit(s, p, false);
    if (!t.empty()) in.strAppend(s, p, text(s, t), cst((i128)t.size()), false);
    return p;
  }
  struct Sc { std::string name, cmd; int want; bool test, usage, t, x, dict; int buf; bool argc2; };
  void run() {
    in.spec = &spec;
    in.strUnbounded = true;
    in.checkOverflow = false;
    in.pairJoin = true;
    in.Kloop = 2; in.Kret = 2; in.Kblock = 40;
    in.extTables["CodeTableWriter"] = std::vector<std::string>(32, "method");
    std::vector<Sc> sc;
    for (auto* cmd : {"encode", "delta", "decode", "patch"}) for (int t = 0; t < 2; ++t) for (int x = 0; x < 2; ++x)
      sc.push_back({std::string(cmd) + (t ? ", target file" : ", no target file") + (x ? ", delta file" : ", no delta file"), cmd, cmd[0] == 'e' || cmd[1] == 'e' && cmd[2] == 'l' ? 1 : 2, false, false, (bool)t, (bool)x, true, 1, true});
    for (int t = 0; t < 2; ++t) for (int x = 0; x < 2; ++x) sc.push_back({std::string("test") + (t ? ", target file" : "") + (x ? ", delta file" : ""), "test", 0, true, !(t && x), (bool)t, (bool)x, true, 1, true});
    for (auto* cmd : {"encod", "encoder", "Encode", "tests", "", "decodes"}) sc.push_back({std::string("unknown command '") + cmd + "'", cmd, 0, false, true, true, true, true, 1, true});
    for (auto* cmd : {"encode", "decode", "test"}) {
      sc.push_back({std::string(cmd) + ", no dictionary", cmd, 0, false, true, true, true, false, 1, true});
      sc.push_back({std::string(cmd) + ", buffer size 0", cmd, 0, false, true, true, true, true, 0, true});
      sc.push_back({std::string(cmd) + ", not one argument", cmd, 0, false, true, true, true, true, 1, false});
    }
    parallel(c, sc.size(), [&](size_t i) { one(sc[i]); });
    c.counts["scenarios"] = (long)sc.size();
  }
  void one(const Sc& sc) {
    spec.key = sc.name;
    State s;
    in.memObs = true;
    auto flag = [&](const std::string& n, int w, i128 lo, i128 hi) { L e = atom(newAtom("flag " + n, lo, hi)); s.ghost["f_" + n] = vint(e, 64); setGlobal(s, "FLAGS_" + n, vint(e, w), w / 8); };
    auto sflag = [&](const std::string& n, const std::string& v) { Value p = strObj(s, v); setGlobal(s, "FLAGS_" + n, p, 8); s.ghost["flag_" + n] = p; };
    sflag("dictionary", sc.dict ? "fileD" : ""); sflag("target", sc.t ? "fileT" : ""); sflag("delta", sc.x ? "fileX" : "");
    flag("buffersize", 64, sc.buf ? 1 : 0, sc.buf ? pow2(40) : 0);
    for (auto* b : {"allow_vcd_target", "checksum", "interleaved", "json", "stats", "target_matches"}) flag(b, 8, 0, 1);
    flag("max_target_file_size", 64, 0, pow2(31) - 1); flag("max_target_window_size", 64, 0, pow2(31) - 1);
    s.ghost["isdefault"] = sc.buf ? vint(atom(newAtom("is_default", 0, 1)), 8) : vcst(0, 8);
    spec.set(s, "!want", sc.want); spec.set(s, "!test", sc.test); spec.set(s, "!usage", sc.usage);
    for (auto* k : {"!fail", "!made", "!runs", "!enc", "!lib", "!cmp", "!dirty", "!dict", "!json", "!mode_was"}) spec.set(s, k, 0);
    spec.set(s, "!enc", sc.want == 1 || sc.test);
    for (auto* k : {"prod", "wr", "fed", "cmp"}) spec.setL(s, k, cst(0));
    for (auto* k : {"os", "hd", "writer", "coder"}) s.ghost[k] = vnull();
    spec.setL(s, "maxfile", cst(-1)); spec.setL(s, "maxwin", cst(-1)); spec.setL(s, "allow", cst(1));
    for (auto* f : {"D", "T", "X"}) {
      std::string F = f;
      L n = atom(newAtom("size of file " + F, 0, pow2(40)));
      spec.setL(s, "size" + F, n); spec.setL(s, "pos" + F, cst(0)); spec.setL(s, "b0" + F, cst(0)); spec.setL(s, "bn" + F, cst(0));
      s.ghost["c" + F] = in.mkInput(s, "contents of file " + F, n);
      s.ghost["h" + F] = vnull(); s.ghost["b" + F] = vnull();
      for (auto* k : {"!err", "!eof", "!mode", "!opened"}) spec.set(s, k + F, 0);
    }
    s.ghost["st"] = in.mkInput(s, "data produced by the library", cst(pow2(51)));
    s.ghost["errno"] = c.obj(s, "errno", 4); in.store(s, s.ghost["errno"], vint(atom(newAtom("errno", 0, 200)), 32), 4, true);
    s.ghost["msg"] = text(s, "message");
    // stdin and stdout
    Value si = c.obj(s, "stdin", 8), so = c.obj(s, "stdout", 8), se = c.obj(s, "stderr", 8);
    setGlobal(s, "stdin", si, 8); setGlobal(s, "stdout", so, 8); setGlobal(s, "stderr", se, 8);
    s.ghost["si"] = si; s.ghost["so"] = so;
    bool enc = sc.want == 1;
    if (sc.want && !(enc ? sc.t : sc.x)) { std::string f = enc ? "T" : "X"; s.ghost["h" + f] = si; spec.set(s, "!mode" + f, 1); }
    if (sc.want && !(enc ? sc.x : sc.t)) { std::string f = enc ? "X" : "T"; s.ghost["h" + f] = so; spec.set(s, "!mode" + f, 2); spec.set(s, "!opened" + f, 2); }
    Value argv = c.obj(s, "argv", 64);
    auto at = [&](int i, const Value& v) { Value p = argv; p.e = cst(8 * i); in.store(s, p, v, 8, true); };
    at(0, text(s, "vcdiff")); at(1, text(s, sc.cmd));
    for (int i = 2; i < 8; ++i) at(i, vnull());
    s.ghost["argv"] = argv;
    L ac = sc.argc2 ? cst(2) : atom(newAtom("argc", 1, 7));
    if (!sc.argc2) s.n.assumeNE(addc(ac, -2));
    spec.setL(s, "argc", ac);
    for (auto& o : c.call(in.find("main"), {vint(atom(newAtom("argc0", 1, 1000)), 32), argv}, s)) {
      c.counts["exits"]++;
      c.act(o.st, [&](State& t) { try { L code = in.U(t, vint(o.ret.e, 8)); spec.exits(in, t, code); c.counts[t.n.entailsEQ(code) ? "successes" : "failures"]++; } catch (PathEnd&) { } });
    }
  }
};
}
CHECK(L01) { Cli(c).run(); }
