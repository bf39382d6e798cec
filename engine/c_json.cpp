// J01: the JSON writer.  A monitor parses what is appended to the output, byte by byte, as a JSON array of strings and
// numbers, for any order of calls; strings are compared with the data at an arbitrary position.
#include "contracts.hpp"
using namespace lin;

static const std::string JW = "open_vcdiff::JSONCodeTableWriter";
namespace {
enum { NONE, ADD, COPY, RUN };
struct JSpec : Spec {
  std::string key;
  int v = 0;
  int tag(State& s, const std::string& k) { auto it = s.ghost.find(k); return it == s.ghost.end() ? 0 : (int)constOf(it->second.e); }
  void set(State& s, const std::string& k, int x) { s.ghost[k] = vcst(x, 32); }
  L G(State& s, const std::string& k) { return s.ghost[k].e; }
  void setL(State& s, const std::string& k, L e) { s.ghost[k] = vint(e, 64); }
  struct Soft {};
  bool soft = false;         // the monitor runs on a string that may not be part of the output
  std::string P;             // prefix of its state
  void ob(Interp& in, State& s, const std::string& rule, bool ok, const std::string& d = "") {
    if (soft) { if (!ok) throw Soft(); return; }
    in.oblige(s, "J01", rule, ok, d, key);
    if (!ok) throw PathEnd();
  }
  static void put(std::vector<Outcome>& out, State&& t, const Value& r) { Outcome o; o.st = std::move(t); o.ret = r; out.push_back(std::move(o)); }
  bool eqP(State& s, const Value& a, const Value& b) { return a.k == VPtr && b.k == VPtr && a.obj == b.obj && s.n.entailsEQ(lin::sub(a.e, b.e)); }
  std::string K(const std::string& k) { return P.empty() ? k : k[0] == '!' ? "!" + P + k.substr(1) : P + k; }
  // ---- the monitor
  void chr(Interp& in, State& s, int c) {     // c < 0: not known (not at the position looked at)
    int op = tag(s, "!op");
    ob(in, s, "only ADD and RUN write strings", op == ADD || op == RUN);
    if (op == RUN || in.test(s, Constraint::EQ, lin::sub(G(s, K("pos")), G(s, "x")))) ob(in, s, "each character of a string stands for the next byte of the data", c == v, "character " + std::to_string(c) + " for byte " + std::to_string(v));
    setL(s, K("pos"), addc(G(s, K("pos")), 1));
  }
  void byte(Interp& in, State& s, int c) {    // c < 0: unknown
    int q = tag(s, K("!q"));
    auto bad = [&](const char* w) { ob(in, s, "the output is a JSON array of strings and numbers", false, std::string(w) + ", byte " + std::to_string(c) + " in state " + std::to_string(q)); };
    switch (q) {
      case 4:
        if (c == '"') { set(s, K("!q"), 2); set(s, K("!strings"), tag(s, K("!strings")) + 1); }
        else if (c == '\\') set(s, K("!q"), 5);
        else { if (c >= 0 && c < 32) bad("control character in a string"); chr(in, s, c); }
        break;
      case 5: {
        static const char* from = "\"\\/bfnrt"; static const char to[] = "\"\\/\b\f\n\r\t";
        const char* p = c > 0 ? strchr(from, c) : nullptr;
        if (c == 'u') { set(s, K("!q"), 6); set(s, K("!acc"), 0); }
        else if (p) { set(s, K("!q"), 4); chr(in, s, (unsigned char)to[p - from]); }
        else bad("unknown escape");
        break;
      }
      case 6: case 7: case 8: case 9: {
        int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (c >= 0 && d < 0) bad("hexadecimal digit expected");
        int acc = tag(s, K("!acc"));
        acc = acc < 0 || d < 0 ? -1 : acc * 16 + d;
        set(s, K("!acc"), acc);
        set(s, K("!q"), q == 9 ? 4 : q + 1);
        if (q == 9) { set(s, K("!acc"), 0); chr(in, s, acc); }
        break;
      }
      case 0: if (c == '[') set(s, K("!q"), 1); else if (c != ' ' && c != '\n') bad("'[' expected"); break;
      case 1: case 3: if (c == '"') { set(s, K("!q"), 4); } else if (c != ' ' && c != '\n') bad("element expected"); break;
      case 2: if (c == ',') set(s, K("!q"), 3); else if (c != ' ' && c != '\n') bad("',' expected"); break;
      default: bad("?");
    }
  }
  void number(Interp& in, State& s, L val) {
    int q = tag(s, "!q"), k = tag(s, "!nums");
    ob(in, s, "the output is a JSON array of strings and numbers", q == 1 || q == 3, "number in state " + std::to_string(q));
    ob(in, s, "a COPY is written as its address, then its size", tag(s, "!op") == COPY && k < 2 && s.n.entailsEQ(lin::sub(val, G(s, k ? "size" : "addr"))), "number " + str(s.n.norm(val)));
    set(s, "!nums", k + 1);
    set(s, "!q", 2);
  }
  void piece(Interp& in, State& s, const std::string& p, int i) {
    if (tag(s, "!" + p + "k" + std::to_string(i)) == 1) number(in, s, G(s, p + "v" + std::to_string(i)));
    else byte(in, s, tag(s, "!" + p + "k" + std::to_string(i)) - 1000);
  }
  void push(State& s, const std::string& p, int kind, L val) {
    int i = tag(s, "!" + p + "n");
    set(s, "!" + p + "k" + std::to_string(i), kind);
    if (kind == 1) setL(s, p + "v" + std::to_string(i), val);
    set(s, "!" + p + "n", i + 1);
  }
  void drop(State& s, const std::string& p) {
    for (int i = 0; i < tag(s, "!" + p + "n"); ++i) { s.ghost.erase("!" + p + "k" + std::to_string(i)); s.ghost.erase(p + "v" + std::to_string(i)); }
    set(s, "!" + p + "n", 0);
  }
  int known(Interp& in, State& s, const Value& p) { i128 c; Value b = in.loadW(s, p, 1, false, true); if (b.k != VInt || !isConst(s.n.norm(in.U(s, b)), &c)) return -1; return (int)c; }
  void text(Interp& in, State& s, const Value& src, L n, bool isFill) {
    i128 k, c;
    if (s.n.entailsEQ(n)) return;
    if (isFill) {
      bool one = isConst(s.n.norm(n), &k) && k <= 16;
      if (!one) { ob(in, s, "output written piece by piece", false, "fill of unknown length"); return; }
      int b = isConst(s.n.norm(in.U(s, vint(src.e, 8))), &c) ? (int)c : -1;
      for (int i = 0; i < (int)k; ++i) byte(in, s, b);
      return;
    }
    if (s.ghost.count("ps") && src.k == VPtr && src.obj == s.ghost["ps"].obj) {
      ob(in, s, "formatted text is written whole", s.n.entailsEQ(src.e) && s.n.entailsEQ(lin::sub(n, G(s, "pl"))));
      for (int i = 0; i < tag(s, "!sn"); ++i) piece(in, s, "s", i);
      return;
    }
    if (isConst(s.n.norm(n), &k) && k <= 64) {
      for (int i = 0; i < (int)k; ++i) { Value p = src; p.e = addc(p.e, i); byte(in, s, known(in, s, p)); }
      return;
    }
    // text collected in another string before
    if (P.empty() && s.ghost.count("ts") && tag(s, "!tq") == 4 && tag(s, "!q") == 4) {
      Interp::Str t = in.strGet(s, s.ghost["ts"]);
      if (src.k == VPtr && src.obj == t.data.obj && s.n.entailsEQ(src.e) && s.n.entailsEQ(lin::sub(n, t.size)) && s.n.entailsEQ(lin::sub(G(s, "tp0"), G(s, "pos")))) { setL(s, "pos", G(s, "tpos")); return; }
    }
    // a stretch of the data as it is
    Value d = s.ghost["data"]; 
    bool raw = tag(s, K("!q")) == 4 && tag(s, "!op") == ADD && src.k == VPtr && src.obj == d.obj && s.n.entailsEQ(lin::sub(src.e, G(s, K("pos"))));
    ob(in, s, "output written piece by piece", raw, "text of unknown length");
    if (in.test(s, Constraint::GE, lin::sub(G(s, "x"), G(s, K("pos")))) && in.test(s, Constraint::GE, addc(lin::sub(lin::add(G(s, K("pos")), n), G(s, "x")), -1)))
      ob(in, s, "each character of a string stands for the next byte of the data", v >= 32 && v != '"' && v != '\\', "byte " + std::to_string(v) + " not escaped");
    setL(s, K("pos"), lin::add(G(s, K("pos")), n));
  }
  void other(Interp& in, State& s, const Value& st, L old, const Value& src, L n, bool isFill) {
    int op = tag(s, "!op");
    if (op != ADD && op != RUN) return;
    if (!s.ghost.count("ts") || !eqP(s, s.ghost["ts"], st)) {
      if (!s.n.entailsEQ(old)) return;
      s.ghost["ts"] = st; set(s, "!tq", 4); set(s, "!tacc", 0); set(s, "!tstrings", 0); setL(s, "tpos", G(s, "pos")); setL(s, "tp0", G(s, "pos"));
    }
    if (tag(s, "!tq") == 99) return;
    struct R { JSpec& j; ~R() { j.soft = false; j.P = ""; } } r{*this};
    soft = true; P = "t";
    try { text(in, s, src, n, isFill); } catch (Soft&) { set(s, "!tq", 99); }
  }
  bool mine(State& s, const Value& st) { return st.k == VPtr && st.obj == s.ghost["w"].obj; }
  void onStrAppend(Interp& in, State& s, const Value& st, L old, const Value& src, L n, bool isFill) override {
    if (!tag(s, "!on")) return;
    s.n.assumeGE(lin::sub(cst(pow2(50)), lin::add(old, n)));
    if (s.dead() || !s.n.feasible()) throw PathEnd();
    if (!mine(s, st)) { other(in, s, st, old, src, n, isFill); return; }
    text(in, s, src, n, isFill);
    setL(s, "len", lin::add(G(s, "len"), n));
    s.n.assumeGE(lin::sub(cst(pow2(50)), G(s, "len")));
    if (s.dead() || !s.n.feasible()) throw PathEnd();
  }
  void onStrAssign(Interp& in, State& s, const Value& st, const Value& src, L n) override {
    if (!mine(s, st) || !tag(s, "!on")) return;
    text(in, s, src, n, false);
    setL(s, "len", tag(s, "!fresh") ? lin::add(G(s, "len"), n) : n);
  }
  // ---- formatted numbers
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    const std::string& q = in.qname(F);
    static const std::string OS = "std::__cxx11::basic_ostringstream<", SS = "std::__cxx11::basic_stringstream<";
    bool stream = q.compare(0, OS.size(), OS) == 0 || q.compare(0, SS.size(), SS) == 0;
    std::string m = q.substr(q.rfind("::") + 2);
    auto first = [&](const std::string& name) { return m.compare(0, name.size(), name) == 0; };
    if (stream && (first("basic_ostringstream") || first("basic_stringstream"))) { s.ghost["oss"] = a[0]; drop(s, "o"); put(out, std::move(s), Value()); return true; }
    if (stream && first("~")) { s.ghost.erase("oss"); drop(s, "o"); put(out, std::move(s), Value()); return true; }
    if (stream && m == "str" && a.size() == 2 && s.ghost.count("oss") && eqP(s, a[1], s.ghost["oss"])) { made(in, s, a[0], "o"); put(out, std::move(s), Value()); return true; }
    if (q.find("operator<<") != std::string::npos && a.size() == 2 && s.ghost.count("oss") && a[0].k == VPtr && a[0].obj == s.ghost["oss"].obj) {
      const std::string& dn = in.dname(F);
      std::string args = dn.substr(dn.rfind('(') == std::string::npos ? 0 : dn.rfind('('));
      bool ch = args.find("char)") != std::string::npos, cs = args.find("char const*)") != std::string::npos;
      if (cs) {
        for (int i = 0; i < 64; ++i) { Value p = a[1]; p.e = addc(p.e, i); int c = known(in, s, p); if (c == 0) break; ob(in, s, "constant text between numbers", c > 0); push(s, "o", 1000 + c, 0); }
      } else if (a[1].k == VInt && ch) { i128 c; ob(in, s, "constant text between numbers", isConst(s.n.norm(in.U(s, vint(a[1].e, 8))), &c)); push(s, "o", 1000 + (int)c, 0); }
      else if (a[1].k == VInt) push(s, "o", 1, args.find("unsigned") != std::string::npos ? in.U(s, a[1]) : in.S(s, a[1]));
      Value r = a[0];
      put(out, std::move(s), r);
      return true;
    }
    if (q == "std::to_string" || q == "std::__cxx11::to_string") {
      if (a.size() != 2 || a[1].k != VInt) return false;
      drop(s, "o");
      push(s, "o", 1, in.dname(F).find("unsigned") != std::string::npos ? in.U(s, a[1]) : in.S(s, a[1]));
      made(in, s, a[0], "o");
      put(out, std::move(s), Value());
      return true;
    }
    std::string ln = F->getName().str();
    if ((ln == "snprintf" && a.size() >= 3) || (ln == "sprintf" && a.size() >= 2)) return format(in, s, a, ln == "snprintf", out);
    return false;
  }
  // a std::string whose text is a list of numbers and bytes
  void made(Interp& in, State& s, const Value& st, const std::string& p) {
    int sv = tag(s, "!on");
    in.strInit(s, st, false);
    int n = newAtom("text length", 1, 64);
    int b = in.fresh(s, "formatted text", atom(n));
    in.mut(s, b)->ver = in.baseVer("text");
    in.strAppend(s, st, vptr(b, cst(0)), atom(n), false);
    set(s, "!on", sv);
    drop(s, "s");
    int k = tag(s, "!" + p + "n");
    for (int i = 0; i < k; ++i) push(s, "s", tag(s, "!" + p + "k" + std::to_string(i)), s.ghost.count(p + "v" + std::to_string(i)) ? G(s, p + "v" + std::to_string(i)) : 0);
    s.ghost["ps"] = in.strGet(s, st).data;
    setL(s, "pl", atom(n));
  }
  bool format(Interp& in, State& s, std::vector<Value>& a, bool bounded, std::vector<Outcome>& out) {
    size_t fi = bounded ? 2 : 1, ai = fi + 1;
    std::string f;
    for (int i = 0; i < 64; ++i) { Value p = a[fi]; p.e = addc(p.e, i); int c = known(in, s, p); if (c < 0) return false; if (!c) break; f += (char)c; }
    // bytes: >= 0 known, -1 unknown digit; or a number (then the length is not known)
    std::vector<int> bytes;
    std::vector<std::pair<size_t, L>> nums;
    for (size_t i = 0; i < f.size(); ++i) {
      if (f[i] != '%') { bytes.push_back((unsigned char)f[i]); continue; }
      bool zero = false; int w = 0;
      ++i;
      if (i < f.size() && f[i] == '0') { zero = true; ++i; }
      while (i < f.size() && isdigit(f[i])) w = w * 10 + (f[i++] - '0');
      while (i < f.size() && strchr("lzhjt", f[i])) ++i;
      if (i >= f.size() || ai >= a.size() || a[ai].k != VInt) return false;
      Value val = a[ai++];
      i128 c;
      if (f[i] == 'c') { bytes.push_back(isConst(s.n.norm(in.U(s, vint(val.e, 8))), &c) ? (int)c : -1); continue; }
      bool hex = f[i] == 'x' || f[i] == 'X';
      if (isConst(s.n.norm(f[i] == 'd' || f[i] == 'i' ? in.S(s, val) : in.U(s, val)), &c)) {
        char buf[64], fm[8] = {'%', '*', 'l', 'l', f[i], 0}, fz[9] = {'%', '0', '*', 'l', 'l', f[i], 0};
        snprintf(buf, sizeof buf, zero ? fz : fm, w, (long long)c);
        for (char* p = buf; *p; ++p) bytes.push_back((unsigned char)*p);
      } else if (hex && zero && w >= 2 && s.n.entailsGE(in.U(s, val)) && s.n.entailsGE(lin::sub(cst(255), in.U(s, val)))) {
        for (int k = 0; k < w - 2; ++k) bytes.push_back('0');
        bytes.push_back(-1); bytes.push_back(-1);
      } else { nums.push_back({bytes.size(), f[i] == 'd' || f[i] == 'i' ? in.S(s, val) : in.U(s, val)}); bytes.push_back(-2); }
    }
    if (nums.empty()) {
      i128 cap = pow2(30);
      if (bounded && !isConst(s.n.norm(in.U(s, a[1])), &cap)) return false;
      if (bounded) in.access(s, a[0], cst(cap), true, "snprintf"); else in.access(s, a[0], cst((i128)bytes.size() + 1), true, "sprintf");
      for (size_t i = 0; i < bytes.size() && (i128)i + 1 < cap; ++i) { Value p = a[0]; p.e = addc(p.e, (i128)i); in.store(s, p, bytes[i] >= 0 ? vcst(bytes[i], 8) : vint(atom(newAtom("digit", 48, 102)), 8), 1, true); }
      if (cap > 0) { Value p = a[0]; p.e = addc(p.e, std::min<i128>((i128)bytes.size(), cap - 1)); in.store(s, p, vcst(0, 8), 1, true); }
      put(out, std::move(s), vcst((i128)bytes.size(), 32));
      return true;
    }
    drop(s, "s");
    size_t ni = 0;
    int len = 0;
    for (int b : bytes) { if (b == -2) { push(s, "s", 1, nums[ni++].second); len += 20; } else { push(s, "s", 1000 + b, 0); ++len; } }
    int n = newAtom("text length", (i128)bytes.size(), len);
    if (bounded) { in.access(s, a[0], in.U(s, a[1]), true, "snprintf"); if (!s.n.entailsGE(addc(lin::sub(in.U(s, a[1]), cst(len)), -1))) return false; }
    else in.access(s, a[0], cst(len + 1), true, "sprintf");
    if (a[0].k == VPtr && a[0].obj >= 0) in.havocContent(s, a[0].obj, "snprintf");
    s.ghost["ps"] = a[0];
    setL(s, "pl", atom(n));
    put(out, std::move(s), vint(atom(n), 32));
    return true;
  }
  bool extCall(Interp& in, State& s, const std::string&, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out) override {
    auto done = [&](const Value& r) { put(out, std::move(s), r); return true; };
    int op = tag(s, "!op");
    if (m == "append" && a.size() == 3) {
      L n = in.U(s, a[2]);
      in.access(s, a[1], n, false, "output append");
      if (op == 10) {
        Interp::Str st = in.strGet(s, s.ghost["str"]);
        ob(in, s, "Output writes what was collected, in order", a[1].k == VPtr && a[1].obj == st.data.obj && s.n.entailsEQ(lin::sub(a[1].e, G(s, "sent"))), "");
        setL(s, "sent", lin::add(G(s, "sent"), n));
      } else { i128 k; ob(in, s, "only Output and FinishEncoding write", op == 11 && isConst(s.n.norm(n), &k) && k <= 1); if (k == 1) end(in, s, known(in, s, a[1])); }
      return done(a[0]);
    }
    if (m == "push_back" && a.size() == 2) { i128 c = -1; ob(in, s, "only Output and FinishEncoding write", op == 11 && isConst(s.n.norm(in.U(s, vint(a[1].e, 8))), &c)); end(in, s, (int)c); return done(Value()); }
    return sinkCall(in, s, m, a, out);
  }
  void end(Interp& in, State& s, int c) {
    ob(in, s, "FinishEncoding closes the array", c == ']' && !tag(s, "!closed"));
    set(s, "!closed", 1);
  }
};
struct J {
  Ctx& c; Interp& in; JSpec spec;
  J(Ctx& x) : c(x), in(x.in) {}
  void run() {
    in.spec = &spec;
    in.strUnbounded = true;
    in.checkOverflow = false;
    in.pairJoin = true;
    in.Kloop = 2; in.Kret = 20; in.Kblock = 60;
    loadExtTable(in, "OutputStringInterface", kOutputStringVtable);
    ascii();
    parallel(c, 128, [&](size_t i) { value((int)i); });
    c.counts["byte_values"] = 128;
  }
  std::vector<State> writer() {
    State s;
    Value w = c.obj(s, "writer", typeSize(in, JW)), os = c.obj(s, "output", 8);
    in.mut(s, os.obj)->ext = "OutputStringInterface";
    s.ghost["w"] = w; s.ghost["os"] = os;
    spec.set(s, "!on", 0);
    std::vector<State> r;
    for (auto& o : c.call(fnArgs(in, JW + "::JSONCodeTableWriter", 1), {w}, s)) r.push_back(o.st);
    return r;
  }
  void ascii() {
    for (const char* f : {"VerifyDictionary", "VerifyChunk"}) for (int bad = 0; bad < 2; ++bad) for (auto& s0 : writer()) {
      State s = s0;
      std::string key = std::string(f) + (bad ? ", a byte above 127" : ", ASCII");
      Value n = c.sym(s, "size", 64, bad ? 1 : 0, pow2(30)), d = in.mkInput(s, "text", n.e);
      s.ghost["n"] = n; s.ghost["d"] = d;
      int ver = in.mut(s, d.obj)->ver;
      in.watch.clear();
      std::vector<State> v{s};
      if (bad) {
        Value x = c.sym(s, "position", 64, 0, pow2(30));
        s.n.assumeGE(addc(lin::sub(n.e, x.e), -1));
        s.ghost["x"] = x;
        in.watch[ver].push_back("x");
        v = c.act(s, [&](State& t) { t.ghost["c"] = vint(in.U(t, in.loadW(t, vptr(d.obj, x.e), 1, false, true)), 8); t.n.assumeGE(addc(t.ghost["c"].e, -128)); });
      } else {
        int e = newAtom("ascii", 0, 127);
        auto* o = in.mut(s, d.obj);
        o->summ = e; o->summN = 1;
        v = {s};
      }
      for (auto& t : v) for (auto& o : c.call(fnArgs(in, JW + "::" + f, 3), {t.ghost["w"], d, n}, t)) {
        i128 r;
        in.oblige(o.st, "J01", bad ? "text with a byte above 127 is refused" : "ASCII text is accepted", constRet(o.st, o.ret, &r) && ((r & 1) != 0) == !bad, "", key);
        c.counts["verified"]++;
      }
      in.watch.clear();
    }
  }
  void value(int v) {
    spec.v = v;
    std::string base = "byte " + std::to_string(v);
    std::vector<State> init;
    auto clear = [&](State& s) {
      spec.set(s, "!on", 0); spec.set(s, "!op", NONE); spec.set(s, "!strings", 0); spec.set(s, "!nums", 0); spec.set(s, "!acc", 0); spec.set(s, "!fresh", 0);
      for (auto* p : {"s", "o"}) spec.drop(s, p);
      for (auto* k : {"pos", "x", "c", "data", "size", "addr", "sent", "ps", "pl", "oss", "ts", "!tq", "!tacc", "!tstrings", "tpos", "tp0"}) s.ghost.erase(k);
      in.extraRoots.clear();
    };
    for (auto& s : writer()) {
      State t = s;
      spec.set(t, "!q", 0); spec.set(t, "!qs", 0); spec.set(t, "!init", 0); spec.set(t, "!called", 0); spec.set(t, "!closed", 0); spec.setL(t, "len", cst(0));
      clear(t);
      // where the output is collected: the only string of the writer
      t.ghost["str"] = t.ghost["w"];
      const Obj* o = in.get(t, t.ghost["w"].obj);
      int found = 0;
      for (auto& c1 : o->cells) if (c1.second.k == VPtr && c1.second.obj >= 0) { auto* b = in.get(t, c1.second.obj); if (b && b->site == 4) { ++found; t.ghost["str"].e = cst(c1.first); } }
      if (found != 1) throw Broken{"the JSON writer does not collect its output in one string"};
      init.push_back(t);
    }
    auto pending = [&](State& t, const std::string& k) { in.oblige(t, "J01", "nothing collected is lost", t.n.entailsEQ(lin::sub(in.strGet(t, t.ghost["str"]).size, spec.G(t, "len"))), "", k); };
    std::vector<Op> ops;
    ops.push_back({"Init", [&](State& s) {
      std::vector<State> r;
      spec.key = base + ", Init";
      State u = s;
      spec.set(u, "!q", 0); spec.setL(u, "len", cst(0)); spec.set(u, "!on", 1);
      for (auto& o : c.call(fnArgs(in, JW + "::Init", 2), {u.ghost["w"], vint(atom(newAtom("dictionary size", 0, pow2(30))), 64)}, u)) {
        State t = o.st;
        i128 k;
        in.oblige(t, "J01", "Init succeeds", constRet(t, o.ret, &k) && (k & 1), "", spec.key);
        pending(t, spec.key);
        spec.set(t, "!qs", 0); spec.set(t, "!init", 1); spec.set(t, "!called", 0); spec.set(t, "!closed", 0);
        clear(t);
        r.push_back(t);
      }
      return r;
    }});
    auto instr = [&](State& s, int op, const char* name) {
      std::vector<State> r;
      if (!spec.tag(s, "!init")) return r;
      spec.key = base + ", " + name;
      State u = s;
      spec.set(u, "!on", 1); spec.set(u, "!op", op); spec.set(u, "!fresh", 1);
      Value n = vint(atom(newAtom("size", 1, pow2(30))), 64), x = vint(atom(newAtom("position", 0, pow2(30))), 64), ad = vint(atom(newAtom("address", 0, pow2(31) - 1)), 32), d = vnull();
      spec.setL(u, "pos", cst(0)); spec.setL(u, "size", n.e); spec.setL(u, "addr", ad.e);
      in.watch.clear();
      std::vector<State> v{u};
      if (op == ADD) {
        d = in.mkInput(u, "data", n.e);
        u.ghost["data"] = d; u.ghost["x"] = x;
        u.n.assumeGE(addc(lin::sub(n.e, x.e), -1));
        in.watch[in.mut(u, d.obj)->ver].push_back("x");
        v = c.act(u, [&](State& t) { L b = in.U(t, in.loadW(t, vptr(d.obj, x.e), 1, false, true)); t.ghost["c"] = vint(b, 8); t.n.assumeEQ(addc(b, -v_())); });
      }
      for (auto& y : v) {
        std::vector<Value> args{y.ghost["w"]};
        if (op == ADD) { args.push_back(d); args.push_back(n); }
        else if (op == COPY) { args.push_back(ad); args.push_back(n); }
        else { args.push_back(n); args.push_back(vcst(spec.v, 8)); }
        for (auto& o : c.call(fnArgs(in, JW + "::" + name, 3), args, y)) {
          State t = o.st;
          bool strs = spec.tag(t, "!strings") == (op == COPY ? 0 : 1), nums = spec.tag(t, "!nums") == (op == COPY ? 2 : 0);
          in.oblige(t, "J01", "an ADD or RUN is one string, a COPY two numbers", spec.tag(t, "!q") == 2 && strs && nums, "", spec.key);
          if (op != COPY) in.oblige(t, "J01", "a string has as many characters as the instruction bytes", t.n.entailsEQ(lin::sub(spec.G(t, "pos"), n.e)), "characters " + str(t.n.norm(spec.G(t, "pos"))), spec.key);
          pending(t, spec.key);
          clear(t);
          c.counts["instructions"]++;
          if (spec.tag(t, "!q") == 2) r.push_back(t);
        }
      }
      in.watch.clear();
      return r;
    };
    ops.push_back({"Add", [&](State& s) { return instr(s, ADD, "Add"); }});
    ops.push_back({"Copy", [&](State& s) { return instr(s, COPY, "Copy"); }});
    ops.push_back({"Run", [&](State& s) { return instr(s, RUN, "Run"); }});
    ops.push_back({"Output", [&](State& s) {
      std::vector<State> r;
      if (!spec.tag(s, "!init")) return r;
      spec.key = base + ", Output";
      State u = s;
      spec.set(u, "!op", 10); spec.setL(u, "sent", cst(0));
      for (auto& o : c.call(fnArgs(in, JW + "::Output", 2), {u.ghost["w"], u.ghost["os"]}, u)) {
        State t = o.st;
        in.oblige(t, "J01", "Output writes all that was collected", t.n.entailsEQ(lin::sub(spec.G(t, "sent"), spec.G(t, "len"))), "", spec.key);
        spec.setL(t, "len", cst(0));
        in.oblige(t, "J01", "Output starts the next window empty", t.n.entailsEQ(in.strGet(t, t.ghost["str"]).size), "", spec.key);
        spec.set(t, "!called", 1);
        spec.set(t, "!qs", spec.tag(t, "!q"));
        clear(t);
        c.counts["outputs"]++;
        r.push_back(t);
      }
      return r;
    }});
    ops.push_back({"FinishEncoding", [&](State& s) {
      std::vector<State> r;
      if (!spec.tag(s, "!init")) return r;
      spec.key = base + ", FinishEncoding";
      State u = s;
      spec.set(u, "!op", 11); spec.set(u, "!closed", 0);
      for (auto& o : c.call(fnArgs(in, JW + "::FinishEncoding", 2), {u.ghost["w"], u.ghost["os"]}, u)) {
        State t = o.st;
        bool called = spec.tag(t, "!called");
        in.oblige(t, "J01", "FinishEncoding closes the array, if one was begun", spec.tag(t, "!closed") == called && (!called || spec.tag(t, "!qs") == 1 || spec.tag(t, "!qs") == 2), "", spec.key);
        spec.set(t, "!init", 0);
        clear(t);
        c.counts["finishes"]++;
        r.push_back(t);
      }
      return r;
    }});
    MGC m(c);
    m.K = 1; m.Mjoin = 1;
    m.run(init, ops);
  }
  int v_() { return spec.v; }
};
}
CHECK(J01) { J j(c); j.run(); }
