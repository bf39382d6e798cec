// E01, E03: the encoder from its public interface down to the calls of the code table writer.  The match search
// (BlockHash) and the rolling hash enter by their contracts, decided by B01 and R01; the writer is arbitrary.
#include "contracts.hpp"
using namespace lin;

static const std::string NS = "open_vcdiff::";
static const std::string BH = NS + "BlockHash";
static const std::string RH = NS + "RollingHash<";
static const std::string SE = NS + "VCDiffStreamingEncoder";
namespace {
struct ESpec : Spec {
  std::string key;
  int flags = 0;
  void ob(Interp& in, State& s, const std::string& prop, const std::string& rule, bool ok, const std::string& d = "") {
    in.oblige(s, prop, rule, ok, d, key);
    if (!ok && in.only == prop) throw PathEnd();
  }
  int tag(State& s, const std::string& k) { auto it = s.ghost.find(k); return it == s.ghost.end() ? 0 : (int)constOf(it->second.e); }
  void set(State& s, const std::string& k, int v) { s.ghost[k] = vcst(v, 32); }
  L G(State& s, const std::string& k) { auto it = s.ghost.find(k); if (it == s.ghost.end()) throw Broken{"ghost " + k}; return it->second.e; }
  void setL(State& s, const std::string& k, L e) { s.ghost[k] = vint(e, 64); }
  bool eqP(State& s, const Value& a, const Value& b) { return a.k == VPtr && b.k == VPtr && a.obj == b.obj && s.n.entailsEQ(lin::sub(a.e, b.e)); }
  static void put(std::vector<Outcome>& out, State&& t, const Value& v) { Outcome o; o.st = std::move(t); o.ret = v; out.push_back(std::move(o)); }
  static std::string sv(State& s, const Value& v) { return v.k == VPtr ? "obj" + std::to_string(v.obj) + "+" + str(s.n.norm(v.e)) : v.k == VInt ? str(s.n.norm(v.e)) : "?"; }
  int block(const std::string& q) { return atoi(q.c_str() + RH.size()); }
  int N = 16;
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    const std::string& q = in.qname(F);
    if (q.compare(0, RH.size(), RH) == 0) {
      std::string m = q.substr(q.rfind("::") + 2);
      N = block(q);
      if (m == "Hash" && a.size() >= 1) {
        in.extModels.insert("RollingHash::Hash (reads one block, any value; see R01)");
        in.access(s, a.back(), cst(N), false, "hashed block");
        put(out, std::move(s), vint(atom(newAtom("hash", 0, pow2(32) - 1)), 32));
        return true;
      }
      if (m == "UpdateHash") { put(out, std::move(s), vint(atom(newAtom("hash", 0, pow2(32) - 1)), 32)); return true; }
      if (m == "Init" || m.compare(0, 11, "RollingHash") == 0) { put(out, std::move(s), Value()); return true; }
      return false;
    }
    if (q == NS + "ComputeAdler32" && a.size() == 2) {
      in.extModels.insert("ComputeAdler32 (reads exactly the given range; any value)");
      in.access(s, a[0], in.U(s, a[1]), false, "checksum input");
      bool whole = tag(s, "!chunk") && s.n.entailsEQ(lin::sub(in.U(s, a[1]), G(s, "T"))) && (eqP(s, a[0], s.ghost["tg"]) || s.n.entailsEQ(G(s, "T")));
      Value v = vint(atom(newAtom("adler", 0, pow2(32) - 1)), 32);
      s.ghost["sum"] = v;
      set(s, "!sumok", whole);
      put(out, std::move(s), v);
      return true;
    }
    if (q.compare(0, BH.size() + 2, BH + "::") != 0) return false;
    std::string m = q.substr(BH.size() + 2);
    if (m == "BlockHash" && a.size() == 4) {
      in.extModels.insert("BlockHash (contract verified by B01)");
      L n = in.U(s, a[2]), off = in.S(s, a[3]);
      if (tag(s, "!chunk")) {
        ob(in, s, "E01", "matches in the target are searched in the chunk being encoded", eqP(s, a[1], s.ghost["tg"]) && s.n.entailsEQ(lin::sub(n, G(s, "T"))), sv(s, a[1]));
        ob(in, s, "E01", "addresses in the target start after the dictionary", s.n.entailsEQ(lin::sub(off, G(s, "D"))), str(s.n.norm(off)));
        s.ghost["th"] = a[0]; setL(s, "ub", cst(0));
      } else {
        ob(in, s, "E01", "matches in the dictionary are searched in all of it", s.n.entailsEQ(lin::sub(n, G(s, "D"))), "");
        ob(in, s, "E01", "addresses in the dictionary start at 0", s.n.entailsEQ(off), str(s.n.norm(off)));
        s.ghost["dh"] = a[0]; s.ghost["dd"] = a[1];
      }
      put(out, std::move(s), Value());
      return true;
    }
    if (m == "Init" && a.size() == 2) { put(out, std::move(s), vcst(1, 1)); return true; }
    if (m == "~BlockHash") { put(out, std::move(s), Value()); return true; }
    if (m == "AddOneIndexHash" && a.size() == 3) { add(in, s, a[0], addc(in.S(s, a[1]), 1)); put(out, std::move(s), Value()); return true; }
    if (m == "AddAllBlocksThroughIndex" && a.size() == 2) { add(in, s, a[0], in.S(s, a[1])); put(out, std::move(s), Value()); return true; }
    if (m == "FindBestMatch" && a.size() == 6) {
      bool dict = s.ghost.count("dh") && eqP(s, a[0], s.ghost["dh"]);
      bool targ = !dict && s.ghost.count("th") && eqP(s, a[0], s.ghost["th"]);
      ob(in, s, "E01", "matches are searched in the dictionary or the chunk", dict || targ, sv(s, a[0]));
      if (!dict && !targ) throw PathEnd();
      const Value &cand = a[2], &start = a[3];
      L size = in.U(s, a[4]), T = G(s, "T");
      bool same = cand.k == VPtr && start.k == VPtr && cand.obj == s.ghost["tg"].obj && start.obj == cand.obj;
      ob(in, s, "E01", "matches are searched for the chunk being encoded", same, sv(s, cand));
      if (!same) throw PathEnd();
      L so = lin::sub(start.e, s.ghost["tg"].e), co = lin::sub(cand.e, start.e), D = G(s, "D");
      ob(in, s, "E01", "the stretch searched lies in the part of the chunk not encoded yet", s.n.entailsEQ(lin::sub(so, G(s, "pos"))) && s.n.entailsGE(lin::sub(T, lin::add(so, size))), "start " + str(s.n.norm(so)) + " size " + str(s.n.norm(size)));
      ob(in, s, "E01", "the candidate block lies in the stretch searched", s.n.entailsGE(co) && s.n.entailsGE(lin::sub(size, addc(co, N))), "offset " + str(s.n.norm(co)));
      if (targ) ob(in, s, "E01", "only data before the candidate is searched for a match", s.n.entailsGE(lin::sub(lin::add(so, co), G(s, "ub"))), "");
      std::string p = dict ? "m1" : "m2";
      State none = s;
      set(none, "!" + p, 0);
      for (auto* x : {"p", "s", "n"}) none.ghost.erase(p + x);
      put(out, std::move(none), Value());
      // a match on one diagonal through a block of the source
      int ms = newAtom("match size", N, pow2(31) - 1), mt = newAtom("match target", 0, pow2(31) - 1), bs = newAtom("match block", 0, pow2(31) - 1);
      L lo = lin::sub(co, atom(mt));           // bytes matched to the left
      L src = lin::sub(atom(bs), lo);          // offset in the source
      s.n.assumeGE(lo);
      s.n.assumeGE(lin::sub(lin::add(atom(mt), atom(ms)), addc(co, N)));
      s.n.assumeGE(lin::sub(size, lin::add(atom(mt), atom(ms))));
      s.n.assumeGE(src);
      s.n.assumeGE(lin::sub(dict ? D : T, lin::add(src, atom(ms))));
      if (targ) s.n.assumeGE(addc(lin::sub(G(s, "ub"), atom(bs)), -1));
      if (s.dead() || !s.n.feasible()) return true;
      L full = dict ? src : lin::add(src, D);
      set(s, "!" + p, 1);
      setL(s, p + "p", lin::add(so, atom(mt))); setL(s, p + "s", full); setL(s, p + "n", atom(ms));
      for (auto& o : in.call(fnArgs(in, BH + "::Match::ReplaceIfBetterMatch", 4), {a[5], vint(atom(ms), 64), vint(full, 32), vint(atom(mt), 32)}, s)) put(out, std::move(o.st), Value());
      return true;
    }
    return false;
  }
  void add(Interp& in, State& s, const Value& h, L end) {
    bool mine = s.ghost.count("th") && eqP(s, h, s.ghost["th"]);
    ob(in, s, "E01", "blocks are added to the hash of the target only", mine);
    if (!mine) throw PathEnd();
    ob(in, s, "E01", "blocks of the target are added in order, inside the chunk", s.n.entailsGE(lin::sub(end, G(s, "ub"))) && s.n.entailsGE(lin::sub(G(s, "T"), end)), "end " + str(s.n.norm(end)) + " before " + str(s.n.norm(G(s, "ub"))));
    setL(s, "ub", end);
  }
  bool quiet(Interp& in, State& s, const std::string& m) {
    bool ok = tag(s, "!chunk") && tag(s, "!vc") == 1 && tag(s, "!st") == 1;
    ob(in, s, "E03", "nothing is encoded before StartEncoding, after FinishEncoding, or of a chunk the writer refuses", ok, m);
    if (!ok) throw PathEnd();
    return ok;
  }
  bool extCall(Interp& in, State& s, const std::string& cls, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out) override {
    if (cls != "CodeTableWriterInterface") return sinkCall(in, s, m, a, out);
    if (m == "Add" && a.size() == 3) {
      quiet(in, s, m);
      L n = in.U(s, a[2]), pos = G(s, "pos");
      Value want = s.ghost["tg"]; want.e = lin::add(want.e, pos);
      ob(in, s, "E01", "an ADD continues where the previous instruction ended", eqP(s, a[1], want), sv(s, a[1]) + " expected " + sv(s, want));
      ob(in, s, "E01", "an ADD stays inside the chunk", s.n.entailsGE(lin::sub(G(s, "T"), lin::add(pos, n))), "size " + str(s.n.norm(n)));
      in.access(s, a[1], n, false, "ADD data");
      setL(s, "pos", lin::add(pos, n));
      set(s, "!any", 1);
      put(out, std::move(s), Value());
      return true;
    }
    if (m == "Copy" && a.size() == 3) {
      quiet(in, s, m);
      L n = in.U(s, a[2]), off = in.S(s, a[1]), pos = G(s, "pos");
      bool ok = false;
      for (std::string p : {"m1", "m2"}) if (tag(s, "!" + p)) {
        L d = lin::sub(pos, G(s, p + "p"));
        ok = ok || (s.n.entailsEQ(lin::sub(lin::sub(off, G(s, p + "s")), d)) && s.n.entailsGE(d) && s.n.entailsGE(lin::sub(G(s, p + "n"), lin::add(d, n))));
      }
      ob(in, s, "E01", "a COPY refers to data found equal to the next bytes of the chunk", ok, "address " + str(s.n.norm(off)) + " size " + str(s.n.norm(n)) + " at " + str(s.n.norm(pos)));
      ob(in, s, "E01", "a COPY refers to the dictionary or to bytes of the chunk already encoded", s.n.entailsGE(off) && s.n.entailsGE(addc(lin::sub(lin::add(G(s, "D"), pos), off), -1)), "address " + str(s.n.norm(off)));
      ob(in, s, "E01", "a COPY stays inside the chunk", s.n.entailsGE(lin::sub(G(s, "T"), lin::add(pos, n))), "size " + str(s.n.norm(n)));
      setL(s, "pos", lin::add(pos, n));
      set(s, "!any", 1);
      put(out, std::move(s), Value());
      return true;
    }
    if (m == "Output" && a.size() == 2) {
      quiet(in, s, m);
      ob(in, s, "E01", "the window is output after the instructions for the whole chunk", s.n.entailsEQ(lin::sub(G(s, "pos"), G(s, "T"))), "encoded " + str(s.n.norm(G(s, "pos"))) + " of " + str(s.n.norm(G(s, "T"))));
      ob(in, s, "E01", "a chunk is output once", !tag(s, "!out"));
      ob(in, s, "E03", "the window is written to the caller's output", eqP(s, a[1], s.ghost["os"]));
      if (flags & 2) ob(in, s, "E03", "a checksum is added to each window if it was asked for", tag(s, "!sum") == 1);
      set(s, "!out", 1);
      put(out, std::move(s), Value());
      return true;
    }
    if (m == "AddChecksum" && a.size() == 2) {
      quiet(in, s, m);
      ob(in, s, "E03", "a checksum is added only if it was asked for", (flags & 2) != 0);
      ob(in, s, "E03", "the checksum added is that of the whole chunk", tag(s, "!sumok") == 1 && s.ghost.count("sum") && s.n.entailsEQ(lin::sub(in.U(s, a[1]), in.U(s, s.ghost["sum"]))));
      set(s, "!sum", 1);
      put(out, std::move(s), Value());
      return true;
    }
    if (m == "VerifyChunk" && a.size() == 3) {
      ob(in, s, "E03", "the writer is asked about exactly the chunk given", tag(s, "!chunk") && s.n.entailsEQ(lin::sub(in.U(s, a[2]), G(s, "T"))) && (eqP(s, a[1], s.ghost["tg"]) || s.n.entailsEQ(G(s, "T"))));
      State t = s;
      set(t, "!vc", 2); put(out, std::move(t), vcst(0, 1));
      set(s, "!vc", 1); put(out, std::move(s), vcst(1, 1));
      return true;
    }
    if (m == "VerifyDictionary" && a.size() == 3) {
      ob(in, s, "E03", "the writer is asked about exactly the dictionary given", s.n.entailsEQ(lin::sub(in.U(s, a[2]), G(s, "D"))) && (eqP(s, a[1], s.ghost["dd"]) || s.n.entailsEQ(G(s, "D"))));
      State t = s;
      set(t, "!vd", 2); put(out, std::move(t), vcst(0, 1));
      set(s, "!vd", 1); put(out, std::move(s), vcst(1, 1));
      return true;
    }
    if (m == "Init" && a.size() == 2) {
      ob(in, s, "E03", "the writer is initialised with the size of the dictionary", s.n.entailsEQ(lin::sub(in.U(s, a[1]), G(s, "D"))));
      State t = s;
      set(t, "!wi", 2); put(out, std::move(t), vcst(0, 1));
      set(s, "!wi", 1); put(out, std::move(s), vcst(1, 1));
      return true;
    }
    if (m == "WriteHeader" && a.size() == 3) {
      ob(in, s, "E03", "the header is written once, by StartEncoding, for a writer that accepts the dictionary", tag(s, "!starting") == 1 && tag(s, "!wi") == 1 && tag(s, "!vd") == 1);
      ob(in, s, "E03", "the header is written for the extensions asked for", s.n.entailsEQ(addc(in.U(s, a[2]), -flags)) && eqP(s, a[1], s.ghost["os"]));
      set(s, "!starting", 2);
      put(out, std::move(s), Value());
      return true;
    }
    if (m == "FinishEncoding" && a.size() == 2) {
      ob(in, s, "E03", "the writer is finished by FinishEncoding only", tag(s, "!finishing") == 1 && eqP(s, a[1], s.ghost["os"]));
      set(s, "!finishing", 2);
      put(out, std::move(s), Value());
      return true;
    }
    return false;
  }
};
// the one-shot interfaces: VCDiffEncoder::Encode and VCDiffDecoder::Decode.  The streaming interfaces are arbitrary.
struct OneShot : Spec {
  std::string prop, key, cls;
  bool enc;
  int flags = 0, targets = 0;
  int tag(State& s, const std::string& k) { auto it = s.ghost.find(k); return it == s.ghost.end() ? 0 : (int)constOf(it->second.e); }
  void set(State& s, const std::string& k, int v) { s.ghost[k] = vcst(v, 32); }
  bool eqP(State& s, const Value& a, const Value& b) { return a.k == VPtr && b.k == VPtr && a.obj == b.obj && s.n.entailsEQ(lin::sub(a.e, b.e)); }
  bool same(Interp& in, State& s, const Value& p, const Value& n, const char* gp, const char* gn) { return s.n.entailsEQ(lin::sub(in.U(s, n), s.ghost[gn].e)) && (eqP(s, p, s.ghost[gp]) || s.n.entailsEQ(s.ghost[gn].e)); }
  void outcome(std::vector<Outcome>& out, State s, const char* k, bool isVoid = false) {
    if (!isVoid) { State t = s; set(t, k, 2); Outcome o; o.st = std::move(t); o.ret = vcst(0, 1); out.push_back(std::move(o)); }
    set(s, k, 1);
    Outcome o; o.st = std::move(s); if (!isVoid) o.ret = vcst(1, 1); out.push_back(std::move(o));
  }
  bool model(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out) override {
    const std::string& q = in.qname(F);
    if (q == NS + "HashedDictionary::HashedDictionary" && a.size() == 3) {
      in.oblige(s, prop, "the dictionary of the encoder is the one given", same(in, s, a[1], a[2], "dict", "D"), "", key);
      s.ghost["hd"] = a[0]; outcome(out, s, "!made", true); return true;
    }
    if (q == NS + "HashedDictionary::Init") {
      in.oblige(s, prop, "the dictionary is initialised once", tag(s, "!init") != 1 && eqP(s, a[0], s.ghost["hd"]), "", key);
      outcome(out, s, "!init"); return true;
    }
    if (q.compare(0, cls.size() + 2, cls + "::") != 0) return false;
    std::string m = q.substr(cls.size() + 2);
    if (m.compare(0, cls.size() - NS.size(), cls.substr(NS.size())) == 0) {
      if (enc) {
        in.oblige(s, prop, "encoding starts with an initialised dictionary and the settings of the caller", tag(s, "!init") == 1 && a.size() == 4 && eqP(s, a[1], s.ghost["hd"]) && s.n.entailsEQ(addc(in.U(s, a[2]), -flags)) && s.n.entailsEQ(addc(in.U(s, a[3]), -targets)), "", key);
      }
      s.ghost["inner"] = a[0];
      Outcome o; o.st = std::move(s); out.push_back(std::move(o));
      return true;
    }
    auto order = [&](bool ok) {
      ok = ok && tag(s, "!busy") && s.ghost.count("inner") && eqP(s, a[0], s.ghost["inner"]);
      in.oblige(s, prop, enc ? "Encode is StartEncoding, EncodeChunk of the whole target, FinishEncoding" : "Decode is StartDecoding, DecodeChunk of the whole delta, FinishDecoding", ok, m, key);
      if (!ok) throw PathEnd();
    };
    auto empty = [&]() { in.oblige(s, prop, "the old contents of the output are replaced", s.n.entailsEQ(in.strGet(s, s.ghost["out"]).size), "", key); };
    if (m == "StartEncodingToInterface") { order(!tag(s, "!1")); empty(); outcome(out, s, "!1"); return true; }
    if (m == "StartDecoding" && a.size() == 3) { order(!tag(s, "!1") && same(in, s, a[1], a[2], "dict", "D")); outcome(out, s, "!1", true); return true; }
    if (m == "EncodeChunkToInterface" || m == "DecodeChunkToInterface") {
      order(tag(s, "!1") == 1 && !tag(s, "!2") && same(in, s, a[1], a[2], "data", "n"));
      if (!enc) empty();
      outcome(out, s, "!2"); return true;
    }
    if (m == "FinishEncodingToInterface" || m == "FinishDecoding") { order(tag(s, "!2") == 1 && !tag(s, "!3")); outcome(out, s, "!3"); return true; }
    return false;
  }
  static void run(Ctx& c, bool enc, const std::string& prop) {
    Interp& in = c.in;
    OneShot sp;
    sp.prop = prop; sp.enc = enc;
    sp.cls = enc ? SE : NS + "VCDiffStreamingDecoder";
    in.spec = &sp; in.prop = prop; in.checkOverflow = false;
    auto size = [&](const char* f) { State s; auto r = c.call(in.find(std::string("verif_shim::") + f), {}, s); i128 n; if (r.size() != 1 || !constRet(r[0].st, r[0].ret, &n)) throw Broken{f}; return n; };
    for (int set = 0; set < (enc ? 4 : 1); ++set) {
      sp.flags = set & 2 ? 7 : 0; sp.targets = set & 1;
      sp.key = enc ? "flags " + std::to_string(sp.flags) + (sp.targets ? ", matches in the target" : "") : "";
      State s;
      Value x = c.obj(s, enc ? "encoder" : "decoder", size(enc ? "EncoderSize" : "DecoderSize"));
      Value D = c.sym(s, "dictionary size", 64, 0, pow2(30)), d = in.mkInput(s, "dictionary", D.e);
      s.ghost["x"] = x; s.ghost["D"] = D; s.ghost["dict"] = d;
      std::vector<State> init;
      if (enc) { for (auto& o : c.call(in.find("verif_shim::NewEncoder"), {x, d, D, vcst(sp.flags, 32), vcst(sp.targets, 1)}, s)) init.push_back(o.st); }
      else for (auto& o : c.call(in.find("verif_shim::NewDecoder"), {x}, s)) init.push_back(o.st);
      if (enc) for (auto& t : init) in.oblige(t, prop, "the encoder has a dictionary", sp.tag(t, "!made") == 1, "", sp.key);
      std::vector<Op> ops{{enc ? "Encode" : "Decode", [&](State& st) {
        std::vector<State> r;
        State u = st;
        Value out = c.obj(u, "output string", 32), n = vint(atom(newAtom("length", 0, pow2(30))), 64), data = in.mkInput(u, "data", n.e);
        Value n0 = vint(atom(newAtom("old contents", 0, pow2(20))), 64), old = in.mkInput(u, "old", n0.e);
        Value ds = c.obj(u, "delta", 32);
        u.ghost["out"] = out; u.ghost["data"] = data; u.ghost["n"] = n; u.ghost["ds"] = ds; u.ghost["old"] = old;
        for (auto* k : {"!1", "!2", "!3"}) sp.set(u, k, 0);
        Spec none;
        in.spec = &none;
        auto ready = c.act(u, [&](State& t) {
          in.strInit(t, out, false);
          in.strAppend(t, out, old, n0.e, false);
          if (enc) return;
          in.strInit(t, ds, false);
          in.strAppend(t, ds, data, n.e, false);
          t.ghost["data"] = in.strGet(t, ds).data;
        });
        in.spec = &sp;
        std::vector<Value> args{x, data, n, out};
        if (!enc) args = {x, d, D, ds, out};
        for (auto& y : ready) { sp.set(y, "!busy", 1); for (auto& o : c.call(in.find(enc ? "verif_shim::Encode" : "verif_shim::Decode"), args, y)) {
          i128 v;
          State& t = o.st;
          bool known = constRet(t, o.ret, &v), good = sp.tag(t, "!3") == 1;
          in.oblige(t, prop, enc ? "Encode succeeds exactly if every step does" : "Decode succeeds exactly if every step does", known && (v & 1) == good, "", sp.key);
          c.counts["one_shot"]++;
          for (auto* k : {"out", "data", "n", "ds", "old"}) t.ghost.erase(k);
          for (auto* k : {"!1", "!2", "!3", "!busy"}) sp.set(t, k, 0);
          if (sp.tag(t, "!init") == 2) continue;      // (a dictionary that cannot be initialised)
          r.push_back(t);
        } }
        return r;
      }}};
      MGC m(c);
      m.K = 2; m.Mjoin = 2;
      m.run(init, ops);
    }
  }
};
struct EW {
  Ctx& c; Interp& in; ESpec spec; std::string only;
  EW(Ctx& x, const std::string& p) : c(x), in(x.in), only(p) {}
  std::vector<State> each(const std::vector<State>& v, const llvm::Function* F, std::function<std::vector<Value>(State&)> a) {
    std::vector<State> r;
    for (auto s : v) for (auto& o : c.call(F, a(s), s)) r.push_back(std::move(o.st));
    return r;
  }
  void clear(State& s) {
    for (auto* k : {"!chunk", "!vc", "!vd", "!wi", "!starting", "!finishing", "!out", "!sum", "!sumok", "!any", "!m1", "!m2"}) spec.set(s, k, 0);
    for (auto* k : {"T", "tg", "pos", "ub", "th", "sum", "m1p", "m1s", "m1n", "m2p", "m2s", "m2n"}) s.ghost.erase(k);
  }
  void run() {
    in.spec = &spec;
    in.prop = "E01";
    in.checkOverflow = false;
    in.pairJoin = true;
    in.Kloop = 1; in.Kret = 30; in.Kblock = 60;
    loadExtTable(in, "OutputStringInterface", kOutputStringVtable);
    loadExtTable(in, "CodeTableWriterInterface", NS + "VCDiffCodeTableWriter");
    parallel(c, 16, [&](size_t i) { scenario((int)i & 7, (int)i >> 3); });
    c.counts["scenarios"] = 16;
    for (auto it = in.obs.begin(); it != in.obs.end();) if (it->first != only) it = in.obs.erase(it); else ++it;
  }
  void scenario(int flags, int targets) {
    spec.flags = flags;
    std::string base = "flags " + std::to_string(flags) + (targets ? ", matches in the target" : "");
    spec.key = base;
    State s;
    Value hd = c.obj(s, "hashed dictionary", typeSize(in, NS + "HashedDictionary")), enc = c.obj(s, "encoder", typeSize(in, SE));
    Value D = c.sym(s, "dictionary size", 64, 0, pow2(30));
    Value d = in.mkInput(s, "dictionary", D.e);
    Value w = c.obj(s, "writer", 8), os = c.obj(s, "output", 8);
    in.mut(s, w.obj)->ext = "CodeTableWriterInterface";
    in.mut(s, os.obj)->ext = "OutputStringInterface";
    s.ghost["D"] = D; s.ghost["enc"] = enc; s.ghost["os"] = os; s.ghost["hd"] = hd; s.ghost["w"] = w; s.ghost["d"] = d;
    clear(s);
    spec.set(s, "!st", 0);
    auto v = each({s}, fnArgs(in, NS + "HashedDictionary::HashedDictionary", 3), [&](State&) { return std::vector<Value>{hd, d, D}; });
    // the dictionary given may be gone from here on
    std::vector<State> ready;
    for (auto& t : each(v, fnArgs(in, NS + "HashedDictionary::Init", 1), [&](State&) { return std::vector<Value>{hd}; })) {
      State u = t;
      bool has = u.ghost.count("dd");
      in.oblige(u, "E01", "a dictionary hash is made", has, "", base);
      if (!has) continue;
      // what the engine works with is a copy of the dictionary
      Value x = vint(atom(newAtom("any position", 0, pow2(30))), 64);
      State y = u;
      y.n.assumeGE(addc(lin::sub(D.e, x.e), -1));
      if (!y.dead() && y.n.feasible()) {
        Value p = u.ghost["dd"]; p.e = lin::add(p.e, x.e);
        bool own = p.obj != d.obj;
        in.oblige(y, "E01", "the encoder has its own copy of the dictionary", own, "", base);
        if (own) {
          Value b1 = in.loadW(y, p, 1, false), b2 = in.loadW(y, vptr(d.obj, x.e), 1, false);
          in.oblige(y, "E01", "the copy of the dictionary has the same bytes", b1.k == VInt && y.n.entailsEQ(lin::sub(in.U(y, b1), in.U(y, b2))), "", base);
        }
      }
      auto* m = in.mut(u, d.obj); m->alive = false; m->ver = -1; m->cells.clear();
      u.ghost.erase("d");
      ready.push_back(u);
    }
    auto init = each(ready, fnArgs(in, SE + "::" + "VCDiffStreamingEncoder", 5), [&](State&) { return std::vector<Value>{enc, hd, vcst(flags, 32), vcst(targets, 1), w}; });
    auto ret = [&](Outcome& o) { i128 r; if (!constRet(o.st, o.ret, &r)) return -1; return (int)(r & 1); };
    std::vector<Op> ops;
    ops.push_back({"StartEncoding", [&](State& s) {
      std::vector<State> r;
      spec.set(s, "!starting", 1);
      spec.key = base + ", StartEncoding";
      for (auto& o : c.call(fnArgs(in, SE + "::StartEncodingToInterface", 2), {enc, os}, s)) {
        State& t = o.st;
        int k = ret(o);
        bool good = spec.tag(t, "!wi") == 1 && spec.tag(t, "!vd") == 1;
        in.oblige(t, "E03", "StartEncoding succeeds exactly if the writer accepts the dictionary", k == good, "", spec.key);
        if (k == 1) in.oblige(t, "E03", "StartEncoding writes the header", spec.tag(t, "!starting") == 2, "", spec.key);
        if (k == 1) spec.set(t, "!st", 1);
        clear(t);
        c.counts["starts"]++;
        // (whether chunks may be encoded after a second, failing StartEncoding is left open)
        if (k == 1 || !spec.tag(t, "!st")) r.push_back(t);
      }
      return r;
    }});
    ops.push_back({"EncodeChunk", [&](State& s) {
      std::vector<State> r;
      for (int small = 0; small < 2; ++small) {
        State u = s;
        spec.key = base + ", EncodeChunk" + (small ? ", short chunk" : "") + (spec.tag(s, "!st") ? "" : " without StartEncoding");
        Value T = vint(small ? atom(newAtom("chunk size", 0, 15)) : atom(newAtom("chunk size", 16, pow2(30))), 64);
        Value tg = in.mkInput(u, "chunk", T.e);
        u.ghost["T"] = T; u.ghost["tg"] = tg; spec.setL(u, "pos", cst(0)); spec.setL(u, "ub", cst(0));
        spec.set(u, "!chunk", 1);
        for (auto& o : c.call(fnArgs(in, SE + "::EncodeChunkToInterface", 4), {enc, tg, T, os}, u)) for (auto& z : c.act(o.st, [&](State& t) { spec.set(t, "!empty", in.test(t, Constraint::EQ, spec.G(t, "T"))); })) {
          State t = z;
          int k = ret(o);
          bool good = spec.tag(t, "!vc") == 1 && spec.tag(t, "!st") == 1, empty = spec.tag(t, "!empty");
          in.oblige(t, "E03", "EncodeChunk succeeds exactly if encoding was started and the writer accepts the chunk", k == good, "", spec.key);
          if (k == 1) {
            in.oblige(t, "E01", "the instructions add up to exactly the chunk", t.n.entailsEQ(lin::sub(spec.G(t, "pos"), spec.G(t, "T"))), "encoded " + str(t.n.norm(spec.G(t, "pos"))), spec.key);
            in.oblige(t, "E01", "a chunk is output, an empty one is not", spec.tag(t, "!out") == !empty, "", spec.key);
            c.counts["chunks"]++;
          } else c.counts["refused"]++;
          t.ghost.erase("!empty");
          Value b = t.ghost["tg"];
          auto* m = in.mut(t, b.obj); if (m) { m->alive = false; m->ver = -1; m->cells.clear(); }
          clear(t);
          r.push_back(t);
        }
      }
      return r;
    }});
    ops.push_back({"FinishEncoding", [&](State& s) {
      std::vector<State> r;
      spec.set(s, "!finishing", 1);
      spec.key = base + ", FinishEncoding";
      for (auto& o : c.call(fnArgs(in, SE + "::FinishEncodingToInterface", 2), {enc, os}, s)) {
        State& t = o.st;
        int k = ret(o);
        in.oblige(t, "E03", "FinishEncoding succeeds exactly if encoding was started, and finishes the writer", k == spec.tag(t, "!st") && (spec.tag(t, "!finishing") == 2) == (k == 1), "", spec.key);
        spec.set(t, "!st", 0);
        clear(t);
        c.counts["finishes"]++;
        r.push_back(t);
      }
      return r;
    }});
    MGC m(c);
    m.K = 1; m.Mjoin = 1;
    m.run(init, ops);
  }
};
}
CHECK(E01) { EW e(c, "E01"); e.run(); }
CHECK(E03) { OneShot::run(c, true, "E03"); EW e(c, "E03"); e.run(); }
void oneShotDecoder(Ctx& c) { OneShot::run(c, false, "D06"); }
