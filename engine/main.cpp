// engine <module.bc> <check> <out.json> [-d N] [--thorough]
#include "driver.hpp"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/Support/SourceMgr.h"
#include <chrono>
#include <cstring>
using namespace lin;

std::map<std::string, CheckFn>& checks() { static std::map<std::string, CheckFn> m; return m; }
CheckReg::CheckReg(const char* n, CheckFn f) { checks()[n] = f; }

std::vector<State> Ctx::act(const State& st, const std::function<void(State&)>& f) {
  std::vector<State> todo{st}, out;
  int guard = 0;
  while (!todo.empty()) {
    State s = std::move(todo.back());
    todo.pop_back();
    if (++guard > 5000) throw Broken{"driver: too many splits"};
    State snap = s;
    try {
      f(s);
      if (!s.dead()) out.push_back(std::move(s));
    } catch (NeedSplit& sp) {
      for (auto& c : sp.cases) {
        State t = snap;
        bool ok = true;
        for (auto& k : c) {
          if (k.k == Constraint::GE) t.n.assumeGE(k.e);
          else if (k.k == Constraint::EQ) t.n.assumeEQ(k.e);
          else t.n.assumeNE(k.e);
          if (t.dead()) { ok = false; break; }
        }
        if (ok && t.n.feasible()) todo.push_back(std::move(t));
      }
    } catch (PathEnd&) {
    }
  }
  return out;
}
std::vector<Outcome> Ctx::call(const llvm::Function* F, const std::vector<Value>& args, const State& st) {
  std::vector<Outcome> res;
  if (F->isDeclaration()) throw Broken{"entry point has no body: " + in.qname(F)};
  act(st, [&](State& s) {
    State copy = s;
    auto r = in.call(F, args, std::move(copy));
    for (auto& o : r) if (!o.st.dead()) res.push_back(std::move(o));
  });
  return res;
}
Value Ctx::obj(State& s, const std::string& name, i128 size) { return vptr(in.fresh(s, name, cst(size)), cst(0)); }
Value Ctx::sym(State& s, const std::string& name, int w, i128 lo, i128 hi) { return vint(atom(newAtom(name, lo, hi)), w); }

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r + "\"";
}
template <class T> static std::string jset(const T& v) {
  std::string r = "[";
  bool first = true;
  for (auto& x : v) { if (!first) r += ", "; first = false; r += js(x); }
  return r + "]";
}
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: engine module.bc check out.json [-d N] [--thorough]\n"); return 2; }
  std::string name = argv[2];
  auto it = checks().find(name);
  if (it == checks().end()) { fprintf(stderr, "no such check %s\n", name.c_str()); return 2; }
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(argv[1], err, ctx);
  if (!M) { fprintf(stderr, "cannot read %s: %s\n", argv[1], err.getMessage().str().c_str()); return 2; }
  Interp in(M.get());
  in.prop = in.only = name;
  Ctx c(in);
  for (int i = 4; i < argc; ++i) {
    if (!strcmp(argv[i], "-d") && i + 1 < argc) in.debug = atoi(argv[++i]);
    if (!strcmp(argv[i], "--thorough")) c.thorough = true;
    if (!strcmp(argv[i], "--nostop")) c.noStop = true;
    if (!strcmp(argv[i], "--items") && i + 1 < argc) for (const char* p = argv[++i]; *p;) { char* e; c.items.insert(strtoul(p, &e, 10)); p = *e ? e + 1 : e; }
    if (!strcmp(argv[i], "--boost")) in.boost = true;
    if (!strncmp(argv[i], "K=", 2)) sscanf(argv[i], "K=%d,%d,%d,%d", &in.Kloop, &in.Kret, &in.Kblock, &in.Mjoin);
  }
  auto t0 = std::chrono::steady_clock::now();
  std::string broken;
  try {
    it->second(c);
  } catch (Broken& b) {
    broken = b.why;
    if (!in.stack.empty()) broken += " (at " + in.chain() + ")";
  } catch (NeedSplit& sp) {
    broken = std::string("unhandled split: ") + sp.why;
  } catch (PathEnd&) {
    broken = "unhandled path end";
  } catch (Overflow&) {
    broken = "coefficient overflow";
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  FILE* f = fopen(argv[3], "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", argv[3]); return 2; }
  long ok = 0, fail = 0, und = 0, n = 0;
  fprintf(f, "{\n \"check\": %s,\n \"broken\": %s,\n \"wall_s\": %.2f,\n", js(name).c_str(), js(broken).c_str(), wall);
  fprintf(f, " \"steps\": %ld, \"calls\": %ld, \"joins\": %ld, \"widens\": %ld, \"lp_calls\": %ld, \"entailments\": %ld,\n", in.steps, in.calls, in.joins, in.widens, g_lp_calls, g_ent_calls);
  fprintf(f, " \"functions\": %s,\n \"models\": %s,\n \"unmodelled\": %s,\n \"notes\": %s,\n", jset(in.usedFns).c_str(), jset(in.extModels).c_str(), jset(in.unmodelled).c_str(), jset(c.notes).c_str());
  fprintf(f, " \"stopped\": %d, \"failed_items\": [", (int)c.stopped);
  { bool f1 = true; for (auto x : c.failedItems) { fprintf(f, "%s%zu", f1 ? "" : ", ", x); f1 = false; } }
  fprintf(f, "],\n");
  fprintf(f, " \"counts\": {");
  bool first = true;
  for (auto& k : c.counts) { fprintf(f, "%s%s: %ld", first ? "" : ", ", js(k.first).c_str(), k.second); first = false; }
  fprintf(f, "},\n \"obligations\": [");
  first = true;
  for (auto& p : in.obs) for (auto& o : p.second) {
    const ObRec& r = o.second;
    ++n; ok += r.ok; fail += r.fail; und += r.und;
    fprintf(f, "%s\n  {\"prop\": %s, \"key\": %s, \"ok\": %ld, \"fail\": %ld, \"undecided\": %ld, \"detail\": %s, \"chain\": %s}", first ? "" : ",",
            js(p.first).c_str(), js(o.first).c_str(), r.ok, r.fail, r.und, js(r.detail).c_str(), js(r.chain).c_str());
    first = false;
  }
  fprintf(f, "\n ]\n}\n");
  fclose(f);
  if (in.debug >= 0)
    fprintf(stderr, "%s: %ld rules instances, ok %ld fail %ld undecided %ld; steps %ld joins %ld lp %ld ent %ld; %.2fs %s\n", name.c_str(), n, ok, fail, und, in.steps, in.joins, g_lp_calls, g_ent_calls, wall, broken.c_str());
  return broken.empty() ? (fail ? 1 : 0) : 2;
}
