// Helpers for the per-property drivers.
#pragma once
#include "interp.hpp"
#include "finfo.hpp"
struct Ctx {
  Interp& in;
  std::map<std::string, long> counts;      // evidence counters
  std::vector<std::string> notes;
  bool thorough = false;
  bool noStop = false;                     // go on after a violation
  std::set<size_t> items, failedItems;     // scenarios to analyse (empty: all); those with a violation
  bool stopped = false;
  explicit Ctx(Interp& i) : in(i) {}
  // analyse a call from the driver; case splits needed by the driver-level model are resolved here
  std::vector<Outcome> call(const llvm::Function* F, const std::vector<Value>& args, const State& st);
  std::vector<Outcome> call(const std::string& qn, const std::vector<Value>& args, const State& st) { return call(in.find(qn), args, st); }
  // run a driver-level action that may split
  std::vector<State> act(const State& st, const std::function<void(State&)>& f);
  Value obj(State& s, const std::string& name, i128 size);   // uninitialised object
  Value sym(State& s, const std::string& name, int w, i128 lo, i128 hi);
};
// fn(0..n-1) in parallel processes; fn must not depend on state left by another call
void parallel(Ctx& c, size_t n, const std::function<void(size_t)>& fn);
i128 typeSize(Interp& in, const std::string& cls);   // from the IR types or the debug information
std::map<std::string, i64> members(Interp& in, const std::string& cls);   // data members and their offsets, from the debug information
typedef void (*CheckFn)(Ctx&);
struct CheckReg { CheckReg(const char* name, CheckFn f); };
std::map<std::string, CheckFn>& checks();
#define CHECK(name) static void check_##name(Ctx& c); static CheckReg reg_##name(#name, check_##name); static void check_##name(Ctx& c)
const VerT& verInfo(int v);
