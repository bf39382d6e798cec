// Most-general-client fixpoint: every order of API operations, from any reachable abstract state.
#pragma once
#include "driver.hpp"
struct Op { std::string name; std::function<std::vector<State>(State&)> run; };
struct MGC {
  Ctx& c;
  int K = 2;           // disjuncts per shape
  int Mjoin = 3;
  int maxRounds = 200;
  struct D { State st; std::string key; int njoin = 0; };
  std::vector<D> set;
  long transitions = 0;
  explicit MGC(Ctx& x) : c(x) {}
  bool add(State st);                // returns true if new
  void run(std::vector<State> init, const std::vector<Op>& ops);
  std::vector<size_t> work;
};
void loadExtTable(Interp& in, const std::string& cls, const std::string& vtableOf);
