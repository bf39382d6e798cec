// Contracts of functions that are verified on their own (by another check) and used as models elsewhere.
#pragma once
#include "mgc.hpp"
extern const char* kOutputStringVtable;
// VarintBE<T>::Parse as established by V01.  Returns true if F is that function.
bool contractVarintParse(Interp& in, State& s, const llvm::Function* F, std::vector<Value>& a, std::vector<Outcome>& out);
// a sink implementing OutputStringInterface; counts appended bytes in ghost "!out" if present
bool sinkCall(Interp& in, State& s, const std::string& m, std::vector<Value>& a, std::vector<Outcome>& out);
// copy of an object and everything it owns (new/new[] blocks), with identical contents
Value cloneGraph(Interp& in, State& s, const Value& p, const std::set<int>& shared);
// pick a constructor / method by number of IR parameters
const llvm::Function* fnArgs(Interp& in, const std::string& qn, size_t nargs, const char* argsContain = nullptr);
bool hasFn(Interp& in, const std::string& qn);
// result of an integer-valued call as a constant
bool constRet(State& s, const Value& v, i128* c);
