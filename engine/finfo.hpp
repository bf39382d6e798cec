#pragma once
#include "interp.hpp"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
struct FInfo {
  const llvm::Function* F;
  llvm::DominatorTree DT;
  llvm::LoopInfo LI;
  std::map<const llvm::Value*, int> num;
  int nvals = 0;
  std::vector<const llvm::BasicBlock*> rpo;
  std::map<const llvm::BasicBlock*, int> idx;
  std::vector<bool> head, exitTarget, smallLoop;
  std::vector<i128> thr;   // widening thresholds harvested from the function's constants
  std::vector<std::vector<int>> live;     // per block: live after phis
  std::vector<std::vector<char>> liveOut;
  std::map<const llvm::Instruction*, std::vector<int>> la;
  FInfo(const llvm::Function* f);
  const std::vector<int>& liveAfter(const llvm::Instruction* I);
};
