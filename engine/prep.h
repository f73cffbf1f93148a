#pragma once
#include <llvm/IR/Module.h>
#include <string>
#include <vector>
int prepModule(llvm::Module &M, const std::string &out, const std::vector<std::string> &novis, bool nostores);
int memModule(llvm::Module &M, const std::string &out);
