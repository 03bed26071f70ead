#pragma once
#include "smt.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>

struct Val { T t = nullptr; uint64_t c = 0; std::shared_ptr<std::vector<Val>> agg; };
struct Cell { T t; unsigned size; };
struct Obj {
  uint64_t base, size; std::vector<uint8_t> data, st; std::unordered_map<uint32_t, Cell> cells; bool ro = false; const char* kind = "";
};
struct PathEnd { std::string why; };
struct Violation { std::string kind, msg; };
struct CxxThrow { uint64_t obj, ti; };

// path state (global; forked processes give each path its own copy)
extern std::vector<T> g_pc;
bool decide(T c);
void assume(T c);
bool feasible(const std::vector<T>& extra);
void addVar(T v, double lo, double hi);
void addUnit(const std::vector<T>& vs);
void doCheck(T c, const std::string& label);
void doCheckEq(T a, T b, const std::string& label);
void logLine(const std::string& s);
std::string jstr(const std::string& s);
void pathsInit();
void finishPath(const std::string& status, const std::string& msg);
void waitChildren();
uint64_t concretize(T bv, const char* why);
T concretizeReal(T r, int mode);
struct Options { int qt = 5000, bt = 2000; long maxPaths = 20000; uint64_t maxInstr = 200000000; int jobs = 8; double wall = 600; int seed = 1; bool thorough = false; };
extern Options g_opt;
extern uint64_t g_instr;
extern std::string g_where;
extern std::map<std::string, std::string> g_notes;
