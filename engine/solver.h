// SMT back end: path conditions are persistent lists of boolean terms; each
// distinct conjunct gets one indicator literal in an incremental Z3 solver.
#pragma once
#include "expr.h"
#include <memory>
#include <string>

struct PC {
    E e;
    const PC *up;
    uint32_t depth;
    uint64_t hash;
};
using PCRef = const PC *;
PCRef pcAdd(PCRef p, E e);

enum class Sat { Yes, No, Unknown };
struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, z3calls = 0, modelHits = 0, trivial = 0;
    double seconds = 0;
    double maxQuery = 0;
};
extern SolverStats gSolver;
extern unsigned gQueryTimeoutMs;
extern std::string gDumpDir; // when set, every Nth query is written as SMT-LIB
extern unsigned gDumpEvery;

// Is pc && extra satisfiable?  On Yes and model!=nullptr, *model is filled.
Sat solve(PCRef pc, E extra, std::shared_ptr<Model> *model);
bool satisfies(Model &m, PCRef pc, E extra);
