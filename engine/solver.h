#pragma once
#include "expr.h"

struct SolverStats {
    u64 queries = 0;        // queries answered by z3
    u64 assertQueries = 0;  // of these, queries deciding an assertion
    u64 cacheHits = 0;
    u64 domainDecided = 0;  // decided by the exact 8-bit domain of a single variable
    u64 modelReuse = 0;     // side shown feasible by the state's current model
    u64 crossChecked = 0;   // domain decisions re-decided by z3
    u64 unknown = 0;
    double time = 0;
};
extern SolverStats sstats;

enum class SR { Sat, Unsat, Unknown };

// Decides the conjunction. On Sat, fills model entries (var, value).
SR z3Check(const std::vector<ER> &cs, std::vector<std::pair<u32, u8>> *model, bool useCache = true);
void solverReset();     // new context (after fork)
extern unsigned solverRlimit;
