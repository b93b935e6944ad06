// Incremental Z3 front end plus a sound order-closure fast path.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "expr.hpp"

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, fast = 0, dumped = 0, paranoid = 0, fallback = 0, ints = 0, lin = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
extern std::string g_dumpDir;
extern u64 g_dumpEvery, g_dumpMax;

typedef std::shared_ptr<const Model> ModelP;

// PC and extra satisfiable? fills model if so.
Res solverCheck(const std::vector<E>& pc, E extra, ModelP* model);
void solverInit();

// --- order database: transitive closure of <, <= over PC literals ---
static const int ORD_N = 192, ORD_W = 3;
struct OrderDB {
  struct Rel {
    u64 le[ORD_N][ORD_W], lt[ORD_N][ORD_W], ne[ORD_N][ORD_W];
    u64 act[ORD_W];
  };
  Rel s, u;
  OrderDB();
};
typedef std::shared_ptr<OrderDB> OrderP;
// add a literal known to hold
void orderAdd(OrderP& db, E lit);
// 1 implied true, 0 implied false, -1 don't know
int orderImplied(OrderP& db, E e);
// e rewritten with every comparison the database decides replaced by its value
E orderRewrite(OrderP& db, E e);
extern u64 g_ordVersion;  // bumped by the caller whenever the current database may differ
