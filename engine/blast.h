// Bit-blasting decision procedure: expressions -> and/xor/mux graph -> CNF -> MiniSat.
#pragma once
#include "solver.h"
// returns false if the query contains something it does not translate (floating point, symbolic multiplication or
// division) or the conflict budget ran out
bool blastCheck(const std::vector<Expr*>& cs, Expr* q, Res& r, Model& m);
