#pragma once
#include "hist.hpp"
// Changes to the simulated machine, made by the harness between calls: {"fs", what, ...}
bool fsOp(const Op & o);
// queries that together touch every component of a handle
void addBattery(Case & c, Gen & g, int t, const std::string & h, const std::string & dict, int sugg);
sim::Fault mkFault(int kind, uint64_t nth, int arg, int op);
// runs all operations with operation-scoped faults armed only in the operations they name
void runOps(const Case & c, Out & o, Api & api, bool retry);
