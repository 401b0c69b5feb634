#pragma once
#include "plan.h"
namespace sim
{
Plan genPlan(const std::string & prop, uint64_t seed, bool thorough);
void runPlan(const Plan & p);
// properties a crash or hang in the given situation violates
std::vector<std::string> crashProps(const Shared & s, const Plan & p);
} // namespace sim
