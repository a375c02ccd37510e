// Variants without polylib: the algebra workloads run in the "tool" variant.
#include "judge.h"
bool is_alg(const std::string &) { return false; }
Case gen_alg(const std::string &, uint64_t, long) { return Case(); }
void judge_alg(const std::string &, const Case &, Out &) {}
