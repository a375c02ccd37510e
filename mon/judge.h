#ifndef JUDGE_H
#define JUDGE_H
#include "oracle.h"
Case gen_case(const std::string &prop, uint64_t seed, long k);
void judge(const std::string &prop, const Case &c, Out &o);
bool is_alg(const std::string &p);
Case gen_alg(const std::string &prop, uint64_t seed, long k);
void judge_alg(const std::string &prop, const Case &c, Out &o);
#endif
