#pragma once
#include "prog.h"
namespace sim {
struct RunStats { u64 ops, steps; bool bad_started; };
bool prepare(const Program &P, std::string *why);
void exec_program(const Program &P);
bool violation(const Program &P, std::string &cat, std::string &msg);
RunStats run_stats();
bool num_equal(int type, const u8 *a, const u8 *b);
void lib_reset(int nranks);
}
