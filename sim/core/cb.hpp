#pragma once
#include "table.hpp"
namespace sim {
struct CbError { std::uint64_t id; };
struct CbEntry { const char *name; const Shape *shape; int reduce, mask, keyed; RunFn run; };
struct CbNode { CbEntry e; CbNode *next; };
extern CbNode *cb_entries;
}
extern "C" void sim_gen(std::size_t i, void *val);
extern "C" void sim_red(const void *a, const void *b, void *r);     // may throw sim::CbError
extern "C" void sim_key(const void *key);
