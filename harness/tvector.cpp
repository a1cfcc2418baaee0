#include "mon.hpp"
#include <seq/tiered_vector.hpp>
#include "lin.hpp"
using namespace lin;
template<class T>
using A = LAlloc<T, 0>;
#if PART == 0
static Reg r1("C02/tvector/int", 3000, 60000, &run_case<seq::tiered_vector<int>, TV, ALIAS>);
static Reg r2("C02/tvector/noreloc", 1500, 40000, &run_case<seq::tiered_vector<TNoReloc, A<TNoReloc>>, TV, ALIAS>);
#else
static Reg r3("C02/tvector/reloc", 1500, 40000, &run_case<seq::tiered_vector<TReloc, A<TReloc>>, TV, ALIAS>);
static Reg r4("C02/tvector/noreloc-small-buckets", 1500, 40000, &run_case<seq::tiered_vector<TNoReloc, A<TNoReloc>, 4, 64>, TV, ALIAS>);
static Reg r5("C02/tvector/fixed-bucket", 1500, 40000, &run_case<seq::tiered_vector<int, std::allocator<int>, 16, 16>, TV, ALIAS>);
#endif
