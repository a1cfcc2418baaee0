#include "mon.hpp"
#include <seq/sequence.hpp>
#include "lin.hpp"
using namespace lin;
template<class T>
using A = LAlloc<T, 0>;
#if PART == 0
static Reg r1("C03/sequence/int", 3000, 60000, &run_case<seq::sequence<int>, SEQ, ALIAS>);
#elif PART == 1
static Reg r2("C03/sequence/noreloc", 2000, 40000, &run_case<seq::sequence<TNoReloc, A<TNoReloc>>, SEQ, ALIAS>);
#else
static Reg r3("C03/sequence/reloc-align64", 2000, 40000, &run_case<seq::sequence<TReloc, A<TReloc>, true>, SEQ, ALIAS>);
#endif
