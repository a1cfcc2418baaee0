// C14 (lifetimes, allocators) and C15 (exceptions) for tvector
#include "mon.hpp"
#include <seq/tiered_vector.hpp>
#include "lin.hpp"
using namespace lin;
template<class T, unsigned P>
using V = seq::tiered_vector<T, LAlloc<T, P>>;
#if PART == 0
static Reg r1("C14/tvector/noreloc-stay", 1500, 40000, &run_case<V<TNoReloc, 0>, TV, ALLOCS>);
static Reg r2("C14/tvector/reloc-propagate", 1500, 40000, &run_case<V<TReloc, 7>, TV, ALLOCS>);
#elif PART == 1
static Reg r3("C14/tvector/noreloc-moveprop", 1500, 40000, &run_case<V<TNoReloc, 10>, TV, ALLOCS>);
static Reg r4("C14/tvector/reloc-copyprop", 1500, 40000, &run_case<V<TReloc, 1>, TV, ALLOCS>);
#elif PART == 2
static Reg r5("C15/tvector/nothrow-move", 3000, 60000, &run_case<V<TNoReloc, 0>, TV, FAULTS | STRONG>);
static Reg r6("C15/tvector/reloc", 3000, 60000, &run_case<V<TReloc, 0>, TV, FAULTS | STRONG>);
#else
static Reg r7("C15/tvector/throwing-move", 3000, 60000, &run_case<V<TThrow, 0>, TV, FAULTS | STRONG>);
static Reg r8("C15/tvector/reloc-throwing-move", 3000, 60000, &run_case<V<TRelocThrow, 0>, TV, FAULTS | STRONG>);
#endif
