// C14 (lifetimes, allocators) and C15 (exceptions) for sequence
#include "mon.hpp"
#include <seq/sequence.hpp>
#include "lin.hpp"
using namespace lin;
template<class T, unsigned P>
using V = seq::sequence<T, LAlloc<T, P>>;
#if PART == 0
static Reg r1("C14/sequence/noreloc-stay", 1500, 40000, &run_case<V<TNoReloc, 0>, SEQ, ALLOCS>);
static Reg r2("C14/sequence/reloc-propagate", 1500, 40000, &run_case<V<TReloc, 7>, SEQ, ALLOCS>);
#elif PART == 1
static Reg r3("C14/sequence/noreloc-moveprop", 1500, 40000, &run_case<V<TNoReloc, 10>, SEQ, ALLOCS>);
static Reg r4("C14/sequence/reloc-copyprop", 1500, 40000, &run_case<V<TReloc, 1>, SEQ, ALLOCS>);
#elif PART == 2
static Reg r5("C15/sequence/nothrow-move", 3000, 60000, &run_case<V<TNoReloc, 0>, SEQ, FAULTS | STRONG>);
static Reg r6("C15/sequence/reloc", 3000, 60000, &run_case<V<TReloc, 0>, SEQ, FAULTS | STRONG>);
#else
static Reg r7("C15/sequence/throwing-move", 3000, 60000, &run_case<V<TThrow, 0>, SEQ, FAULTS | STRONG>);
static Reg r8("C15/sequence/reloc-throwing-move", 3000, 60000, &run_case<V<TRelocThrow, 0>, SEQ, FAULTS | STRONG>);
#endif
