// C14 (lifetimes, allocators) and C15 (exceptions) for devector
#include "mon.hpp"
#include <seq/devector.hpp>
#include "lin.hpp"
using namespace lin;
template<class T, unsigned P>
using V = seq::devector<T, LAlloc<T, P>>;
#if PART == 0
static Reg r1("C14/devector/noreloc-stay", 1500, 40000, &run_case<V<TNoReloc, 0>, DEV, ALLOCS>);
static Reg r2("C14/devector/reloc-propagate", 1500, 40000, &run_case<V<TReloc, 7>, DEV, ALLOCS>);
#elif PART == 1
static Reg r3("C14/devector/noreloc-moveprop", 1500, 40000, &run_case<V<TNoReloc, 10>, DEV, ALLOCS>);
static Reg r4("C14/devector/reloc-copyprop", 1500, 40000, &run_case<V<TReloc, 1>, DEV, ALLOCS>);
#elif PART == 2
static Reg r5("C15/devector/nothrow-move", 3000, 60000, &run_case<V<TNoReloc, 0>, DEV, FAULTS | STRONG>);
static Reg r6("C15/devector/reloc", 3000, 60000, &run_case<V<TReloc, 0>, DEV, FAULTS | STRONG>);
#else
static Reg r7("C15/devector/throwing-move", 3000, 60000, &run_case<V<TThrow, 0>, DEV, FAULTS | STRONG>);
static Reg r8("C15/devector/reloc-throwing-move", 3000, 60000, &run_case<V<TRelocThrow, 0>, DEV, FAULTS | STRONG>);
#endif
