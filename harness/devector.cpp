#include "mon.hpp"
#include <seq/devector.hpp>
#include "lin.hpp"
using namespace lin;
template<class T>
using A = LAlloc<T, 0>;
static Reg r1("C01/devector/int", 4000, 60000, &run_case<seq::devector<int>, DEV, ALIAS>);
static Reg r2("C01/devector/noreloc", 3000, 60000, &run_case<seq::devector<TNoReloc, A<TNoReloc>>, DEV, ALIAS>);
static Reg r3("C01/devector/reloc", 3000, 60000, &run_case<seq::devector<TReloc, A<TReloc>>, DEV, ALIAS>);
static Reg r4("C01/devector/string", 1500, 60000, &run_case<seq::devector<std::string>, DEV, ALIAS>);
