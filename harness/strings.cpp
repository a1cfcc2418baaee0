#include "strings.hpp"
using namespace strs;
template<class C>
using SA = std::allocator<C>;
#if PART == 0
static Reg a0("C18/char/0", 12000, 400000, &strs::run<char, SA<char>, 0>);
static Reg a1("C18/char/31", 8000, 300000, &strs::run<char, SA<char>, 31>);
static Reg a2("C18/view/char", 20000, 400000, &run_view<char>);
#elif PART == 1
static Reg b0("C18/wchar/0", 8000, 300000, &strs::run<wchar_t, SA<wchar_t>, 0>);
static Reg b1("C18/char/118", 8000, 300000, &strs::run<char, SA<char>, 118>);
static Reg b2("C18/view/wchar", 20000, 400000, &run_view<wchar_t>);
#elif PART == 2
static Reg c0("C18/char16/0", 8000, 300000, &strs::run<char16_t, SA<char16_t>, 0>);
static Reg c1("C18/char32/10", 8000, 300000, &strs::run<char32_t, SA<char32_t>, 10>);
static Reg c2("C18/view/char16", 20000, 400000, &run_view<char16_t>);
#elif PART == 3
static Reg d0("C14/tstring/stay", 4000, 100000, &strs::run<char, LAlloc<char, 0>, 0>);
static Reg d1("C14/tstring/moveprop", 4000, 100000, &strs::run<char, LAlloc<char, 10>, 20>);
#elif PART == 4
static Reg e0("C14/tstring/copyprop", 4000, 100000, &strs::run<wchar_t, LAlloc<wchar_t, 1>, 0>);
static Reg e1("C14/tstring/allprop", 4000, 100000, &strs::run<char, LAlloc<char, 7>, 40>);
#else
static Reg f0("C15/tstring/0", 6000, 100000, &strs::run<char, LAlloc<char, 0>, 0, Faults>);
static Reg f1("C15/tstring/wide", 6000, 100000, &strs::run<wchar_t, LAlloc<wchar_t, 7>, 12, Faults>);
#endif
