// C05: flat_set / flat_multiset / flat_map / flat_multimap against a sorted model
#include "flat_cfg.hpp"
using namespace assoc;
#if PART == 0
static Reg a1("C05/set/tagged-stable", 800, 20000, &run<FlatCfg<0, Tagged, void, std::less<>, true>, 200, 60>);
static Reg a2("C05/set/tagged-unstable", 800, 20000, &run<FlatCfg<0, Tagged, void, std::less<>, false>, 200, 60>);
static Reg a3("C05/multiset/tagged-stable", 800, 20000, &run<FlatCfg<1, Tagged, void, std::less<>, true>, 200, 60>);
static Reg a4("C05/multiset/tagged-unstable", 800, 20000, &run<FlatCfg<1, Tagged, void, std::less<>, false>, 200, 60>);
#elif PART == 1
static Reg b1("C05/map/int-stateful-stable", 800, 20000, &run<FlatCfg<2, int, int64_t, DirLess, true>, 300, 60>);
static Reg b2("C05/map/double-greater", 800, 20000, &run<FlatCfg<2, double, int64_t, std::greater<>, false>, 300, 60>);
static Reg b3("C05/map/uint64-plainless", 800, 20000, &run<FlatCfg<2, uint64_t, int64_t, Less, false>, 300, 60>);
static Reg b4("C05/multimap/short-stable", 800, 20000, &run<FlatCfg<3, short, int64_t, std::less<>, true>, 200, 60>);
#elif PART == 2
static Reg c1("C05/map/string", 800, 20000, &run<FlatCfg<2, std::string, int64_t, std::less<>, false>, 200, 60>);
static Reg c2("C05/set/tstring", 800, 20000, &run<FlatCfg<0, TS, void, std::less<>, true>, 200, 60>);
static Reg c3("C05/multimap/string-stable", 800, 20000, &run<FlatCfg<3, std::string, std::string, std::less<>, true>, 150, 60>);
static Reg c4("C05/map/tstring-stateful", 800, 20000, &run<FlatCfg<2, TS, int64_t, DirLess, false>, 200, 60>);
#else
static Reg d1("C05/map/tracked", 800, 20000, &run<FlatCfg<2, TNoReloc, TReloc, std::less<>, false>, 150, 60>);
static Reg d2("C05/multimap/tracked-unstable", 800, 20000, &run<FlatCfg<3, TReloc, TReloc, std::less<>, false>, 150, 60>);
static Reg d3("C05/map/moveonly-mapped", 800, 20000, &run<FlatCfg<2, int, std::unique_ptr<int64_t>, std::less<>, false, -1, false>, 150, 60>);
static Reg d4("C05/set/uchar", 800, 20000, &run<FlatCfg<0, unsigned char, void, std::less<>, false>, 300, 60>);
#endif
