// C06: ordered_set / ordered_map against an insertion ordered model
#include "hash_cfg.hpp"
using namespace assoc;
template<class Key, class M, int Q, bool Cp = true>
using Cf = HashCfg<0, Key, M, Q, -1, Cp>;
#if PART == 0
static Reg a1("C06/set/int", 800, 20000, &run<Cf<int, void, -1>, 200, 60>);
static Reg a2("C06/set/tagged-good", 800, 20000, &run<Cf<Tagged, void, 0>, 200, 60>);
static Reg a3("C06/map/int-constant", 600, 20000, &run<Cf<int, int64_t, 1>, 80, 60>);
static Reg a4("C06/map/uint64-four", 600, 20000, &run<Cf<uint64_t, int64_t, 2>, 120, 60>);
#elif PART == 1
static Reg b1("C06/map/string", 800, 20000, &run<Cf<std::string, int64_t, -1>, 200, 60>);
static Reg b2("C06/set/tstring", 800, 20000, &run<Cf<TS, void, -1>, 200, 60>);
static Reg b3("C06/map/string-highbits", 800, 20000, &run<Cf<std::string, std::string, 3>, 200, 60>);
static Reg b4("C06/map/int-lowbits", 800, 20000, &run<Cf<int, int64_t, 4>, 300, 60>);
#elif PART == 2
static Reg c1("C06/map/int-stateful", 800, 20000, &run<Cf<int, int64_t, 5>, 200, 60>);
static Reg c2("C06/set/string-stateful", 800, 20000, &run<Cf<std::string, void, 5>, 200, 60>);
static Reg c3("C06/map/tracked", 800, 20000, &run<Cf<TNoReloc, TReloc, 0>, 200, 60>);
static Reg c4("C06/map/moveonly", 800, 20000, &run<Cf<int, std::unique_ptr<int64_t>, -1, false>, 200, 60>);
#else
static Reg d1("C06/set/short", 800, 20000, &run<Cf<short, void, -1>, 1500, 100>);
static Reg d2("C06/map/double", 800, 20000, &run<Cf<double, int64_t, 0>, 200, 60>);
#endif
