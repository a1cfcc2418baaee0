// C09: radix_hash_set / radix_hash_map against an unordered model
#include "hash_cfg.hpp"
using namespace assoc;
template<class Key, class M, int Q, bool Cp = true>
using Cf = HashCfg<1, Key, M, Q, -1, Cp>;
#if PART == 0
static Reg a1("C09/set/int", 800, 20000, &run<Cf<int, void, -1>, 400, 60>);
static Reg a2("C09/set/tagged-good", 800, 20000, &run<Cf<Tagged, void, 0>, 400, 60>);
static Reg a3("C09/map/int-constant", 600, 20000, &run<Cf<int, int64_t, 1>, 250, 60>);
static Reg a4("C09/map/uint64-four", 600, 20000, &run<Cf<uint64_t, int64_t, 2>, 300, 60>);
#elif PART == 1
static Reg b1("C09/map/string", 800, 20000, &run<Cf<std::string, int64_t, -1>, 200, 60>);
static Reg b2("C09/set/tstring", 800, 20000, &run<Cf<TS, void, -1>, 300, 60>);
static Reg b3("C09/map/string-highbits", 800, 20000, &run<Cf<std::string, std::string, 3>, 300, 60>);
static Reg b4("C09/map/int-lowbits", 800, 20000, &run<Cf<int, int64_t, 4>, 300, 60>);
#elif PART == 2
static Reg c1("C09/map/int-stateful", 800, 20000, &run<Cf<int, int64_t, 5>, 300, 60>);
static Reg c2("C09/set/string-stateful", 800, 20000, &run<Cf<std::string, void, 5>, 200, 60>);
static Reg c3("C09/map/tracked", 800, 20000, &run<Cf<TNoReloc, TReloc, 0>, 300, 60>);
static Reg c4("C09/map/moveonly", 800, 20000, &run<Cf<int, std::unique_ptr<int64_t>, -1, false>, 300, 60>);
#else
static Reg d1("C09/set/short", 800, 20000, &run<Cf<short, void, -1>, 2500, 100>);
static Reg d2("C09/map/double", 800, 20000, &run<Cf<double, int64_t, 0>, 300, 60>);
static Reg d3("C09/set/tracked-constant", 500, 20000, &run<Cf<TReloc, void, 1>, 250, 60>);
#endif
