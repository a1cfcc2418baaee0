// C08: radix_set / radix_map against a sorted model
#include "radix_cfg.hpp"
using namespace assoc;
template<class Key, class M, bool Cp = true>
using Cf = RadixCfg<Key, M, -1, Cp>;
template<class... T>
using Tu = std::tuple<T...>;
#if PART == 0
static Reg a1("C08/set/int", 600, 20000, &run<Cf<int, void>, 300, 60>);
static Reg a2("C08/map/uint64", 600, 20000, &run<Cf<uint64_t, int64_t>, 300, 60>);
static Reg a3("C08/map/short", 600, 20000, &run<Cf<short, int64_t>, 1200, 90>);
static Reg a4("C08/set/uchar", 500, 20000, &run<Cf<unsigned char, void>, 250, 60>);
static Reg a5("C08/map/int64-moveonly", 500, 20000, &run<Cf<int64_t, std::unique_ptr<int64_t>, false>, 250, 60>);
#elif PART == 1
static Reg b1("C08/map/string", 800, 20000, &run<Cf<std::string, int64_t>, 200, 60>);
static Reg b2("C08/set/tstring", 800, 20000, &run<Cf<TS, void>, 200, 60>);
static Reg b3("C08/map/string-string", 600, 20000, &run<Cf<std::string, std::string>, 200, 60>);
static Reg b4("C08/set/record", 600, 20000, &run<RadixCfg<Rec, void, -1, true, RecKey>, 200, 60>);
#elif PART == 2
static Reg c1("C08/map/double", 600, 20000, &run<Cf<double, int64_t>, 300, 60>);
static Reg c2("C08/set/float", 600, 20000, &run<Cf<float, void>, 300, 60>);
static Reg c3("C08/set/wstring", 600, 20000, &run<Cf<std::wstring, void>, 200, 60>);
static Reg c4("C08/map/u16string", 600, 20000, &run<Cf<std::u16string, int64_t>, 200, 60>);
static Reg c5("C08/set/pointer", 400, 20000, &run<Cf<int*, void>, 200, 60>);
#elif PART == 3
static Reg d1("C08/set/tuple-int-short-char", 500, 20000, &run<Cf<Tu<int, short, char>, void>, 200, 60>);
static Reg d2("C08/map/tuple-uint64-int64", 500, 20000, &run<Cf<Tu<uint64_t, int64_t>, int64_t>, 200, 60>);
static Reg d3("C08/set/tuple-short-short", 500, 20000, &run<Cf<Tu<short, short>, void>, 200, 60>);
static Reg d4("C08/set/tuple-int-float", 500, 20000, &run<Cf<Tu<int, float>, void>, 200, 60>);
static Reg d5("C08/set/tuple-double-uchar", 500, 20000, &run<Cf<Tu<double, unsigned char>, void>, 200, 60>);
#else
static Reg e1("C08/set/vector-int", 400, 20000, &run<Cf<std::vector<int>, void>, 200, 60>);
static Reg e2("C08/set/vector-uint64", 400, 20000, &run<Cf<std::vector<uint64_t>, void>, 200, 60>);
static Reg e3("C08/set/vector-double", 400, 20000, &run<Cf<std::vector<double>, void>, 200, 60>);
static Reg e4("C08/map/vector-uchar", 400, 20000, &run<Cf<std::vector<unsigned char>, int64_t>, 200, 60>);
static Reg e5("C08/map/u32string-tracked", 400, 20000, &run<Cf<std::u32string, TReloc>, 200, 60>);
static Reg e6("C08/map/int-tracked", 400, 20000, &run<Cf<int, TNoReloc>, 200, 60>);
#endif
