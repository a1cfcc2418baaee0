// C13: concurrent_set / concurrent_map used from one thread, against a model
#include "conc.hpp"
using namespace conc;
static constexpr unsigned NoC = seq::no_concurrency, Low = seq::low_concurrency, LowS = seq::low_concurrency_shared, Med = seq::medium_concurrency, MedS = seq::medium_concurrency_shared, One = 1, HighS = seq::high_concurrency_shared;
#if PART == 0
static Reg a1("C13/set/int-none", 600, 20000, &run<Cfg<int, void, -1, NoC>>);
static Reg a2("C13/map/int-low", 600, 20000, &run<Cfg<int, int64_t, -1, Low>>);
static Reg a3("C13/map/int-medium-shared", 400, 20000, &run<Cfg<int, int64_t, 0, MedS>>);
#elif PART == 1
static Reg b1("C13/map/string-low-shared", 600, 20000, &run<Cfg<std::string, std::string, -1, LowS>>);
static Reg b2("C13/set/tagged-constant", 600, 20000, &run<Cfg<Tagged, void, 1, Low>, 120>);
static Reg b3("C13/map/uint64-four", 600, 20000, &run<Cfg<uint64_t, int64_t, 2, One>>);
#elif PART == 2
static Reg c1("C13/map/int-stateful", 400, 20000, &run<Cfg<int, int64_t, 5, Med>>);
static Reg c2("C13/set/tstring-medium", 400, 20000, &run<Cfg<TS, void, -1, Med>>);
static Reg c3("C13/map/moveonly", 600, 20000, &run<Cfg<int, std::unique_ptr<int64_t>, -1, One, -1, false>>);
static Reg c4("C13/map/highbits", 500, 20000, &run<Cfg<int, int64_t, 3, MedS>>);
#elif PART == 3
static Reg d1("C13/map/tracked", 500, 20000, &run<Cfg<TNoReloc, TReloc, 0, Low, 0>, 200>);
static Reg d2("C13/map/tracked-throwing", 600, 20000, &run<Cfg<TThrow, TThrow, 0, LowS, 15>, 120, 60, Fault::Copy | Fault::Move | Fault::Ctor | Fault::Hash | Fault::Compare | Fault::AllocF | Fault::Assign>);
#else
static Reg e1("C13/set/tracked-constant-throwing", 600, 20000, &run<Cfg<TThrow, void, 1, One, 7>, 80, 60, Fault::Copy | Fault::Move | Fault::Ctor | Fault::Hash | Fault::Compare | Fault::AllocF>);
static Reg e2("C13/map/tracked-nothrow-alloc", 600, 20000, &run<Cfg<TNoReloc, TReloc, 4, NoC, 0>, 200, 60, Fault::Copy | Fault::Ctor | Fault::Hash | Fault::Compare | Fault::AllocF | Fault::Assign>);
#endif
