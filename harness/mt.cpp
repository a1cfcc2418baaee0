// C10 (linearizability), C11 (races, deadlocks), C12 (conservation)
#include "mt.hpp"
using namespace mt;
static constexpr unsigned Low = seq::low_concurrency, LowS = seq::low_concurrency_shared, Med = seq::medium_concurrency, MedS = seq::medium_concurrency_shared, Two = 1;
static Opt pick(Ctx& c, int mode)
{
	Opt o;
	Rng& r = c.rng;
	o.threads = 2 + static_cast<unsigned>(r.below(4));
	if (mode == 0) { // high contention, short
		o.keys = 1 + static_cast<int>(r.below(5));
		o.ops = 30 + static_cast<unsigned>(r.below(50));
		o.wide = r.coin() ? 8 : 0;
		o.resize = r.coin() ? 4 : 0;
	}
	else if (mode == 1) { // growth: rehashes while keys are used
		o.keys = 4 + static_cast<int>(r.below(20));
		o.growth = 200 + static_cast<int>(r.below(1500));
		o.ops = 120 + static_cast<unsigned>(r.below(200));
		o.wide = r.coin() ? 3 : 0;
		o.clears = r.coin() ? 3 : 0;
		o.resize = r.coin() ? 3 : 0;
	}
	else if (mode == 2) { // clears against insertions
		o.keys = 2 + static_cast<int>(r.below(6));
		o.growth = r.coin() ? 60 : 0;
		o.ops = 60 + static_cast<unsigned>(r.below(60));
		o.wide = 25;
		o.clears = 7;
		o.resize = 6;
	}
	else { // allocation failures
		o.keys = 4 + static_cast<int>(r.below(10));
		o.growth = 150 + static_cast<int>(r.below(500));
		o.ops = 100 + static_cast<unsigned>(r.below(100));
		o.wide = r.coin() ? 6 : 0;
		o.clears = r.coin() ? 4 : 0;
		o.faults = 10 + static_cast<unsigned>(r.below(25));
	}
	return o;
}
template<class W, int Mode>
static void lin(Ctx& c)
{
	W w(c, pick(c, Mode));
	c.op("config", w.o.threads, w.o.keys, w.o.growth, w.o.ops, w.o.wide);
	w.run(false);
}
#if PART == 0
static Reg a0("C10/map/low", 4500, 240000, &lin<MapW<Low, 0>, 0>, NoLeakCheck);
static Reg a1("C10/map/low-growth", 1250, 80000, &lin<MapW<Low, 0>, 1>, NoLeakCheck);
static Reg a2("C10/map/low-clear", 3000, 160000, &lin<MapW<Low, 0>, 2>, NoLeakCheck);
static Reg a3("C12/map/low-failures", 1500, 80000, &lin<MapW<Low, 0>, 3>, NoLeakCheck);
static Reg a4("C12/map/low-clear", 2000, 80000, &lin<MapW<Low, 3>, 2>, NoLeakCheck);
#elif PART == 1
static Reg b0("C10/map/low-shared", 4500, 240000, &lin<MapW<LowS, 0>, 0>, NoLeakCheck);
static Reg b1("C10/map/low-shared-growth", 1250, 80000, &lin<MapW<LowS, 0>, 1>, NoLeakCheck);
static Reg b2("C10/map/low-shared-clear", 3000, 160000, &lin<MapW<LowS, 3>, 2>, NoLeakCheck);
static Reg b3("C12/map/low-shared-failures", 1500, 80000, &lin<MapW<LowS, 3>, 3>, NoLeakCheck);
static Reg b4("C12/map/low-shared-growth", 1000, 80000, &lin<MapW<LowS, 4>, 1>, NoLeakCheck);
#elif PART == 2
static Reg c0("C10/map/chains", 3500, 240000, &lin<MapW<Low, 1, false>, 0>, NoLeakCheck);
static Reg c1("C10/map/chains-growth", 750, 80000, &lin<MapW<Two, 3, false>, 1>, NoLeakCheck);
static Reg c2("C10/map/medium", 2500, 160000, &lin<MapW<Med, 0>, 0>, NoLeakCheck);
static Reg c3("C12/map/chains-failures", 1250, 80000, &lin<MapW<Two, 3, false>, 3>, NoLeakCheck);
static Reg c4("C12/map/chains-copying-failures", 1250, 80000, &lin<MapW<LowS, 1, false>, 3>, NoLeakCheck);
#elif PART == 3
static Reg d0("C10/set/low-shared", 3500, 240000, &lin<SetW<LowS, 0>, 0>, NoLeakCheck);
static Reg d1("C10/set/low-growth", 1000, 80000, &lin<SetW<Low, 0>, 1>, NoLeakCheck);
static Reg d2("C10/set/medium-shared-clear", 1500, 120000, &lin<SetW<MedS, 0>, 2>, NoLeakCheck);
static Reg d3("C12/set/medium-growth", 750, 80000, &lin<SetW<Med, 0>, 1>, NoLeakCheck);
static Reg d4("C12/set/low-failures", 1250, 80000, &lin<SetW<Low, 0>, 3>, NoLeakCheck);
#endif

// controlled schedules: short histories, few keys, growth across the first rehashes of one shard
template<class W, int Mode>
static void sched(Ctx& c)
{
	Opt o;
	Rng& r = c.rng;
	o.fibers = true;
	o.threads = 2 + static_cast<unsigned>(r.below(3));
	o.ops = 4 + static_cast<unsigned>(r.below(14));
	o.keys = 1 + static_cast<int>(r.below(r.coin() ? 4 : 40));
	o.wide = r.coin() ? 0 : 6 + static_cast<unsigned>(r.below(25));
	o.clears = r.coin() ? 0 : 5;
	o.resize = r.coin() ? 0 : 4 + static_cast<unsigned>(r.below(10));
	if (Mode == 1) {
		o.growth = 10 + static_cast<int>(r.below(100));
		o.ops += 10;
	}
	if (Mode == 2)
		o.faults = 10 + static_cast<unsigned>(r.below(25));
	W w(c, o);
	c.op("config", w.o.threads, w.o.keys, w.o.growth, w.o.ops, w.o.wide);
	w.run(false);
}
#if PART >= 4 && PART < 6
template<class W, int Mode>
static void race(Ctx& c)
{
	Opt o = pick(c, Mode);
	o.ops = o.ops * 3 / 2;
	W w(c, o);
	c.op("config", w.o.threads, w.o.keys, w.o.growth, w.o.ops, w.o.wide);
	w.run(false);
}
#endif
#if PART == 4
static Reg e0("C11/map/low", 800, 80000, &race<MapW<Low, 0, true, true>, 0>, NoLeakCheck);
static Reg e1("C11/map/low-growth", 300, 40000, &race<MapW<Low, 0, true, true>, 1>, NoLeakCheck);
static Reg e2("C11/map/low-clear", 800, 80000, &race<MapW<Low, 0, true, true>, 2>, NoLeakCheck);
static Reg e3("C11/map/low-shared", 800, 80000, &race<MapW<LowS, 0, true, true>, 0>, NoLeakCheck);
static Reg e4("C11/map/low-shared-clear", 800, 80000, &race<MapW<LowS, 0, false, true>, 2>, NoLeakCheck);
#elif PART == 5
static Reg f0("C11/map/low-shared-growth", 300, 40000, &race<MapW<LowS, 3, true, true>, 1>, NoLeakCheck);
static Reg f1("C11/map/chains", 600, 80000, &race<MapW<Low, 1, false, true>, 0>, NoLeakCheck);
static Reg f2("C11/map/medium-failures", 400, 40000, &race<MapW<Two, 3, false, true>, 3>, NoLeakCheck);
static Reg f3("C11/set/medium-shared", 400, 40000, &race<SetW<MedS, 0, true, true>, 1>, NoLeakCheck);
static Reg f4("C11/set/low-shared-clear", 600, 80000, &race<SetW<LowS, 0, true, true>, 2>, NoLeakCheck);
#endif

#if PART == 6
static Reg g0("C10/sched/low", 18000, 4000000, &sched<MapW<Two, 4>, 0>, NoLeakCheck);
static Reg g1("C10/sched/low-growth", 18000, 4000000, &sched<MapW<Two, 4>, 1>, NoLeakCheck);
static Reg g2("C10/sched/low-shared-growth", 18000, 4000000, &sched<MapW<LowS, 4>, 1>, NoLeakCheck);
static Reg g3("C12/sched/low-failures", 12000, 2000000, &sched<MapW<Two, 4>, 2>, NoLeakCheck);
static Reg g4("C11/sched/low-growth", 12000, 2000000, &sched<MapW<Low, 4, false>, 1>, NoLeakCheck);
#elif PART == 7
static Reg h0("C10/sched/chains", 18000, 4000000, &sched<MapW<Two, 1, false>, 1>, NoLeakCheck);
static Reg h1("C10/sched/low-shared", 18000, 4000000, &sched<MapW<LowS, 4, false>, 0>, NoLeakCheck);
static Reg h2("C12/sched/low-shared-failures", 12000, 2000000, &sched<MapW<LowS, 4, false>, 2>, NoLeakCheck);
static Reg h3("C12/sched/set-growth", 12000, 2000000, &sched<SetW<Low, 4>, 1>, NoLeakCheck);
static Reg h4("C11/sched/low-shared", 12000, 2000000, &sched<SetW<LowS, 4>, 0>, NoLeakCheck);
#endif
