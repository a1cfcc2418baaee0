// C33: spinlock, shared_spinner, null_lock
#include "fiber.hpp"
#include "interpose_begin.hpp"
#include <seq/lock.hpp>
#include "interpose_end.hpp"
using namespace mon;

template<class L>
struct IsSpin : std::is_same<L, seq::spinlock>
{
};

// ---- one thread: the lock against a model of who holds it
template<class L>
static void sequential(Ctx& c)
{
	Rng& r = c.rng;
	L l;
	bool ex = false;
	unsigned sh = 0, maxsh = IsSpin<L>::value ? 1 : 4 + static_cast<unsigned>(r.below(r.pct(20) ? 80 : 24));
	// a small word has room for few holders: it may refuse more of them, but never lose count
	const unsigned sure = sizeof(L) == 1 && !IsSpin<L>::value ? 24 : 100000;
	const bool climb = r.pct(20);
	unsigned n = 20 + static_cast<unsigned>(r.below(climb ? 300 : 80));
	auto probe = [&]() {
		c.check(l.is_locked() == (ex || sh), "is_locked", "is_locked %d, held exclusively %d, shared %u", l.is_locked(), ex, sh);
	};
	for (unsigned i = 0; i < n; ++i) {
		unsigned q = static_cast<unsigned>(climb && r.pct(60) ? 3 : r.below(8));
		bool free = !ex && !sh;
		bool canshare = IsSpin<L>::value ? free : !ex;
		switch (q) {
			case 0:
				if (free) {
					c.op("lock");
					l.lock();
					ex = true;
				}
				break;
			case 1:
			case 2: {
				c.op("try_lock", ex, sh);
				bool ok = l.try_lock();
				c.check(ok == free, "try_lock", "try_lock returned %d, held exclusively %d, shared %u", ok, ex, sh);
				ex = ex || ok;
				break;
			}
			case 3:
			case 4: {
				if (!ex && sh >= maxsh)
					break;
				c.op("try_lock_shared", ex, sh);
				bool ok = l.try_lock_shared();
				c.check(ok == canshare || (canshare && sh >= sure), "try_lock_shared", "try_lock_shared returned %d, held exclusively %d, shared %u", ok, ex, sh);
				sh += ok;
				break;
			}
			case 5:
				if (canshare && sh < maxsh && sh < sure) {
					c.op("lock_shared", sh);
					l.lock_shared();
					++sh;
				}
				break;
			case 6:
				if (ex) {
					c.op("unlock");
					l.unlock();
					ex = false;
				}
				break;
			case 7:
				if (sh) {
					c.op("unlock_shared", sh);
					l.unlock_shared();
					--sh;
				}
		}
		if constexpr (IsSpin<L>::value) {
			if (r.pct(4)) {
				bool free2 = !ex && !sh;
				unsigned us = free2 ? 1000000 : static_cast<unsigned>(r.pct(5) ? 2000 + r.below(2000) : r.below(400));
				unsigned how = static_cast<unsigned>(r.below(4));
				auto t0 = std::chrono::steady_clock::now();
				c.op("try_lock_for", how, us);
				bool ok = how == 0 ? l.try_lock_for(std::chrono::microseconds(us)) : how == 1 ? l.try_lock_for(std::chrono::duration<double>(us * 1e-6)) : how == 2 ? l.try_lock_until(std::chrono::system_clock::now() + std::chrono::microseconds(us)) : l.try_lock_until(std::chrono::steady_clock::now() + std::chrono::microseconds(us));
				auto el = std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - t0).count();
				c.check(ok == free2, "try_lock_for", "returned %d on a %s lock", ok, free2 ? "free" : "held");
				// half a millisecond of slack: the two clocks are not the same
				c.check(ok || el + 500 >= us, "try_lock_for-early", "gave up after %.0f of %u us", el, us);
				ex = ex || ok;
				if (ok && free2) {
				}
				MON_COUNT("timed_attempts", 1);
			}
		}
		probe();
		c.state(mix(mix(sh, ex), q));
	}
}
static void null(Ctx& c)
{
	seq::null_lock l;
	for (int i = 0; i < 20; ++i) {
		c.op("null", i);
		l.lock();
		c.check(l.try_lock() && l.try_lock_shared() && l.try_lock_for(std::chrono::seconds(1)) && l.try_lock_until(std::chrono::steady_clock::now()) && !l.is_locked(), "null_lock", "null_lock refused");
		l.lock_shared();
		l.unlock_shared();
		l.unlock();
	}
}

// ---- several contexts (fibers or threads) over a few locks
inline std::atomic<const char*> g_bad{ nullptr };
inline void bad(const char* w)
{
	const char* e = nullptr;
	g_bad.compare_exchange_strong(e, w);
}
template<class L>
struct Guarded
{
	L l;
	std::atomic<uint32_t> occ{ 0 };
	std::atomic<uint64_t> activity{ 0 }; // begin and end of every attempt and hold
	std::atomic<int> inflight{ 0 };      // attempts and holds under way
	uint64_t data[4] = { 0, 0, 0, 0 };   // plain data: protected by the lock alone
	uint64_t acquired = 0;
};
struct MtOpt
{
	unsigned ctx = 3, ops = 30, locks = 1, readers = 50, tries = 40, hold = 2;
	bool fibers = true;
};
static void pause_in(bool fibers, unsigned n, Rng& r)
{
	for (unsigned i = 0; i < n; ++i) {
		if (fibers)
			fiber::S().point();
		else if (r.below(8) == 0)
			std::this_thread::yield();
	}
}
template<class L>
struct LockWorld
{
	Ctx& c;
	MtOpt o;
	std::vector<std::unique_ptr<Guarded<L>>> g;
	std::atomic<uint64_t> exclusive{ 0 }, shared{ 0 }, failed{ 0 }, together{ 0 };
	std::atomic<unsigned> beats{ 0 };
	LockWorld(Ctx& cc, const MtOpt& oo)
	  : c(cc)
	  , o(oo)
	{
		for (unsigned i = 0; i < o.locks; ++i)
			g.emplace_back(new Guarded<L>());
	}
	void in_exclusive(Guarded<L>& x, Rng& r)
	{
		if (x.occ.fetch_add(0x10000, std::memory_order_relaxed))
			bad("two holders although one is exclusive");
		uint64_t v = x.data[0] + 1;
		for (int i = 0; i < 4; ++i) {
			if (x.data[i] != v - 1)
				bad("the data written by the previous holder is not visible");
			x.data[i] = v;
			pause_in(o.fibers, o.hold, r);
		}
		++x.acquired;
		x.occ.fetch_sub(0x10000, std::memory_order_relaxed);
		exclusive.fetch_add(1, std::memory_order_relaxed);
	}
	void in_shared(Guarded<L>& x, Rng& r)
	{
		uint32_t p = x.occ.fetch_add(1, std::memory_order_relaxed);
		if (p >= 0x10000)
			bad("a shared holder together with an exclusive one");
		if (p)
			together.fetch_add(1, std::memory_order_relaxed);
		if (IsSpin<L>::value && p)
			bad("two holders of a spinlock");
		uint64_t v = x.data[0];
		for (int i = 0; i < 4; ++i) {
			if (x.data[i] != v)
				bad("data changes under a shared lock");
			pause_in(o.fibers, o.hold, r);
		}
		x.occ.fetch_sub(1, std::memory_order_relaxed);
		shared.fetch_add(1, std::memory_order_relaxed);
	}
	void worker(uint64_t seed)
	{
		Rng r(seed);
		for (unsigned i = 0; i < o.ops; ++i) {
			beats.fetch_add(1, std::memory_order_relaxed);
			if (o.fibers)
				fiber::S().progress();
			if (o.locks > 1 && r.pct(25)) { // two locks at once
				size_t a = r.below(o.locks), b = (a + 1 + r.below(o.locks - 1)) % o.locks;
				g[a]->inflight.fetch_add(1);
				g[b]->inflight.fetch_add(1);
				g[a]->activity.fetch_add(1);
				g[b]->activity.fetch_add(1);
				std::lock(g[a]->l, g[b]->l);
				in_exclusive(*g[a], r);
				in_exclusive(*g[b], r);
				g[b]->l.unlock();
				g[a]->l.unlock();
				g[a]->activity.fetch_add(1);
				g[b]->activity.fetch_add(1);
				g[a]->inflight.fetch_sub(1);
				g[b]->inflight.fetch_sub(1);
				continue;
			}
			Guarded<L>& x = *g[r.below(o.locks)];
			bool rd = r.pct(o.readers), tr = r.pct(o.tries);
			uint64_t act = x.activity.load() + 1;
			int others = x.inflight.fetch_add(1);
			x.activity.fetch_add(1);
			bool ok = true;
			if (tr) {
				ok = rd ? x.l.try_lock_shared() : x.l.try_lock();
				if (!ok) {
					failed.fetch_add(1, std::memory_order_relaxed);
					if (!others && x.activity.load() == act)
						bad("a try failed although nobody else used the lock");
				}
			}
			else if (rd)
				x.l.lock_shared();
			else
				x.l.lock();
			if (ok) {
				if (!x.l.is_locked())
					bad("is_locked is false although the caller holds the lock");
				if (rd) {
					in_shared(x, r);
					x.l.unlock_shared();
				}
				else {
					in_exclusive(x, r);
					x.l.unlock();
				}
			}
			x.activity.fetch_add(1);
			x.inflight.fetch_sub(1);
			if (!o.fibers && r.below(16) == 0)
				std::this_thread::yield();
		}
	}
	void exec(std::vector<std::function<void()>> fns)
	{
		if (o.fibers) {
			bool ok = fiber::S().run(fns, c.rng.next());
			if (const char* b = g_bad.load())
				c.fail("exclusion", "%s", b);
			if (!ok) {
				std::string d;
				for (auto& f : fiber::S().f)
					d += f->done ? " done" : f->blocked ? " blocked" : " spinning";
				c.fail("no-progress", "no attempt can finish: %s; policy %u, %llu points", d.c_str(), fiber::S().mode, (unsigned long long)fiber::S().points);
			}
			MON_COUNT("scheduling_points", fiber::S().points);
			MON_COUNT("context_switches", fiber::S().switches);
			c.state(fiber::S().digest);
			return;
		}
		std::vector<std::thread> th;
		std::atomic<unsigned> done{ 0 };
		for (auto& f : fns)
			th.emplace_back([&f, &done]() {
				f();
				done.fetch_add(1);
			});
		unsigned last = ~0u, wait = 0;
		while (done.load() < fns.size()) {
			usleep(wait < 20 ? 50 : 500);
			unsigned b = beats.load();
			if (b != last) {
				last = b;
				wait = 0;
			}
			else if (++wait > 90000)
				c.fail("no-progress", "no attempt finished for 45 s");
			if ((wait & 255) == 255)
				__atomic_fetch_add(&G().crumb->beat, 1, __ATOMIC_RELAXED);
		}
		for (auto& t : th)
			t.join();
		if (const char* b = g_bad.load())
			c.fail("exclusion", "%s", b);
		c.state(mix(exclusive.load(), mix(failed.load(), together.load())));
	}
	void quiescent()
	{
		uint64_t n = 0;
		for (auto& x : g) {
			c.check(!x->l.is_locked(), "trace-left", "the lock is still marked after every holder left");
			c.check(x->l.try_lock(), "trace-left", "a free lock refuses try_lock");
			c.check(!x->l.try_lock() && !x->l.try_lock_shared(), "try-on-held", "a held lock accepts another holder");
			x->l.unlock();
			unsigned k = IsSpin<L>::value ? 1 : 5;
			for (unsigned i = 0; i < k; ++i)
				c.check(x->l.try_lock_shared(), "trace-left", "a free lock refuses shared holder %u", i);
			c.check(!x->l.try_lock(), "try-on-held", "a shared lock accepts an exclusive holder");
			for (unsigned i = 0; i < k; ++i)
				x->l.unlock_shared();
			c.check(!x->l.is_locked(), "trace-left", "still marked");
			c.check(x->acquired == x->data[3], "lost-update", "%llu exclusive holds, counter %llu", (unsigned long long)x->acquired, (unsigned long long)x->data[3]);
			n += x->acquired;
		}
		c.check(n == exclusive.load(), "lost-update", "%llu %llu", (unsigned long long)n, (unsigned long long)exclusive.load());
		MON_COUNT("exclusive_holds", exclusive.load());
		MON_COUNT("shared_holds", shared.load());
		MON_COUNT("shared_holds_together", together.load());
		MON_COUNT("failed_tries", failed.load());
	}
	void run()
	{
		g_bad = nullptr;
		c.op("config", o.ctx, o.ops, o.locks, o.readers, o.tries);
		std::vector<std::function<void()>> fns;
		for (unsigned i = 0; i < o.ctx; ++i) {
			uint64_t s = c.rng.next();
			c.op("worker", s);
			fns.push_back([this, s]() { worker(s); });
		}
		exec(fns);
		quiescent();
	}
	// every shared holder must be able to be in at the same time
	void barrier()
	{
		g_bad = nullptr;
		c.op("barrier", o.ctx);
		std::atomic<unsigned> in{ 0 };
		std::vector<std::function<void()>> fns;
		for (unsigned i = 0; i < o.ctx; ++i) {
			c.op("reader", i);
			fns.push_back([this, &in]() {
				beats.fetch_add(1);
				g[0]->l.lock_shared();
				in.fetch_add(1);
				while (in.load() < o.ctx) {
					if (o.fibers)
						fiber::S().point(true);
					else
						std::this_thread::yield();
				}
				g[0]->l.unlock_shared();
			});
		}
		exec(fns);
		quiescent();
	}
};
template<class L, bool Fibers>
static void stress(Ctx& c)
{
	Rng& r = c.rng;
	MtOpt o;
	o.fibers = Fibers;
	o.ctx = 2 + static_cast<unsigned>(r.below(4));
	o.ops = Fibers ? 3 + static_cast<unsigned>(r.below(25)) : 100 + static_cast<unsigned>(r.pct(5) ? 2000 + r.below(2000) : r.below(400));
	o.locks = r.coin() ? 1 : 1 + static_cast<unsigned>(r.below(3));
	static const unsigned pc[] = { 0, 20, 50, 80, 100 };
	o.readers = pc[r.below(5)];
	o.tries = pc[r.below(4)];
	o.hold = static_cast<unsigned>(r.below(3));
	LockWorld<L> w(c, o);
	w.run();
	if (!IsSpin<L>::value && r.below(8) == 0) {
		MtOpt b = o;
		b.locks = 1;
		b.ctx = 2 + static_cast<unsigned>(r.below(Fibers ? 14 : 6));
		LockWorld<L> w2(c, b);
		w2.barrier();
	}
}
using S8 = seq::shared_spinner<uint8_t>;
using S16 = seq::shared_spinner<uint16_t>;
using S32 = seq::shared_spinner<uint32_t>;
using S64 = seq::shared_spinner<uint64_t>;
#if PART == 0
static Reg a0("C33/seq/spinlock", 1500, 100000, &sequential<seq::spinlock>);
static Reg a1("C33/seq/shared8", 1500, 100000, &sequential<S8>);
static Reg a2("C33/seq/shared16", 1500, 100000, &sequential<S16>);
static Reg a3("C33/seq/shared32", 1500, 100000, &sequential<S32>);
static Reg a4("C33/seq/shared64", 1500, 100000, &sequential<S64>);
static Reg a5("C33/seq/null", 10, 100, &null);
static Reg b0("C33/sched/spinlock", 40000, 4000000, &stress<seq::spinlock, true>, NoLeakCheck);
static Reg b1("C33/sched/shared8", 40000, 4000000, &stress<S8, true>, NoLeakCheck);
static Reg b2("C33/sched/shared16", 40000, 4000000, &stress<S16, true>, NoLeakCheck);
static Reg b3("C33/sched/shared32", 40000, 4000000, &stress<S32, true>, NoLeakCheck);
static Reg b4("C33/sched/shared64", 40000, 4000000, &stress<S64, true>, NoLeakCheck);
#else
static Reg c0("C33/threads/spinlock", 300, 40000, &stress<seq::spinlock, false>, NoLeakCheck);
static Reg c1("C33/threads/shared8", 300, 40000, &stress<S8, false>, NoLeakCheck);
static Reg c2("C33/threads/shared16", 300, 40000, &stress<S16, false>, NoLeakCheck);
static Reg c3("C33/threads/shared32", 300, 40000, &stress<S32, false>, NoLeakCheck);
static Reg c4("C33/threads/shared64", 300, 40000, &stress<S64, false>, NoLeakCheck);
#endif
