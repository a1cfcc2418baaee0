// Controlled scheduling of library code: std::atomic, std::mutex, std::condition_variable and std::this_thread::yield named inside
// the library headers are replaced by equivalents that offer a scheduling point before each operation.
//  - thread mode: the point injects random delays (g_atom_hook)
//  - fiber mode: "threads" are fibers of one OS thread and a seeded scheduler decides who runs at each point, so that a history is
//    a function of the case number
// Usage: include this, then interpose_begin.hpp, the library headers, interpose_end.hpp. One translation unit per binary.
#pragma once
#include "mon.hpp"
#include <condition_variable>
#include <cxxabi.h>
#include <execution>
#include <future>
#include <iostream>
#include <shared_mutex>
#include <typeindex>
#include <typeinfo>
#include <immintrin.h>
#include <pthread.h>
#ifdef MON_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" void mon_fiber_switch(void** save, void* to);
asm(R"(
.text
.globl mon_fiber_switch
.type mon_fiber_switch,@function
mon_fiber_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mon_fiber_switch,.-mon_fiber_switch
)");

namespace fiber {
using namespace mon;
inline void (*g_atom_hook)() = nullptr; // thread mode

struct Fiber
{
	void* sp = nullptr;
	char* stack = nullptr;
	void* fake = nullptr;
	uint64_t eh[2] = { 0, 0 };
	std::function<void()> fn;
	bool done = false;
	bool blocked = false; // waits for a mutex or a notification
	bool timed = false;   // may be woken without a notification
	int64_t prio = 0;
	const void* waits = nullptr;
};
struct Sched
{
	static constexpr size_t StackSize = 192 * 1024;
	bool active = false;
	std::vector<std::unique_ptr<Fiber>> f;
	Fiber main;
	int cur = -1; // -1: main
	Rng rng;
	unsigned mode = 0; // 0: random switch, 1: priorities with change points
	unsigned den = 4;  // switch probability 1/den
	uint64_t points = 0, switches = 0, last_progress = 0, same = 0;
	int64_t low = 0;
	std::set<uint64_t> changes;
	uint64_t digest = 0;
	uint64_t limit = 3000000;
	bool stuck = false;
	const void* mbottom = nullptr;
	size_t msize = 0;

	static std::vector<char*>& pool()
	{
		static std::vector<char*> p;
		return p;
	}
	void progress() { last_progress = points; }
	Fiber& at(int i) { return i < 0 ? main : *f[static_cast<size_t>(i)]; }
	bool runnable(int i) { return !at(i).done && !at(i).blocked; }

	__attribute__((noinline)) void swap_to(int to)
	{
		if (to == cur)
			return;
		Fiber& a = at(cur);
		Fiber& b = at(to);
		++switches;
		digest = mix(digest, static_cast<uint64_t>(to + 2) + points * 64);
		cur = to;
		same = 0;
		memcpy(a.eh, abi::__cxa_get_globals(), 16);
		memcpy(abi::__cxa_get_globals(), b.eh, 16);
#ifdef MON_ASAN
		__sanitizer_start_switch_fiber(a.done ? nullptr : &a.fake, b.stack ? b.stack : static_cast<const char*>(mbottom), b.stack ? StackSize : msize);
#endif
		mon_fiber_switch(&a.sp, b.sp);
#ifdef MON_ASAN
		__sanitizer_finish_switch_fiber(at(cur).fake, nullptr, nullptr);
#endif
	}
	static void entry();
	// who runs next. leave: the current fiber cannot or should not continue
	int pick(bool leave)
	{
		int n = static_cast<int>(f.size());
		if (mode == 1) {
			int best = -1;
			for (int i = 0; i < n; ++i)
				if (runnable(i) && (best < 0 || at(i).prio > at(best).prio))
					best = i;
			return best;
		}
		int cand[64], k = 0;
		for (int i = 0; i < n; ++i)
			if (runnable(i) && !(leave && i == cur))
				cand[k++] = i;
		if (k)
			return cand[rng.below(static_cast<size_t>(k))];
		return cur >= 0 && runnable(cur) ? cur : -1;
	}
	void next(bool leave)
	{
		int t = pick(leave);
		if (t < 0) {
			// nobody can run: only timed waits can end by themselves
			int cand[64], k = 0;
			for (int i = 0; i < static_cast<int>(f.size()); ++i)
				if (!at(i).done && at(i).timed)
					cand[k++] = i;
			if (!k) {
				bool all = true;
				for (auto& x : f)
					all = all && x->done;
				if (!all)
					stuck = true;
				swap_to(-1);
				return;
			}
			t = cand[rng.below(static_cast<size_t>(k))];
			at(t).blocked = false;
		}
		swap_to(t);
	}
	void point(bool yielding = false)
	{
		++points;
		if (points - last_progress > limit) {
			stuck = true;
			swap_to(-1);
			return;
		}
		// progress is only promised under a fair schedule: a strict priority order may well starve a holder for ever
		if (mode == 1 && points - last_progress > 50000) {
			mode = 0;
			den = 4;
		}
		// timed waits may end at any moment
		if ((points & 63) == 0 && rng.below(4) == 0)
			for (auto& x : f)
				if (x->blocked && x->timed && rng.coin())
					x->blocked = false;
		if (mode == 1) {
			if (yielding || changes.count(points) || ++same > 3000)
				at(cur).prio = --low;
			next(false);
		}
		else if (yielding || rng.below(den) == 0)
			next(yielding);
	}
	void block(const void* on, bool timed)
	{
		Fiber& me = at(cur);
		me.blocked = true;
		me.timed = timed;
		me.waits = on;
		next(true);
		me.blocked = false;
		me.timed = false;
		me.waits = nullptr;
	}
	void wake(const void* on, bool all)
	{
		for (auto& x : f)
			if (x->blocked && x->waits == on) {
				x->blocked = false;
				if (!all)
					return;
			}
	}
	// returns false when no fiber can make progress any more
	bool run(const std::vector<std::function<void()>>& fns, uint64_t seed)
	{
		rng = Rng(seed);
		mode = rng.below(3) == 0;
		static const unsigned dens[] = { 1, 2, 4, 8, 20, 60 };
		den = dens[rng.below(6)];
		points = switches = last_progress = same = 0;
		low = 0;
		digest = 0;
		stuck = false;
		changes.clear();
		if (mode == 1) {
			size_t k = 1 + rng.below(6), span = size_t(50) << rng.below(7);
			for (size_t i = 0; i < k; ++i)
				changes.insert(1 + rng.below(span));
		}
		if (!mbottom) {
			pthread_attr_t a;
			void* p = nullptr;
			size_t n = 0;
			pthread_getattr_np(pthread_self(), &a);
			pthread_attr_getstack(&a, &p, &n);
			pthread_attr_destroy(&a);
			mbottom = p;
			msize = n;
		}
		f.clear();
		for (size_t i = 0; i < fns.size(); ++i) {
			f.emplace_back(new Fiber());
			Fiber& x = *f.back();
			if (pool().size() <= i)
				pool().push_back(static_cast<char*>(mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)));
			x.stack = pool()[i];
#ifdef MON_ASAN
			__asan_unpoison_memory_region(x.stack, StackSize);
#endif
			x.fn = fns[i];
			x.prio = static_cast<int64_t>(1 + rng.below(1000000));
			// stack: six callee-saved registers, then the entry point, 16-byte aligned as after a call
			uintptr_t top = reinterpret_cast<uintptr_t>(x.stack + StackSize) & ~uintptr_t(15);
			void** sp = reinterpret_cast<void**>(top - 16);
			*--sp = nullptr; // alignment: rsp % 16 == 8 at entry
			sp[0] = reinterpret_cast<void*>(&Sched::entry);
			for (int k = 0; k < 6; ++k)
				*--sp = nullptr;
			x.sp = sp;
		}
		active = true;
		cur = -1;
		next(false);
		// back in main: all done, or stuck
		active = false;
		for (auto& x : f)
			if (!x->done)
				return false;
		return !stuck;
	}
};
inline Sched& S()
{
	static Sched s;
	return s;
}
inline void Sched::entry()
{
	Sched& s = S();
#ifdef MON_ASAN
	__sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
	s.at(s.cur).fn();
	s.at(s.cur).done = true;
	s.next(true);
	__builtin_trap();
}
inline bool active() { return S().active && S().cur >= 0; }
inline void atom()
{
	if (active())
		S().point();
	else if (g_atom_hook)
		g_atom_hook();
}
}

namespace std {
template<class T>
struct atomic_mon : atomic<T>
{
	using B = atomic<T>;
	using order = memory_order;
	atomic_mon() noexcept = default;
	constexpr atomic_mon(T v) noexcept
	  : B(v)
	{
	}
	atomic_mon(const atomic_mon&) = delete;
	atomic_mon& operator=(const atomic_mon&) = delete;
	void store(T v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		B::store(v, o);
	}
	T load(order o = memory_order_seq_cst) const noexcept
	{
		fiber::atom();
		return B::load(o);
	}
	T exchange(T v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::exchange(v, o);
	}
	bool compare_exchange_strong(T& e, T v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::compare_exchange_strong(e, v, o);
	}
	bool compare_exchange_strong(T& e, T v, order s, order o) noexcept
	{
		fiber::atom();
		return B::compare_exchange_strong(e, v, s, o);
	}
	bool compare_exchange_weak(T& e, T v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::compare_exchange_weak(e, v, o);
	}
	bool compare_exchange_weak(T& e, T v, order s, order o) noexcept
	{
		fiber::atom();
		return B::compare_exchange_weak(e, v, s, o);
	}
	operator T() const noexcept { return load(); }
	T operator=(T v) noexcept
	{
		store(v);
		return v;
	}
	template<class U>
	T fetch_add(U v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::fetch_add(static_cast<T>(v), o);
	}
	template<class U>
	T fetch_sub(U v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::fetch_sub(static_cast<T>(v), o);
	}
	template<class U>
	T fetch_and(U v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::fetch_and(static_cast<T>(v), o);
	}
	template<class U>
	T fetch_or(U v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::fetch_or(static_cast<T>(v), o);
	}
	template<class U>
	T fetch_xor(U v, order o = memory_order_seq_cst) noexcept
	{
		fiber::atom();
		return B::fetch_xor(static_cast<T>(v), o);
	}
	T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
	T operator++(int) noexcept { return fetch_add(1); }
	T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
	T operator--(int) noexcept { return fetch_sub(1); }
	template<class U>
	T operator+=(U v) noexcept
	{
		return static_cast<T>(fetch_add(v) + static_cast<T>(v));
	}
	template<class U>
	T operator-=(U v) noexcept
	{
		return static_cast<T>(fetch_sub(v) - static_cast<T>(v));
	}
	template<class U>
	T operator|=(U v) noexcept
	{
		return static_cast<T>(fetch_or(v) | static_cast<T>(v));
	}
	template<class U>
	T operator&=(U v) noexcept
	{
		return static_cast<T>(fetch_and(v) & static_cast<T>(v));
	}
};
struct mutex_mon
{
	mutex m;
	bool held = false;
	mutex_mon() noexcept = default;
	mutex_mon(const mutex_mon&) = delete;
	mutex_mon& operator=(const mutex_mon&) = delete;
	void lock()
	{
		fiber::atom();
		if (!fiber::active())
			return m.lock();
		while (held)
			fiber::S().block(this, false);
		held = true;
	}
	bool try_lock()
	{
		fiber::atom();
		if (!fiber::active())
			return m.try_lock();
		if (held)
			return false;
		return held = true;
	}
	void unlock()
	{
		if (!fiber::active())
			return m.unlock();
		held = false;
		fiber::S().wake(this, false);
		fiber::atom();
	}
};
struct condition_variable_mon
{
	condition_variable_any c;
	void notify_one() noexcept
	{
		fiber::atom();
		if (fiber::active())
			fiber::S().wake(this, false);
		else
			c.notify_one();
	}
	void notify_all() noexcept
	{
		fiber::atom();
		if (fiber::active())
			fiber::S().wake(this, true);
		else
			c.notify_all();
	}
	template<class L>
	void fwait(L& l, bool timed)
	{
		// the fiber is registered as a waiter before the mutex is released
		fiber::Fiber& me = fiber::S().at(fiber::S().cur);
		me.waits = this;
		me.timed = timed;
		l.mutex()->held = false;
		fiber::S().wake(l.mutex(), false);
		fiber::S().block(this, timed);
		l.mutex()->lock();
	}
	template<class L>
	void wait(L& l)
	{
		if (!fiber::active())
			return c.wait(l);
		fwait(l, false);
	}
	template<class L, class P>
	void wait(L& l, P p)
	{
		while (!p())
			wait(l);
	}
	template<class L, class D, class P>
	bool wait_for(L& l, const D& d, P p)
	{
		if (!fiber::active())
			return c.wait_for(l, d, p);
		if (p())
			return true;
		fwait(l, true);
		return p();
	}
	template<class L, class D>
	cv_status wait_for(L& l, const D& d)
	{
		if (!fiber::active())
			return c.wait_for(l, d);
		fwait(l, true);
		return cv_status::timeout;
	}
	template<class L, class D, class P>
	bool wait_until(L& l, const D& d, P p)
	{
		if (!fiber::active())
			return c.wait_until(l, d, p);
		return wait_for(l, d, p);
	}
};
namespace this_thread {
	inline void yield_mon() noexcept
	{
		if (fiber::active())
			fiber::S().point(true);
		else
			yield();
	}
}
}
