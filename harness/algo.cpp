// C31/C32: net_sort, merge, inplace_merge, unique and reverse_descending against their std:: definitions, over input
// patterns, element kinds, iterator kinds and buffers. Elements carry their original position: a lost, duplicated or
// reordered element is visible whatever the comparator.
#include "mon.hpp"
#include <seq/algorithm.hpp>
#include <seq/devector.hpp>
#include <seq/sequence.hpp>
#include <seq/tiered_vector.hpp>
#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <memory>
#include <sanitizer/allocator_interface.h>
#include <string>
#include <unordered_set>
#include <vector>
using namespace mon;

#ifndef PART
#define PART 0
#endif

// ---------------------------------------------------------------- elements: value = key * 2^21 + position
static constexpr int64_t POS = int64_t(1) << 21;
static int64_t key_of(int64_t v) { return v >= 0 ? v / POS : -((-v + POS - 1) / POS); }

struct Pod
{
	int key;
	int pos;
};
struct Wide
{
	int64_t v;
	char pad[64];
};
struct Str
{
	std::string s;
	int64_t v = 0;
};
using Ptr = std::unique_ptr<int64_t>;

template<class T>
struct El;
template<>
struct El<int64_t>
{
	static int64_t make(int64_t v) { return v; }
	static int64_t val(const int64_t& t) { return t; }
};
template<>
struct El<Pod>
{
	static Pod make(int64_t v) { return Pod{ int(key_of(v)), int(v - key_of(v) * POS) }; }
	static int64_t val(const Pod& t) { return t.key * POS + t.pos; }
};
template<>
struct El<Wide>
{
	static Wide make(int64_t v)
	{
		Wide w;
		w.v = v;
		memset(w.pad, int(v & 127), sizeof(w.pad));
		return w;
	}
	static int64_t val(const Wide& t)
	{
		for (char ch : t.pad)
			if (ch != char(t.v & 127))
				return INT64_MIN;
		return t.v;
	}
};
template<>
struct El<Str>
{
	static Str make(int64_t v) { return Str{ (v & 1) ? std::to_string(v) : "a rather long text " + std::to_string(v), v }; }
	static int64_t val(const Str& t) { return t.s == ((t.v & 1) ? std::to_string(t.v) : "a rather long text " + std::to_string(t.v)) ? t.v : INT64_MIN; }
};
template<>
struct El<Ptr>
{
	static Ptr make(int64_t v) { return Ptr(new int64_t(v)); }
	static int64_t val(const Ptr& t) { return t ? *t : INT64_MIN; }
};
template<bool R, bool N>
struct El<Trk<R, N>>
{
	using T = Trk<R, N>;
	static T make(int64_t v) { return T(v); }
	static int64_t val(const T& t) { return t.get(); }
};
template<bool R>
struct El<TrkMO<R>>
{
	static TrkMO<R> make(int64_t v) { return TrkMO<R>(v); }
	static int64_t val(const TrkMO<R>& t) { return t.get(); }
};

// ---------------------------------------------------------------- comparators
struct Order
{
	int mode = 0; // 0 less, 1 greater, 2 coarse, 3 by parity then key
	bool operator()(int64_t a, int64_t b) const
	{
		a = key_of(a), b = key_of(b);
		switch (mode) {
			case 0: return a < b;
			case 1: return b < a;
			case 2: return (a >> 2) < (b >> 2);
			default: return (a & 1) != (b & 1) ? (a & 1) < (b & 1) : a < b;
		}
	}
};
static uint64_t g_cmp;
template<class T>
struct Cmp : Order
{
	Cmp(int m = 0)
	  : Order{ m }
	{
	}
	bool operator()(const T& a, const T& b) const
	{
		Fault::point(Fault::User);
		++g_cmp;
		return Order::operator()(El<T>::val(a), El<T>::val(b));
	}
};
template<class T>
struct CmpNx : Order
{
	CmpNx(int m = 0)
	  : Order{ m }
	{
	}
	bool operator()(const T& a, const T& b) const noexcept
	{
		++g_cmp;
		return Order::operator()(El<T>::val(a), El<T>::val(b));
	}
};
// takes its arguments by value, as comparators may
template<class T>
struct CmpVal : Order
{
	CmpVal(int m = 0)
	  : Order{ m }
	{
	}
	bool operator()(T a, T b) const
	{
		++g_cmp;
		return Order::operator()(El<T>::val(a), El<T>::val(b));
	}
};

// ---------------------------------------------------------------- inputs
static size_t pick_n(Rng& r)
{
	static const size_t edge[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 136, 191, 255, 256, 257, 383, 384, 511, 512, 513, 640, 1023, 1024, 1025 };
	unsigned k = unsigned(r.below(100));
	if (k < 30)
		return r.below(40);
	if (k < 60)
		return edge[r.below(sizeof(edge) / sizeof(*edge))];
	if (k < 80)
		return r.below(400);
	if (k < 97)
		return r.below(2500);
	static const size_t big[] = { 8191, 8192, 8193, 8319, 8320, 8321, 8448, 12000, 17000 };
	return big[r.below(9)] + r.below(3);
}
static std::vector<int64_t> keys(Rng& r, size_t n, int& pat)
{
	std::vector<int64_t> k(n);
	static const int64_t ranges[] = { 1, 2, 3, 5, 17, 100, 1000, 1 << 20, 1 << 28 };
	int64_t R = r.pct(30) ? int64_t(n) + 1 : ranges[r.below(9)];
	pat = int(r.below(13));
	auto rnd = [&] { return int64_t(r.below(uint64_t(R))) - R / 2; };
	for (auto& x : k)
		x = rnd();
	auto runs = [&](bool asc, bool desc, size_t maxl) {
		for (size_t i = 0; i < n;) {
			size_t l = std::min(n - i, size_t(1) + r.below(maxl));
			std::sort(k.begin() + ptrdiff_t(i), k.begin() + ptrdiff_t(i + l));
			if (desc && (!asc || r.coin()))
				std::reverse(k.begin() + ptrdiff_t(i), k.begin() + ptrdiff_t(i + l));
			i += l;
		}
	};
	switch (pat) {
		case 0: break;
		case 1: std::sort(k.begin(), k.end()); break;
		case 2:
			std::sort(k.begin(), k.end());
			std::reverse(k.begin(), k.end());
			break;
		case 3: runs(true, true, 1 + n / (1 + r.below(8))); break;
		case 4: runs(true, false, 1 + n / (1 + r.below(80))); break;
		case 5: runs(false, true, 1 + n / (1 + r.below(80))); break;
		case 6: // organ pipe
			std::sort(k.begin(), k.end());
			std::reverse(k.begin() + ptrdiff_t(r.below(n + 1)), k.end());
			break;
		case 7:
			std::sort(k.begin(), k.end());
			for (size_t i = 0; n && i < 1 + r.below(8); ++i)
				std::swap(k[r.below(n)], k[r.below(n)]);
			break;
		case 8: // sorted, then a random tail
			std::sort(k.begin(), k.begin() + ptrdiff_t(n - n / (2 + r.below(20))));
			break;
		case 9: // random, then sorted
			std::sort(k.begin() + ptrdiff_t(n / (2 + r.below(20))), k.end());
			break;
		case 10: { // random walk
			int64_t x = 0;
			for (auto& y : k)
				y = x += int64_t(r.below(5)) - 2;
			break;
		}
		case 11: { // saw
			int64_t per = 1 + int64_t(r.below(300));
			for (size_t i = 0; i < n; ++i)
				k[i] = int64_t(i) % per;
			break;
		}
		default: // sorted blocks exchanged: a simple rotation, or two runs of very different lengths
			std::sort(k.begin(), k.end());
			std::rotate(k.begin(), k.begin() + ptrdiff_t(r.below(n + 1)), k.end());
			break;
	}
	return k;
}
static std::vector<int64_t> number(const std::vector<int64_t>& k)
{
	std::vector<int64_t> v(k.size());
	for (size_t i = 0; i < k.size(); ++i)
		v[i] = k[i] * POS + int64_t(i);
	return v;
}

// ---------------------------------------------------------------- allocations made by the library itself
static thread_local bool g_watch;
static thread_local uint64_t g_mallocs;
static void on_malloc(const volatile void*, size_t)
{
	if (g_watch)
		++g_mallocs;
}
static void on_free(const volatile void*) {}
struct Watch
{
	Watch()
	{
		static bool once = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true);
		(void)once;
		g_mallocs = 0;
		g_watch = true;
	}
	~Watch() { g_watch = false; }
};

// ---------------------------------------------------------------- containers
template<class C, class T>
static void fill(C& c, const std::vector<int64_t>& v, size_t before, size_t after)
{
	for (size_t i = 0; i < before; ++i)
		c.push_back(El<T>::make(-int64_t(i) - 1));
	for (int64_t x : v)
		c.push_back(El<T>::make(x));
	for (size_t i = 0; i < after; ++i)
		c.push_back(El<T>::make(-int64_t(i) - 1));
}
template<class C, class T>
static std::string verify(const C& c, const std::vector<int64_t>& v, size_t before, size_t after, size_t len = SIZE_MAX)
{
	if (size_t(std::distance(c.begin(), c.end())) != before + v.size() + after)
		return "the container has another size";
	auto it = c.begin();
	for (size_t i = 0; i < before; ++i, ++it)
		if (El<T>::val(*it) != -int64_t(i) - 1)
			return "an element before the range changed";
	size_t bad = SIZE_MAX;
	int64_t got = 0;
	for (size_t i = 0; i < v.size(); ++i, ++it) {
		if (i >= len)
			continue;
		int64_t g = El<T>::val(*it);
		if (g != v[i] && bad == SIZE_MAX)
			bad = i, got = g;
	}
	for (size_t i = 0; i < after; ++i, ++it)
		if (El<T>::val(*it) != -int64_t(i) - 1)
			return "an element after the range changed";
	if (bad != SIZE_MAX)
		return "at " + std::to_string(bad) + " of " + std::to_string(v.size()) + ": key " + std::to_string(key_of(got)) + " from position " + std::to_string(got - key_of(got) * POS) + " instead of key " +
		       std::to_string(key_of(v[bad])) + " from position " + std::to_string(v[bad] - key_of(v[bad]) * POS);
	return std::string();
}
template<class T>
struct Buf
{
	std::vector<T> mem; // exactly sized: AddressSanitizer sees any access outside
	int kind = 0;	    // 0..4 library buffers, 5 supplied
};
template<class T, class F>
static void with_buffer(Rng& r, size_t n, int kind, size_t& size, F&& f)
{
	switch (kind) {
		case 0: f(seq::default_buffer); break;
		case 1: f(seq::medium_buffer); break;
		case 2: f(seq::small_buffer); break;
		case 3: f(seq::tiny_buffer); break;
		case 4: f(seq::null_buffer); break;
		default: {
			static const size_t s[] = { 0, 1, 2, 3, 8, 16, 63, 64, 127, 128, 129 };
			size = r.coin() ? s[r.below(11)] : r.below(n + 2);
			std::vector<T> mem(size);
			f(seq::buffer<T*>{ size ? mem.data() : nullptr, size });
		}
	}
}

template<class T>
static std::vector<int64_t> stable(const std::vector<int64_t>& v, Order o)
{
	std::vector<int64_t> s(v);
	std::stable_sort(s.begin(), s.end(), o);
	return s;
}

#if PART == 0 || PART == 1
template<class C, class T, class CMP, bool Reverse = false>
static void sort_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 3; ++round) {
		int pat;
		size_t n = pick_n(r);
		std::vector<int64_t> v = number(keys(r, n, pat));
		Order o{ int(r.below(4)) };
		CMP cmp(o.mode);
		size_t before = r.below(3), after = r.below(3);
		int kind = int(r.below(8));
		bool sized = r.coin();
		c.op("sort", n, uint64_t(pat), uint64_t(o.mode * 8 + kind));
		std::vector<int64_t> want = stable<T>(v, o);
		size_t bsize = 0;
		{
			C cont;
			if (Reverse)
				std::reverse(v.begin(), v.end());
			fill<C, T>(cont, v, before, after);
			auto b = std::next(cont.begin(), ptrdiff_t(before));
			auto e = std::next(b, ptrdiff_t(n));
			int64_t live = Live::count();
			g_cmp = 0;
			with_buffer<T>(r, n, kind, bsize, [&](auto buf) {
				Watch w;
				if constexpr (Reverse) {
					auto rb = std::make_reverse_iterator(e), re = std::make_reverse_iterator(b);
					sized ? seq::net_sort_size(rb, n, cmp, buf) : seq::net_sort(rb, re, cmp, buf);
				}
				else
					sized ? seq::net_sort_size(b, n, cmp, buf) : seq::net_sort(b, e, cmp, buf);
			});
			if (std::is_trivially_copyable<T>::value || std::is_same<T, Ptr>::value)
				c.check(kind < 4 || g_mallocs == 0, "allocates", "net_sort of %zu elements allocated memory with buffer kind %d", n, kind);
			c.check(Live::count() == live, "elements", "the number of live elements went from %lld to %lld", (long long)live, (long long)Live::count());
			if (Reverse)
				std::reverse(want.begin(), want.end());
			std::string bad = verify<C, T>(cont, want, before, after);
			c.check(bad.empty(), "sort", "net_sort of %zu elements (pattern %d, order %d, buffer %d of %zu): %s", n, pat, o.mode, kind, bsize, bad.c_str());
			c.state(mix(uint64_t(pat) * 8 + uint64_t(kind), mix(n, g_cmp)));
			MON_COUNT("elements_sorted", n);
			MON_COUNT("comparisons", g_cmp);
		}
	}
	balance(c);
}

// the comparator, a move or the allocation of the buffer throws: the exception is passed on, every element stays a live
// object, and nothing is leaked
template<class C, class T>
static void sort_throw_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 3; ++round) {
		int pat;
		size_t n = 2 + r.below(r.coin() ? 60 : 600);
		std::vector<int64_t> v = number(keys(r, n, pat));
		int mode = int(r.below(4));
		Cmp<T> cmp(mode);
		int kind = int(r.below(8));
		size_t before = r.below(2), after = r.below(2), bsize = 0;
		C cont;
		fill<C, T>(cont, v, before, after);
		auto b = std::next(cont.begin(), ptrdiff_t(before));
		unsigned mask = r.pct(50) ? unsigned(Fault::User) : unsigned(Fault::User | Fault::Move | Fault::MoveAssign | Fault::Ctor);
		int64_t at = 1 + int64_t(r.below(n * (r.coin() ? 12 : 3)));
		c.op("throw", n, uint64_t(at), mask * 8 + unsigned(kind));
		bool thrown = false, before_sort = true;
		int64_t live = Live::count();
		try {
			with_buffer<T>(r, n, kind, bsize, [&](auto buf) {
				before_sort = false;
				Fault::arm(at, mask);
				seq::net_sort_size(b, n, cmp, buf);
			});
		}
		catch (const Injected&) {
			thrown = true;
		}
		Fault::disarm();
		(void)before_sort;
		c.check(Live::count() == live, "elements", "the number of live elements went from %lld to %lld after an exception", (long long)live, (long long)Live::count());
		if (!thrown) {
			std::string bad = verify<C, T>(cont, stable<T>(v, Order{ mode }), before, after);
			c.check(bad.empty(), "sort", "net_sort of %zu elements without exception: %s", n, bad.c_str());
		}
		else {
			MON_COUNT("exceptions", 1);
			// the range may be given new values and sorted
			auto it = b;
			for (size_t i = 0; i < n; ++i, ++it)
				*it = El<T>::make(v[i]);
			seq::net_sort_size(b, n, cmp);
			std::string bad = verify<C, T>(cont, stable<T>(v, Order{ mode }), before, after);
			c.check(bad.empty(), "resort", "net_sort after an exception: %s", bad.c_str());
		}
		c.state(mix(n, mix(uint64_t(at), thrown)));
	}
	balance(c);
}
#endif

#define S(ident, cont, T, cmp, nq) FAMILY(fam_##ident, "C31/sort-" #ident, nq, nq * 20) { sort_case<cont, T, cmp>(c); }

#if PART == 0
S(vec_int, std::vector<int64_t>, int64_t, CmpNx<int64_t>, 1500)
S(vec_pod, std::vector<Pod>, Pod, Cmp<Pod>, 800)
S(vec_wide, std::vector<Wide>, Wide, Cmp<Wide>, 300)
S(vec_str, std::vector<Str>, Str, Cmp<Str>, 150)
S(vec_str_byval, std::vector<Str>, Str, CmpVal<Str>, 100)
S(vec_ptr, std::vector<Ptr>, Ptr, CmpNx<Ptr>, 300)
S(vec_trk, std::vector<TNoReloc>, TNoReloc, Cmp<TNoReloc>, 300)
S(vec_trk_reloc, std::vector<TReloc>, TReloc, Cmp<TReloc>, 300)
S(vec_trk_mo, std::vector<TrkMO<false>>, TrkMO<false>, Cmp<TrkMO<false>>, 200)
FAMILY(fam_rev_pod, "C31/sort-reverse_pod", 400, 8000) { sort_case<std::vector<Pod>, Pod, CmpNx<Pod>, true>(c); }
FAMILY(fam_thr, "C31/sort-throw_vec_trk", 600, 12000) { sort_throw_case<std::vector<TNoReloc>, TNoReloc>(c); }
FAMILY(fam_thr2, "C31/sort-throw_vec_reloc", 600, 12000) { sort_throw_case<std::vector<TReloc>, TReloc>(c); }
FAMILY(fam_thr3, "C31/sort-throw_vec_throw", 600, 12000) { sort_throw_case<std::vector<TThrow>, TThrow>(c); }
// small values, standard comparators
template<class T>
static void plain(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 4; ++round) {
		int pat;
		std::vector<int64_t> k = keys(r, pick_n(r), pat);
		std::vector<T> v, w;
		for (int64_t x : k)
			v.push_back(T(x));
		w = v;
		bool gr = r.coin();
		c.op("plain", v.size(), uint64_t(pat), sizeof(T), gr);
		if (gr) {
			std::sort(w.begin(), w.end(), std::greater<>());
			seq::net_sort(v.begin(), v.end(), std::greater<>());
		}
		else {
			std::sort(w.begin(), w.end());
			seq::net_sort(v.data(), v.data() + v.size());
		}
		c.check(v == w, "sort", "net_sort of %zu plain values (pattern %d) is not sorted", v.size(), pat);
		MON_COUNT("elements_sorted", v.size());
	}
}
FAMILY(p1, "C31/sort-plain_i8", 300, 6000) { plain<signed char>(c); }
FAMILY(p2, "C31/sort-plain_u16", 300, 6000) { plain<unsigned short>(c); }
FAMILY(p3, "C31/sort-plain_int", 300, 6000) { plain<int>(c); }
FAMILY(p4, "C31/sort-plain_double", 300, 6000) { plain<double>(c); }
#endif

#if PART == 1
S(list_int, std::list<int64_t>, int64_t, CmpNx<int64_t>, 400)
S(list_pod, std::list<Pod>, Pod, Cmp<Pod>, 300)
S(list_str, std::list<Str>, Str, CmpVal<Str>, 80)
S(list_trk, std::list<TNoReloc>, TNoReloc, Cmp<TNoReloc>, 150)
S(list_mo, std::list<TrkMO<true>>, TrkMO<true>, Cmp<TrkMO<true>>, 150)
S(deque_pod, std::deque<Pod>, Pod, Cmp<Pod>, 300)
S(deque_trk, std::deque<TReloc>, TReloc, Cmp<TReloc>, 150)
S(tiered_pod, seq::tiered_vector<Pod>, Pod, CmpNx<Pod>, 300)
S(tiered_trk, seq::tiered_vector<TNoReloc>, TNoReloc, Cmp<TNoReloc>, 150)
S(devector_pod, seq::devector<Pod>, Pod, Cmp<Pod>, 300)
S(sequence_pod, seq::sequence<Pod>, Pod, CmpNx<Pod>, 200)
S(sequence_str, seq::sequence<Str>, Str, Cmp<Str>, 80)
FAMILY(fam_rev_list, "C31/sort-reverse_list", 200, 4000) { sort_case<std::list<Pod>, Pod, Cmp<Pod>, true>(c); }
FAMILY(fam_thr4, "C31/sort-throw_list_trk", 300, 6000) { sort_throw_case<std::list<TNoReloc>, TNoReloc>(c); }
FAMILY(fam_thr5, "C31/sort-throw_deque_throw", 300, 6000) { sort_throw_case<std::deque<TThrow>, TThrow>(c); }
#endif

#if PART == 2
// ---------------------------------------------------------------- merge
static void lengths(Rng& r, size_t& a, size_t& b)
{
	a = pick_n(r);
	b = pick_n(r);
	if (r.pct(40)) // very different lengths
		(r.coin() ? a : b) = r.below(8);
	if (r.pct(10))
		(r.coin() ? a : b) = 0;
}
template<class C1, class C2, class T, class CMP>
static void merge_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 3; ++round) {
		size_t n1, n2;
		lengths(r, n1, n2);
		int p1, p2;
		Order o{ int(r.below(4)) };
		std::vector<int64_t> k1 = keys(r, n1, p1), k2 = keys(r, n2, p2);
		if (r.pct(20)) { // ranges which hardly overlap
			int64_t shift = r.coin() ? 1 << 20 : -(1 << 20);
			for (auto& x : k2)
				x += shift;
		}
		k1.insert(k1.end(), k2.begin(), k2.end());
		std::vector<int64_t> all = number(k1);
		std::stable_sort(all.begin(), all.begin() + ptrdiff_t(n1), o);
		std::stable_sort(all.begin() + ptrdiff_t(n1), all.end(), o);
		std::vector<int64_t> a(all.begin(), all.begin() + ptrdiff_t(n1)), b(all.begin() + ptrdiff_t(n1), all.end()), want;
		std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(want), o);
		c.op("merge", n1, n2, uint64_t(o.mode), uint64_t(p1 * 16 + p2));
		{
			C1 x;
			C2 y;
			fill<C1, T>(x, a, 0, 0);
			fill<C2, T>(y, b, 0, 0);
			CMP cmp(o.mode);
			g_cmp = 0;
			if (r.coin() || !std::is_copy_constructible<T>::value) {
				// move iterators into an exactly sized range
				std::vector<T> out(n1 + n2);
				auto e = seq::merge(std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()), std::make_move_iterator(y.begin()), std::make_move_iterator(y.end()), out.begin(), cmp);
				c.check(e == out.end(), "C32/merge-end", "merge of %zu and %zu elements returned an end at %td", n1, n2, e - out.begin());
				std::string bad = verify<std::vector<T>, T>(out, want, 0, 0);
				c.check(bad.empty(), "merge", "moving merge of %zu and %zu elements: %s", n1, n2, bad.c_str());
			}
			else if constexpr (std::is_copy_constructible<T>::value) {
				std::vector<T> out;
				if (r.coin())
					seq::merge(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(out), cmp);
				else {
					out.resize(n1 + n2);
					auto e = seq::merge(x.cbegin(), x.cend(), y.cbegin(), y.cend(), out.begin(), cmp);
					c.check(e == out.end(), "C32/merge-end", "merge of %zu and %zu elements returned an end at %td", n1, n2, e - out.begin());
				}
				std::string bad = verify<std::vector<T>, T>(out, want, 0, 0);
				c.check(bad.empty(), "merge", "merge of %zu and %zu elements: %s", n1, n2, bad.c_str());
				bad = verify<C1, T>(x, a, 0, 0) + verify<C2, T>(y, b, 0, 0);
				c.check(bad.empty(), "C32/merge-source", "merge changed its input: %s", bad.c_str());
			}
			c.state(mix(n1, mix(n2, g_cmp)));
			MON_COUNT("elements_merged", n1 + n2);
			MON_COUNT("comparisons", g_cmp);
		}
	}
	balance(c);
}
#define M(ident, C1, C2, T, cmp, nq) FAMILY(fam_m_##ident, "C32/merge-" #ident, nq, nq * 20) { merge_case<C1, C2, T, cmp>(c); }
M(vec_pod, std::vector<Pod>, std::vector<Pod>, Pod, Cmp<Pod>, 600)
M(vec_str, std::vector<Str>, std::vector<Str>, Str, Cmp<Str>, 100)
M(vec_str_byval, std::vector<Str>, std::vector<Str>, Str, CmpVal<Str>, 100)
M(vec_mo, std::vector<TrkMO<true>>, std::vector<TrkMO<true>>, TrkMO<true>, Cmp<TrkMO<true>>, 200)
M(list_vec, std::list<Pod>, std::vector<Pod>, Pod, Cmp<Pod>, 300)
M(vec_deque, std::vector<TNoReloc>, std::deque<TNoReloc>, TNoReloc, Cmp<TNoReloc>, 200)
M(tiered_list, seq::tiered_vector<Pod>, std::list<Pod>, Pod, CmpNx<Pod>, 200)

// ---------------------------------------------------------------- inplace_merge
template<class C, class T, class CMP>
static void inplace_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 3; ++round) {
		size_t n1, n2;
		lengths(r, n1, n2);
		int p1, p2;
		Order o{ int(r.below(4)) };
		CMP cmp(o.mode);
		std::vector<int64_t> k1 = keys(r, n1, p1), k2 = keys(r, n2, p2);
		if (r.pct(20)) {
			int64_t shift = r.coin() ? 1 << 20 : -(1 << 20);
			for (auto& x : k2)
				x += shift;
		}
		k1.insert(k1.end(), k2.begin(), k2.end());
		std::vector<int64_t> all = number(k1);
		std::stable_sort(all.begin(), all.begin() + ptrdiff_t(n1), o);
		std::stable_sort(all.begin() + ptrdiff_t(n1), all.end(), o);
		std::vector<int64_t> want = stable<T>(all, o);
		int kind = int(r.below(8));
		size_t bsize = 0, before = r.below(3), after = r.below(3);
		c.op("inplace_merge", n1, n2, uint64_t(o.mode * 8 + kind));
		{
			C x;
			fill<C, T>(x, all, before, after);
			auto b = std::next(x.begin(), ptrdiff_t(before)), m = std::next(b, ptrdiff_t(n1)), e = std::next(m, ptrdiff_t(n2));
			int64_t live = Live::count();
			g_cmp = 0;
			with_buffer<T>(r, std::min(n1, n2), kind, bsize, [&](auto buf) {
				Watch w;
				seq::inplace_merge(b, m, e, cmp, buf);
			});
			if (std::is_trivially_copyable<T>::value || std::is_same<T, Ptr>::value)
				c.check(kind < 4 || g_mallocs == 0, "allocates", "inplace_merge of %zu and %zu elements allocated memory with buffer kind %d", n1, n2, kind);
			c.check(Live::count() == live, "elements", "the number of live elements went from %lld to %lld", (long long)live, (long long)Live::count());
			std::string bad = verify<C, T>(x, want, before, after);
			c.check(bad.empty(), "inplace_merge", "inplace_merge of %zu and %zu elements (order %d, buffer %d of %zu): %s", n1, n2, o.mode, kind, bsize, bad.c_str());
			c.state(mix(n1, mix(n2, g_cmp)));
			MON_COUNT("elements_merged", n1 + n2);
		}
	}
	balance(c);
}
#define I(ident, C, T, cmp, nq) FAMILY(fam_i_##ident, "C32/inplace-" #ident, nq, nq * 20) { inplace_case<C, T, cmp>(c); }
I(vec_pod, std::vector<Pod>, Pod, CmpNx<Pod>, 500)
I(vec_str, std::vector<Str>, Str, CmpVal<Str>, 100)
I(vec_ptr, std::vector<Ptr>, Ptr, Cmp<Ptr>, 200)
I(vec_trk, std::vector<TReloc>, TReloc, Cmp<TReloc>, 200)
I(list_pod, std::list<Pod>, Pod, Cmp<Pod>, 300)
I(list_mo, std::list<TrkMO<false>>, TrkMO<false>, Cmp<TrkMO<false>>, 150)
I(deque_trk, std::deque<TNoReloc>, TNoReloc, Cmp<TNoReloc>, 150)
I(tiered_pod, seq::tiered_vector<Pod>, Pod, Cmp<Pod>, 200)

// several sorted runs given by their bounds
template<class T, class CMP>
static void runs_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 3; ++round) {
		int pat;
		size_t n = pick_n(r);
		Order o{ int(r.below(4)) };
		std::vector<int64_t> all = number(keys(r, n, pat));
		size_t nruns = r.below(r.coin() ? 6 : 70);
		std::vector<size_t> cut;
		for (size_t i = 1; i < nruns; ++i)
			cut.push_back(r.below(n + 1));
		cut.push_back(0);
		cut.push_back(n);
		std::sort(cut.begin(), cut.end());
		// runs of no element are not runs
		cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
		for (size_t i = 1; i < cut.size(); ++i)
			std::stable_sort(all.begin() + ptrdiff_t(cut[i - 1]), all.begin() + ptrdiff_t(cut[i]), o);
		std::vector<int64_t> want = stable<T>(all, o);
		int kind = int(r.below(8));
		size_t bsize = 0;
		c.op("runs", n, cut.size(), uint64_t(o.mode * 8 + kind));
		{
			std::vector<T> x;
			fill<std::vector<T>, T>(x, all, 0, 0);
			std::vector<T*> its;
			for (size_t k : cut)
				its.push_back(x.data() + k);
			int64_t live = Live::count();
			with_buffer<T>(r, n, kind, bsize, [&](auto buf) { seq::inplace_merge(its.data(), its.size(), CMP(o.mode), buf); });
			c.check(Live::count() == live, "elements", "the number of live elements went from %lld to %lld", (long long)live, (long long)Live::count());
			std::string bad = verify<std::vector<T>, T>(x, want, 0, 0);
			c.check(bad.empty(), "runs", "inplace_merge of %zu runs, %zu elements (order %d, buffer %d of %zu): %s", cut.size() - 1, n, o.mode, kind, bsize, bad.c_str());
			c.state(mix(n, cut.size()));
			MON_COUNT("elements_merged", n);
		}
	}
	balance(c);
}
FAMILY(fam_r1, "C32/runs-pod", 400, 8000) { runs_case<Pod, Cmp<Pod>>(c); }
FAMILY(fam_r2, "C32/runs-ptr", 150, 3000) { runs_case<Ptr, Cmp<Ptr>>(c); }
FAMILY(fam_r3, "C32/runs-trk", 150, 3000) { runs_case<TNoReloc, Cmp<TNoReloc>>(c); }

// ---------------------------------------------------------------- reverse_descending
template<class C, class T, class CMP>
static void reverse_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 4; ++round) {
		int pat;
		size_t n = r.pct(70) ? r.below(40) : pick_n(r);
		Order o{ int(r.below(4)) };
		std::vector<int64_t> k = keys(r, n, pat);
		std::vector<int64_t> v = number(k);
		std::stable_sort(v.begin(), v.end(), [o](int64_t a, int64_t b) { return o(b, a); });
		for (size_t i = 0; i < n; ++i)
			v[i] = key_of(v[i]) * POS + int64_t(i);
		std::vector<int64_t> want = stable<T>(v, o);
		size_t before = r.below(3), after = r.below(3);
		c.op("reverse_descending", n, uint64_t(pat), uint64_t(o.mode));
		{
			C x;
			fill<C, T>(x, v, before, after);
			auto b = std::next(x.begin(), ptrdiff_t(before));
			seq::reverse_descending(b, std::next(b, ptrdiff_t(n)), CMP(o.mode));
			std::string bad = verify<C, T>(x, want, before, after);
			c.check(bad.empty(), "reverse", "reverse_descending of %zu elements: %s", n, bad.c_str());
			c.state(mix(n, uint64_t(pat)));
		}
	}
	balance(c);
}
FAMILY(fam_v1, "C32/reverse-vec", 500, 10000) { reverse_case<std::vector<Pod>, Pod, Cmp<Pod>>(c); }
FAMILY(fam_v2, "C32/reverse-list", 300, 6000) { reverse_case<std::list<Ptr>, Ptr, Cmp<Ptr>>(c); }
FAMILY(fam_v3, "C32/reverse-trk", 200, 4000) { reverse_case<std::deque<TNoReloc>, TNoReloc, CmpVal<TNoReloc>>(c); }

// ---------------------------------------------------------------- unique
template<class T>
struct Hash
{
	int bits = 64; // fewer: many different values with the same hash
	size_t operator()(const T& t) const
	{
		uint64_t h = mix(uint64_t(key_of(El<T>::val(t))), 12345);
		return bits == 64 ? h : h & ((uint64_t(1) << bits) - 1);
	}
};
template<class T>
struct Equal
{
	bool operator()(const T& a, const T& b) const { return key_of(El<T>::val(a)) == key_of(El<T>::val(b)); }
};
template<class C, class T>
static void unique_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 3; ++round) {
		int pat;
		size_t n = pick_n(r);
		std::vector<int64_t> v = number(keys(r, n, pat)), want;
		std::unordered_set<int64_t> seen;
		for (int64_t x : v)
			if (seen.insert(key_of(x)).second)
				want.push_back(x);
		size_t kept = want.size();
		want.resize(n);
		Hash<T> h;
		if (r.pct(20) && kept < 300)
			h.bits = int(r.below(8));
		c.op("unique", n, kept, uint64_t(pat), uint64_t(h.bits));
		{
			C x;
			// forward lists have no push_back
			if constexpr (std::is_same<C, std::forward_list<T>>::value) {
				for (size_t i = n; i-- > 0;)
					x.push_front(El<T>::make(v[i]));
			}
			else
				fill<C, T>(x, v, 0, 0);
			int64_t live = Live::count();
			auto e = seq::unique(x.begin(), x.end(), h, Equal<T>());
			c.check(Live::count() == live, "elements", "the number of live elements went from %lld to %lld", (long long)live, (long long)Live::count());
			size_t got = size_t(std::distance(x.begin(), e));
			c.check(got == kept, "C32/unique-end", "unique of %zu elements kept %zu instead of %zu", n, got, kept);
			size_t i = 0;
			for (auto it = x.begin(); it != e; ++it, ++i)
				c.check(El<T>::val(*it) == want[i], "unique", "unique of %zu elements: element %zu of %zu has key %lld from position %lld", n, i, kept, (long long)key_of(El<T>::val(*it)), (long long)(El<T>::val(*it) - key_of(El<T>::val(*it)) * POS));
			c.state(mix(n, kept));
			MON_COUNT("elements_filtered", n);
		}
	}
	balance(c);
}
FAMILY(fam_u1, "C32/unique-vec", 500, 10000) { unique_case<std::vector<Pod>, Pod>(c); }
FAMILY(fam_u2, "C32/unique-list", 200, 4000) { unique_case<std::list<Ptr>, Ptr>(c); }
FAMILY(fam_u3, "C32/unique-flist", 200, 4000) { unique_case<std::forward_list<Str>, Str>(c); }
FAMILY(fam_u4, "C32/unique-trk", 200, 4000) { unique_case<std::deque<TNoReloc>, TNoReloc>(c); }
FAMILY(fam_u5, "C32/unique-plain", 300, 6000)
{
	// the default hash and equality
	Rng& r = c.rng;
	for (int round = 0; round < 4; ++round) {
		int pat;
		std::vector<int64_t> k = keys(r, pick_n(r), pat), w;
		std::unordered_set<int64_t> seen;
		std::vector<std::string> s, ws;
		for (int64_t x : k) {
			s.push_back("#" + std::to_string(x));
			if (seen.insert(x).second) {
				w.push_back(x);
				ws.push_back(s.back());
			}
		}
		c.op("unique_plain", k.size(), w.size(), uint64_t(pat));
		if (r.coin()) {
			k.erase(seq::unique(k.begin(), k.end()), k.end());
			c.check(k == w, "unique", "unique of integers keeps %zu instead of %zu, or others", k.size(), w.size());
		}
		else {
			s.erase(seq::unique(s.begin(), s.end()), s.end());
			c.check(s == ws, "unique", "unique of strings keeps %zu instead of %zu, or others", s.size(), ws.size());
		}
		MON_COUNT("elements_filtered", seen.size());
	}
}
#endif
