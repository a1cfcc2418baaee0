// C19: comparison and hashing coherence between tiny_string (any capacity), tstring_view, std::basic_string,
// std::basic_string_view and character pointers, for every character type; heterogeneous lookups in the containers.
#include "mon.hpp"
#include <seq/concurrent_map.hpp>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/tiny_string.hpp>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
using namespace mon;

// exact size heap copy: any read past the end is caught by the address sanitizer
template<class C>
struct Exact
{
	std::unique_ptr<C[]> p;
	size_t n;
	Exact(const std::basic_string<C>& s, bool zero)
	  : p(new C[s.size() + zero])
	  , n(s.size())
	{
		std::copy(s.begin(), s.end(), p.get());
		if (zero)
			p[n] = C();
	}
};

template<class C>
C rnd_char(Rng& r, unsigned mode)
{
	static const long long ext[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ll, -1, 'a', 'b' };
	switch (mode) {
		case 0:
			return static_cast<C>('a' + r.below(2));
		case 1:
			return static_cast<C>(ext[r.below(14)]);
		case 2:
			return static_cast<C>(r.next());
		default:
			return static_cast<C>(1 + r.below(120));
	}
}
inline size_t rnd_len(Rng& r)
{
	switch (r.below(8)) {
		case 0:
			return r.below(4);
		case 1:
			return r.below(18);
		case 2: {
			static const size_t b[] = { 7, 8, 9, 14, 15, 16, 22, 23, 24, 30, 31, 32, 33, 62, 63, 64, 65, 117, 118, 119, 127, 128 };
			return b[r.below(22)];
		}
		case 3:
			return r.below(600);
		default:
			return r.below(40);
	}
}
template<class C>
std::string show(const std::basic_string<C>& s)
{
	std::string r = "[" + std::to_string(s.size()) + "]";
	char b[24];
	for (size_t i = 0; i < s.size() && i < 24; ++i) {
		snprintf(b, sizeof b, "%llx.", static_cast<unsigned long long>(static_cast<typename std::make_unsigned<C>::type>(s[i])));
		r += b;
	}
	return r;
}
// pair of related strings
template<class C>
void make_pair_(Rng& r, std::basic_string<C>& a, std::basic_string<C>& b)
{
	unsigned mode = r.below(4);
	size_t n = rnd_len(r);
	a.clear();
	for (size_t i = 0; i < n; ++i)
		a.push_back(rnd_char<C>(r, mode));
	b = a;
	switch (r.below(8)) {
		case 0:
		case 1:
			break; // equal
		case 2:
			b.resize(r.below(n + 1)); // prefix
			break;
		case 3: {
			b.clear();
			for (size_t m = rnd_len(r); m; --m)
				b.push_back(rnd_char<C>(r, mode));
			break;
		}
		default:
			if (n) {
				size_t p = r.coin() ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 9));
				b[p] = rnd_char<C>(r, r.below(3));
				if (r.coin())
					for (size_t i = p + 1; i < n; ++i)
						if (r.pct(30))
							b[i] = rnd_char<C>(r, mode);
				if (r.pct(20))
					b.resize(p + 1 + r.below(n - p));
			}
	}
	if (r.pct(20))
		a.swap(b);
}
inline int sgn(int v) { return v < 0 ? -1 : v > 0; }

template<class C, class Tr>
using Std = std::basic_string<C, Tr>;

// one pair of operands, at least one of which is a tiny_string
template<class A, class B>
void six(Ctx& c, const char* what, const A& a, const B& b, int m)
{
	c.check((a == b) == (m == 0), "equal", "%s: operator== gives %d, order of the std strings is %d", what, int(a == b), m);
	c.check((a != b) == (m != 0), "notequal", "%s: operator!= wrong, order %d", what, m);
	c.check((a < b) == (m < 0), "less", "%s: operator< gives %d, order of the std strings is %d", what, int(a < b), m);
	c.check((a <= b) == (m <= 0), "lessequal", "%s: operator<= wrong, order %d", what, m);
	c.check((a > b) == (m > 0), "greater", "%s: operator> wrong, order %d", what, m);
	c.check((a >= b) == (m >= 0), "greaterequal", "%s: operator>= wrong, order %d", what, m);
}

template<class C, class Tr>
struct Flavours
{
	using Str = std::basic_string<C, Tr>;
	using S0 = seq::tiny_string<C, Tr, std::allocator<C>, 0>;
	using S1 = seq::tiny_string<C, Tr, std::allocator<C>, 31>;
	using S2 = seq::tiny_string<C, Tr, std::allocator<C>, 100>;
	using View = seq::tiny_string<C, Tr, seq::view_allocator<C>, 0>;
	using SV = std::basic_string_view<C, Tr>;
	Exact<C> raw, z;
	S0 s0;
	S1 s1;
	S2 s2;
	View v;
	Str st;
	SV sv;
	const C* cs;
	static std::basic_string<C> plain(const Str& s) { return std::basic_string<C>(s.data(), s.size()); }
	explicit Flavours(const Str& s)
	  : raw(plain(s), false)
	  , z(plain(s), true)
	  , s0(s.data(), s.size())
	  , s1(s.data(), s.size())
	  , s2(s.data(), s.size())
	  , v(raw.p.get(), s.size())
	  , st(s)
	  , sv(raw.p.get(), s.size())
	  , cs(z.p.get())
	{
	}
};

template<class C, class Tr>
void run_cmp(Ctx& c)
{
	Rng& r = c.rng;
	for (int round = 0; round < 12; ++round) {
		std::basic_string<C> pa, pb;
		make_pair_<C>(r, pa, pb);
		using F = Flavours<C, Tr>;
		using Str = typename F::Str;
		Str a(pa.data(), pa.size()), b(pb.data(), pb.size());
		c.op("pair", show(pa), show(pb));
		F fa(a), fb(b);
		int m = sgn(a.compare(b));
		auto self = [&](const char* w, const auto& x, const auto& y) { six(c, w, x, y, m); };
		// tiny x tiny
		self("s0/s0", fa.s0, fb.s0);
		self("s0/s1", fa.s0, fb.s1);
		self("s1/s2", fa.s1, fb.s2);
		self("s2/view", fa.s2, fb.v);
		self("view/view", fa.v, fb.v);
		self("view/s0", fa.v, fb.s0);
		// std::basic_string
		self("s0/std", fa.s0, fb.st);
		self("std/s1", fa.st, fb.s1);
		self("view/std", fa.v, fb.st);
		self("std/view", fa.st, fb.v);
		// std view
		self("s1/sv", fa.s1, fb.sv);
		self("sv/s2", fa.sv, fb.s2);
		self("view/sv", fa.v, fb.sv);
		self("sv/view", fa.sv, fb.v);
		// C string: compares the part before the first null
		{
			Str ca(fa.cs), cb(fb.cs);
			int m1 = sgn(a.compare(cb)), m2 = sgn(ca.compare(b));
			six(c, "s0/cstr", fa.s0, fb.cs, m1);
			six(c, "s2/cstr", fa.s2, fb.cs, m1);
			six(c, "view/cstr", fa.v, fb.cs, m1);
			six(c, "cstr/s0", fa.cs, fb.s0, m2);
			six(c, "cstr/s1", fa.cs, fb.s1, m2);
			six(c, "cstr/view", fa.cs, fb.v, m2);
			c.check(sgn(fa.s0.compare(fb.cs)) == m1, "compare-cstr", "compare(const Char*) gives %d, expected %d", fa.s0.compare(fb.cs), m1);
		}
		auto cmp = [&](const char* w, int got) { c.check(sgn(got) == m, "compare", "%s: compare gives %d, expected %d", w, got, m); };
		cmp("s0.compare(s0)", fa.s0.compare(fb.s0));
		cmp("s0.compare(s2)", fa.s0.compare(fb.s2));
		cmp("s1.compare(view)", fa.s1.compare(fb.v));
		cmp("view.compare(s1)", fa.v.compare(fb.s1));
		cmp("s2.compare(std)", fa.s2.compare(fb.st));
		cmp("view.compare(view)", fa.v.compare(fb.v));
		// standard function objects
		c.check(std::less<>()(fa.s0, fb.v) == (m < 0), "std-less", "std::less<> wrong");
		c.check(std::equal_to<>()(fa.s1, fb.sv) == (m == 0), "std-equal", "std::equal_to<> wrong");
		MON_COUNT("pairs_compared", 1);
		if (m == 0) {
			MON_COUNT("pairs_equal", 1);
			c.check(fa.s0 == fa.st && fb.s0 == fa.st, "reflexive", "a string differs from itself");
		}
		// hashes
		if constexpr (std::is_same<Tr, std::char_traits<C>>::value) {
			seq::hasher<typename F::S0> h0;
			seq::hasher<typename F::S1> h1;
			seq::hasher<typename F::View> hv;
			seq::hasher<Str> hs;
			seq::hasher<typename F::SV> hsv;
			std::hash<typename F::S0> sh0;
			std::hash<typename F::View> shv;
			size_t ref = h0(fa.s0);
			auto one = [&](const char* w, const auto& h, const F& f) {
				c.check(h(f.s0) == ref, "hash-s0", "%s(tiny_string) differs from the hash of an equal string", w);
				c.check(h(f.s1) == ref, "hash-s1", "%s(tiny_string<31>) differs from the hash of an equal string", w);
				c.check(h(f.s2) == ref, "hash-s2", "%s(tiny_string<100>) differs from the hash of an equal string", w);
				c.check(h(f.v) == ref, "hash-view", "%s(tstring_view) differs from the hash of an equal string", w);
				c.check(h(f.st) == ref, "hash-std", "%s(std::string) differs from the hash of an equal string", w);
				c.check(h(f.sv) == ref, "hash-stdview", "%s(std::string_view) differs from the hash of an equal string", w);
				if (f.st.find(C()) == Str::npos)
					c.check(h(f.cs) == ref, "hash-cstr", "%s(const Char*) differs from the hash of an equal string", w);
			};
			for (int k = 0; k < (m == 0 ? 2 : 1); ++k) {
				const F& f = k ? fb : fa;
				one("hasher<tiny_string>", h0, f);
				one("hasher<tiny_string<31>>", h1, f);
				one("hasher<tstring_view>", hv, f);
				one("hasher<std::string>", hs, f);
				one("hasher<std::string_view>", hsv, f);
				one("std::hash<tiny_string>", sh0, f);
				one("std::hash<tstring_view>", shv, f);
			}
			c.state(ref);
		}
		else
			c.state(mix(a.size(), m + 1));
	}
}

// case insensitive traits: the order of a tiny_string is that of its traits
struct CI : std::char_traits<char>
{
	static unsigned char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	static bool eq(char a, char b) { return lo(a) == lo(b); }
	static bool lt(char a, char b) { return lo(a) < lo(b); }
	static int compare(const char* a, const char* b, size_t n)
	{
		for (size_t i = 0; i < n; ++i) {
			if (lt(a[i], b[i]))
				return -1;
			if (lt(b[i], a[i]))
				return 1;
		}
		return 0;
	}
	static const char* find(const char* s, size_t n, const char& c)
	{
		for (size_t i = 0; i < n; ++i)
			if (eq(s[i], c))
				return s + i;
		return nullptr;
	}
};

//------------------------------------------------------------------------------------------
// heterogeneous lookup
template<class Cont>
struct IsConc : std::false_type
{
};
template<class K, class H, class E, class A, unsigned S>
struct IsConc<seq::concurrent_set<K, H, E, A, S>> : std::true_type
{
};
template<class Cont, class Q>
size_t has(const Cont& s, const Q& q)
{
	if constexpr (IsConc<Cont>::value)
		return s.contains(q);
	else
		return s.find(q) != s.end();
}
template<class Cont, class C, bool CStr = true>
void run_lookup(Ctx& c)
{
	Rng& r = c.rng;
	using Str = std::basic_string<C>;
	using F = Flavours<C, std::char_traits<C>>;
	using Key = typename Cont::value_type;
	std::map<Str, int> model;
	Cont s;
	std::vector<Str> pool;
	unsigned mode = r.below(4);
	size_t n = 3 + r.below(r.pct(20) ? 120 : 25);
	size_t pl = r.below(40); // common prefix
	Str pre;
	for (size_t i = 0; i < pl; ++i)
		pre.push_back(rnd_char<C>(r, mode));
	for (size_t i = 0; i < n; ++i) {
		Str x = r.coin() ? pre : Str();
		if (!pool.empty() && r.pct(30)) {
			x = pool[r.below(pool.size())];
			x.resize(r.below(x.size() + 1));
		}
		for (size_t k = r.below(r.coin() ? 3 : 20); k; --k)
			x.push_back(rnd_char<C>(r, mode));
		pool.push_back(x);
	}
	// make_key: from a temporary tiny/std string. String views point in the pool, which does not move any more
	for (size_t i = 0; i < n; ++i)
		if (r.pct(60)) {
			Key k(pool[i].data(), pool[i].size());
			bool ins = model.emplace(pool[i], 0).second;
			c.op("insert", show(pool[i]));
			bool got;
			if constexpr (IsConc<Cont>::value)
				got = s.insert(k);
			else
				got = s.insert(k).second;
			c.check(got == ins, "insert", "insert of %s returned %d", show(pool[i]).c_str(), int(got));
		}
	c.check(s.size() == model.size(), "size", "size %zu instead of %zu", size_t(s.size()), model.size());
	for (size_t i = 0; i < n; ++i) {
		const Str& x = pool[i];
		F f(x);
		size_t e = model.count(x);
		c.op("lookup", show(x));
		auto one = [&](const char* w, const auto& q) {
			MON_COUNT("heterogeneous_lookups", 1);
			c.check(has(s, q) == e, "find", "lookup through %s of %s: found %zu, expected %zu", w, show(x).c_str(), size_t(has(s, q)), e);
			c.check(size_t(s.count(q)) == e, "count", "count through %s of %s: expected %zu", w, show(x).c_str(), e);
			c.check(s.contains(q) == (e != 0), "contains", "contains through %s of %s: expected %zu", w, show(x).c_str(), e);
		};
		one("tiny_string", f.s0);
		one("tiny_string<31>", f.s1);
		one("tstring_view", f.v);
		one("std::string", f.st);
		one("std::string_view", f.sv);
		if constexpr (CStr)
			if (x.find(C()) == Str::npos)
				one("const Char*", f.cs);
	}
	// erase through another string type, check again
	for (size_t i = 0; i < n; ++i)
		if (r.pct(40)) {
			F f(pool[i]);
			size_t e = model.erase(pool[i]);
			c.op("erase", show(pool[i]));
			size_t got;
			if (r.coin())
				got = s.erase(f.v);
			else
				got = s.erase(f.sv);
			c.check(got == e, "erase", "erase through a view of %s returned %zu, expected %zu", show(pool[i]).c_str(), got, e);
		}
	for (size_t i = 0; i < n; ++i) {
		F f(pool[i]);
		c.check(has(s, f.st) == model.count(pool[i]), "find-after-erase", "lookup of %s after erasures", show(pool[i]).c_str());
	}
	c.state(mix(model.size(), n));
}

#define CMP(id, name, C) static Reg id("C19/compare/" name, 15000, 300000, &run_cmp<C, std::char_traits<C>>)
#if PART == 0
CMP(a0, "char", char);
CMP(a1, "wchar", wchar_t);
static Reg a4("C19/compare/case-insensitive", 4000, 100000, &run_cmp<char, CI>);
#elif PART == 1
CMP(a2, "char16", char16_t);
CMP(a3, "char32", char32_t);
#elif PART == 2
using T0 = seq::tstring;
using TW = seq::wtstring;
static Reg b0("C19/lookup/ordered_set/tstring", 3000, 60000, &run_lookup<seq::ordered_set<T0>, char>);
static Reg b1("C19/lookup/ordered_set/string", 3000, 60000, &run_lookup<seq::ordered_set<std::string>, char>);
static Reg b2("C19/lookup/ordered_set/wtstring", 3000, 60000, &run_lookup<seq::ordered_set<TW>, wchar_t>);
static Reg b3("C19/lookup/radix_hash_set/tstring", 3000, 60000, &run_lookup<seq::radix_hash_set<T0>, char>);
static Reg b4("C19/lookup/radix_hash_set/string", 3000, 60000, &run_lookup<seq::radix_hash_set<std::string>, char>);
static Reg b5("C19/lookup/radix_hash_set/view", 3000, 60000, &run_lookup<seq::radix_hash_set<std::string_view>, char>);
#elif PART == 3
using T0 = seq::tstring;
using TW = seq::wtstring;
static Reg d0("C19/lookup/concurrent_set/tstring", 3000, 60000, &run_lookup<seq::concurrent_set<T0>, char>);
static Reg d1("C19/lookup/concurrent_set/wstring", 3000, 60000, &run_lookup<seq::concurrent_set<std::wstring>, wchar_t>);
static Reg d2("C19/lookup/flat_set/tstring", 3000, 60000, &run_lookup<seq::flat_set<T0>, char>);
static Reg d3("C19/lookup/flat_set/string", 3000, 60000, &run_lookup<seq::flat_set<std::string>, char, true>);
static Reg d4("C19/lookup/flat_set/wtstring", 3000, 60000, &run_lookup<seq::flat_set<TW>, wchar_t>);
#else
using T0 = seq::tstring;
static Reg e0("C19/lookup/radix_set/tstring", 3000, 60000, &run_lookup<seq::radix_set<T0>, char>);
static Reg e1("C19/lookup/radix_set/string", 3000, 60000, &run_lookup<seq::radix_set<std::string>, char>);
static Reg e2("C19/lookup/radix_set/wstring", 3000, 60000, &run_lookup<seq::radix_set<std::wstring>, wchar_t>);
#endif
