// C29: hash functions. Determinism whatever the alignment and surroundings, reference algorithms, equal hashes for equal
// values of every type, exact-size reads, sensitivity to every bit, and spread over the buckets.
#include "mon.hpp"
#include <seq/hash.hpp>
#include <seq/tiny_string.hpp>
#include <cmath>
#include <memory>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_set>
#include <vector>
using namespace mon;

static uint64_t ref_fnv(const unsigned char* p, size_t n)
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (size_t i = 0; i < n; ++i)
		h = (h ^ p[i]) * 0x100000001b3ull;
	return h;
}
static uint64_t ref_murmur(const unsigned char* p, size_t n)
{
	const uint64_t m = 0xc6a4a7935bd1e995ull;
	uint64_t h = 3782874213ull ^ (n * m);
	size_t i = 0;
	for (; i + 8 <= n; i += 8) {
		uint64_t k = 0;
		for (int j = 7; j >= 0; --j)
			k = (k << 8) | p[i + size_t(j)];
		k *= m;
		k ^= k >> 47;
		k *= m;
		h ^= k;
		h *= m;
	}
	if (i < n) {
		for (size_t j = n; j-- > i;)
			h ^= static_cast<uint64_t>(p[j]) << (8 * (j - i));
		h *= m;
	}
	h ^= h >> 47;
	h *= m;
	return h ^ (h >> 47);
}
static size_t H(int which, const void* p, size_t n) { return which == 0 ? seq::hash_bytes_komihash(p, n) : which == 1 ? seq::hash_bytes_murmur64(p, n) : seq::hash_bytes_fnv1a(p, n); }

static void bytes_case(Ctx& c)
{
	Rng& r = c.rng;
	static const char* nm[] = { "komihash", "murmur64", "fnv1a" };
	size_t n = r.pct(70) ? r.below(70) : r.below(400);
	std::vector<unsigned char> d(n);
	for (auto& x : d)
		x = r.pct(30) ? static_cast<unsigned char>(r.below(2) * 255) : static_cast<unsigned char>(r.next());
	c.op("bytes", n, ref_fnv(d.data(), n));
	for (int w = 0; w < 3; ++w) {
		c.op("algorithm", w, n);
		size_t h0 = 0;
		for (size_t off = 0; off < 9; ++off) {
			// ends exactly at the end of its block, after random bytes
			std::unique_ptr<unsigned char[]> b(new unsigned char[n + off]);
			for (size_t k = 0; k < off; ++k)
				b[k] = static_cast<unsigned char>(r.next());
			if (n)
				memcpy(b.get() + off, d.data(), n);
			size_t h = H(w, b.get() + off, n);
			if (off == 0)
				h0 = h;
			c.check(h == h0, "alignment", "%s of the same %zu bytes changes with their address", nm[w], n);
			// followed by random bytes
			std::unique_ptr<unsigned char[]> a(new unsigned char[n + 8]);
			if (n)
				memcpy(a.get(), d.data(), n);
			for (size_t k = 0; k < 8; ++k)
				a[n + k] = static_cast<unsigned char>(r.next());
			c.check(H(w, a.get(), n) == h0, "surroundings", "%s of the same %zu bytes changes with the bytes around", nm[w], n);
			MON_COUNT("bytes_hashed", 2);
		}
		if (w == 1)
			c.check(h0 == ref_murmur(d.data(), n), "murmur", "murmur64 of %zu bytes differs from the reference algorithm", n);
		if (w == 2)
			c.check(h0 == ref_fnv(d.data(), n), "fnv1a", "fnv1a of %zu bytes differs from the reference algorithm", n);
		if (n == 0)
			c.check(H(w, nullptr, 0) == h0, "null", "%s of an empty range depends on its address", nm[w]);
		// every bit counts
		auto e = d;
		for (size_t k = 0; k < n; ++k) {
			unsigned char bit = static_cast<unsigned char>(1u << r.below(8));
			e[k] ^= bit;
			c.check(H(w, e.data(), n) != h0, "bit", "%s of %zu bytes ignores a bit of byte %zu", nm[w], n, k);
			e[k] ^= bit;
			MON_COUNT("bit_flips", 1);
		}
		e.push_back(0);
		c.check(H(w, e.data(), n + 1) != h0, "length", "%s of %zu bytes ignores a trailing zero", nm[w], n);
		for (size_t k = 0; k < n; ++k)
			c.check(H(w, e.data(), k) != h0, "length", "%s of %zu bytes equals that of its first %zu", nm[w], n, k);
		c.state(mix(h0 & 1023, n));
	}
}

template<class T>
static size_t hv(const T& v)
{
	return seq::hasher<T>{}(v);
}
template<class T>
static void same(Ctx& c, const T& a, const T& b, const char* what)
{
	// a == b, maybe with different representations
	c.check(a == b, "setup", "%s values are not equal", what);
	c.check(hv(a) == hv(b), "equal", "equal values of type %s have different hashes", what);
	c.check(seq::hash_value(seq::hasher<T>{}, a) == seq::hash_value(seq::hasher<T>{}, b), "equal", "equal values of type %s have different hash_value", what);
	MON_COUNT("equal_pairs", 1);
}
template<class T>
static void scalar(Ctx& c, const char* what, T v)
{
	alignas(16) unsigned char mem[2][sizeof(T) + 16];
	for (auto& m : mem)
		for (auto& x : m)
			x = static_cast<unsigned char>(c.rng.next());
	T* a = new (mem[0]) T(v);
	T* b = new (mem[1]) T(v);
	c.op(what, static_cast<double>(v));
	same<T>(c, *a, *b, what);
	c.state(mix(hstr(what), hv(v) & 255));
}
enum class E8 : unsigned char { a, b };
enum class E16 : short { a, b };
enum E32 { ea, eb };
enum class E64 : uint64_t { a, b };

template<class C>
static void string_hash(Ctx& c, const char* what)
{
	Rng& r = c.rng;
	std::basic_string<C> s;
	size_t n = r.pct(80) ? r.below(40) : r.below(300);
	for (size_t k = 0; k < n; ++k)
		s.push_back(static_cast<C>(r.coin() ? r.next() : r.below(3)));
	using A = std::allocator<C>;
	using Tr = std::char_traits<C>;
	size_t h = seq::hasher<std::basic_string<C>>{}(s);
	c.op(what, n, h);
	std::unique_ptr<C[]> ex(new C[n]);
	std::copy(s.begin(), s.end(), ex.get());
	std::basic_string_view<C> v(ex.get(), n);
	auto chk = [&](const char* t, size_t x) {
		c.check(x == h, "string", "%s: equal strings of %zu characters have a different hash as %s", what, n, t);
		MON_COUNT("string_hashes", 1);
	};
	using T0 = seq::tiny_string<C, Tr, A, 0>;
	using T40 = seq::tiny_string<C, Tr, A, 40>;
	using V = seq::basic_tstring_view<C>;
	T0 t0(s.data(), n);
	T40 t40(s.data(), n);
	V tv(ex.get(), n);
	std::string dummy;
	// every hasher, on every kind of string (heterogeneous lookup)
	auto all = [&](auto hs, const char* t) {
		chk(t, hs(s));
		chk(t, hs(v));
		chk(t, hs(t0));
		chk(t, hs(t40));
		chk(t, hs(tv));
		if (s.find(C(0)) == s.npos)
			chk(t, hs(s.c_str()));
	};
	all(seq::hasher<std::basic_string<C>>{}, "hasher<std::string>");
	all(seq::hasher<std::basic_string_view<C>>{}, "hasher<std::string_view>");
	all(seq::hasher<T0>{}, "hasher<tiny_string>");
	all(seq::hasher<T40>{}, "hasher<tiny_string 40>");
	all(seq::hasher<V>{}, "hasher<tstring_view>");
	all(std::hash<T0>{}, "std::hash<tiny_string>");
	all(std::hash<T40>{}, "std::hash<tiny_string 40>");
	all(std::hash<V>{}, "std::hash<tstring_view>");
	// other allocated capacity
	t0.reserve(n + 100);
	chk("larger capacity", seq::hasher<T0>{}(t0));
	c.check(seq::hasher<V>{}(V()) == seq::hasher<std::basic_string<C>>{}(std::basic_string<C>()), "string", "%s: hash of a default view", what);
}
static void values_case(Ctx& c)
{
	Rng& r = c.rng;
	uint64_t x = r.next() >> r.below(64);
	c.op("values", x);
	scalar<char>(c, "char", static_cast<char>(x));
	scalar<signed char>(c, "schar", static_cast<signed char>(x));
	scalar<unsigned char>(c, "uchar", static_cast<unsigned char>(x));
	scalar<bool>(c, "bool", x & 1);
	scalar<short>(c, "short", static_cast<short>(x));
	scalar<unsigned short>(c, "ushort", static_cast<unsigned short>(x));
	scalar<int>(c, "int", static_cast<int>(x));
	scalar<unsigned>(c, "unsigned", static_cast<unsigned>(x));
	scalar<long>(c, "long", static_cast<long>(x));
	scalar<unsigned long>(c, "ulong", x);
	scalar<long long>(c, "llong", static_cast<long long>(x));
	scalar<unsigned long long>(c, "ullong", x);
	scalar<wchar_t>(c, "wchar", static_cast<wchar_t>(x));
	scalar<char16_t>(c, "char16", static_cast<char16_t>(x));
	scalar<char32_t>(c, "char32", static_cast<char32_t>(x));
	scalar<float>(c, "float", static_cast<float>(x) / 7);
	scalar<double>(c, "double", static_cast<double>(x) / 7);
	scalar<long double>(c, "ldouble", static_cast<long double>(x) / 7);
	scalar<E8>(c, "enum8", static_cast<E8>(x));
	scalar<E16>(c, "enum16", static_cast<E16>(x));
	scalar<E32>(c, "enum32", static_cast<E32>(x & 1));
	scalar<E64>(c, "enum64", static_cast<E64>(x));
	// zeros compare equal
	same<float>(c, 0.f, -0.f, "float zero");
	same<double>(c, 0., -0., "double zero");
	same<std::pair<double, int>>(c, { 0., 1 }, { -0., 1 }, "pair of zero");
	same<std::pair<float, double>>(c, { -0.f, 0. }, { 0.f, -0. }, "pair of zeros");
	same<std::tuple<int, float, double>>(c, std::make_tuple(3, -0.f, 0.), std::make_tuple(3, 0.f, -0.), "tuple of zeros");
	// enumerations are looked up with integers
	c.check(seq::hasher<E8>{}(static_cast<unsigned char>(x)) == hv(static_cast<E8>(x)), "enum", "hash of an enumeration differs from that of its value");
	c.check(seq::hasher<E16>{}(static_cast<short>(x)) == hv(static_cast<E16>(x)), "enum", "hash of an enumeration differs from that of its value");
	c.check(seq::hasher<E16>{}(int(static_cast<short>(x))) == hv(static_cast<E16>(x)), "enum", "hash of an enumeration differs from that of its value as an int");
	c.check(seq::hasher<E64>{}(x) == hv(static_cast<E64>(x)), "enum", "hash of an enumeration differs from that of its value");
	// smart pointers are looked up with pointers
	std::unique_ptr<int> u(r.coin() ? new int(3) : nullptr);
	c.check(hv(u) == seq::hasher<std::unique_ptr<int>>{}(u.get()) && hv(u) == seq::hasher<int*>{}(u.get()), "pointer", "hash of a unique_ptr differs from that of its pointer");
	std::shared_ptr<int> s(r.coin() ? new int(3) : nullptr), s2 = s;
	c.check(hv(s) == seq::hasher<std::shared_ptr<int>>{}(s.get()) && hv(s) == hv(s2), "pointer", "hash of a shared_ptr differs from that of its pointer");
	std::unique_ptr<int> moved = std::move(u);
	c.check(hv(u) == seq::hasher<int*>{}(nullptr), "pointer", "hash of an empty unique_ptr");
	// composed
	std::string a = "k" + std::to_string(x), b = a;
	b.reserve(500);
	same<std::pair<std::string, int>>(c, { a, int(x) }, { b, int(x) }, "pair of string");
	same<std::tuple<std::string, seq::tstring, uint64_t>>(c, std::make_tuple(a, seq::tstring(a.c_str()), x), std::make_tuple(b, seq::tstring(b.c_str()), x), "tuple");
	same<std::pair<std::pair<int, std::string>, std::tuple<double>>>(c, { { 1, a }, std::make_tuple(1.5) }, { { 1, b }, std::make_tuple(1.5) }, "nested");
	struct P
	{
		char c;
		int64_t v;
	};
	(void)sizeof(P);
	{
		// padding bytes of a pair do not count
		alignas(16) unsigned char m1[sizeof(std::pair<char, int64_t>)], m2[sizeof(std::pair<char, int64_t>)];
		memset(m1, 0xAA, sizeof m1);
		memset(m2, 0x55, sizeof m2);
		auto* p = new (m1) std::pair<char, int64_t>(static_cast<char>(x), int64_t(x));
		auto* q = new (m2) std::pair<char, int64_t>(static_cast<char>(x), int64_t(x));
		same(c, *p, *q, "padded pair");
	}
	// order and position of the members count
	int64_t i = int64_t(x), j = int64_t(x) + 1 + int64_t(r.below(1000));
	c.check(hv(std::make_pair(i, j)) != hv(std::make_pair(j, i)), "position", "hash of a pair ignores the order of its members");
	c.check(hv(std::make_tuple(i, j, i)) != hv(std::make_tuple(j, i, i)) && hv(std::make_tuple(i, j, i)) != hv(std::make_tuple(i, i, j)), "position", "hash of a tuple ignores the order of its members");
	c.check(hv(i) != hv(j), "injective", "two 64 bits integers share a hash");
	string_hash<char>(c, "char string");
	string_hash<wchar_t>(c, "wchar_t string");
	if (r.pct(20)) {
		string_hash<char16_t>(c, "char16_t string");
		string_hash<char32_t>(c, "char32_t string");
	}
	if (r.pct(2)) {
		size_t h1 = 0, h2 = hv(a);
		std::thread t([&] { h1 = hv(a); });
		t.join();
		c.check(h1 == h2, "thread", "hash of a string depends on the thread");
		MON_COUNT("threads", 1);
	}
}

// Spread of n keys over buckets taken from the low or high bits
template<class T>
static void spread(Ctx& c, const char* what, const std::vector<T>& keys)
{
	std::vector<size_t> hs;
	hs.reserve(keys.size());
	for (auto& k : keys)
		hs.push_back(seq::hash_value(seq::hasher<T>{}, k));
	c.op(what, keys.size(), hs[0]);
	auto u = hs;
	std::sort(u.begin(), u.end());
	size_t distinct = size_t(std::unique(u.begin(), u.end()) - u.begin());
	c.check(distinct == keys.size(), "collisions", "%s: %zu distinct keys have %zu distinct hashes", what, keys.size(), distinct);
	size_t bits = 0;
	while ((size_t(1) << bits) < keys.size())
		++bits;
	auto occupancy = [&](const char* part, auto get, size_t nb) {
		std::vector<unsigned> cnt(nb);
		for (size_t h : hs)
			++cnt[get(h)];
		size_t used = 0, worst = 0;
		for (unsigned k : cnt)
			used += k > 0, worst = std::max<size_t>(worst, k);
		double expect = 1 - std::exp(-double(keys.size()) / double(nb)); // random placement
		double ratio = double(used) / double(nb) / expect;
		size_t limit = 100 + 16 * (keys.size() / nb);
		c.state(mix(hstr(what), mix(hstr(part), uint64_t(ratio * 20))));
		if (getenv("HASH_SHOW"))
			fprintf(stderr, "%-28s %-5s used/random %.3f worst %zu of %zu\n", what, part, ratio, worst, keys.size() / nb);
		c.check(ratio > 0.15, "clustering", "%s: %zu keys use %zu of %zu buckets by the %s bits (%.0f%% of a random placement)", what, keys.size(), used, nb, part, ratio * 100);
		c.check(worst <= limit, "clustering", "%s: %zu keys in one of %zu buckets by the %s bits", what, worst, nb, part);
		c.op(part, nb, used, worst);
		MON_COUNT("spreads", 1);
	};
	size_t nb = size_t(1) << bits;
	occupancy("low", [&](size_t h) { return h & (nb - 1); }, nb);
	occupancy("high", [&](size_t h) { return h >> (64 - bits); }, nb);
	occupancy("low7", [&](size_t h) { return h & 127; }, 128);
	occupancy("top8", [&](size_t h) { return h >> 56; }, 256);
	occupancy("mid8", [&](size_t h) { return (h >> bits) & 255; }, 256);
}
static void spread_case(Ctx& c)
{
	Rng& r = c.rng;
	size_t n = 512 << r.below(5);
	switch (r.below(12)) {
		case 0: case 1: { // arithmetic progressions
			std::vector<uint64_t> k;
			uint64_t st = uint64_t(1) << r.below(40), b = r.coin() ? 0 : r.next();
			for (size_t i = 0; i < n; ++i)
				k.push_back(b + i * st);
			spread(c, "64 bits progression", k);
			break;
		}
		case 2: {
			std::vector<int> k;
			int st = 1 << r.below(16);
			for (size_t i = 0; i < n; ++i)
				k.push_back(static_cast<int>(static_cast<unsigned>(i) * static_cast<unsigned>(st) + 77u));
			spread(c, "int progression", k);
			break;
		}
		case 3: {
			std::vector<double> k;
			double st = r.coin() ? 1 : r.coin() ? 0.1 : 1 / 1024.;
			for (size_t i = 0; i < n; ++i)
				k.push_back(double(i) * st);
			spread(c, "doubles", k);
			break;
		}
		case 4: {
			std::vector<float> k;
			for (size_t i = 0; i < n; ++i)
				k.push_back(float(i) * 0.5f);
			spread(c, "floats", k);
			break;
		}
		case 5: {
			std::vector<int*> k;
			uintptr_t st = uintptr_t(8) << r.below(10);
			for (size_t i = 0; i < n; ++i)
				k.push_back(reinterpret_cast<int*>(uintptr_t(0x7f0000001000) + i * st));
			spread(c, "pointers", k);
			break;
		}
		case 6: case 7: { // common prefix and suffix around a counter
			std::string pre(r.below(100), 'p'), suf(r.below(40), 's');
			if (r.coin()) {
				std::vector<std::string> k;
				for (size_t i = 0; i < n; ++i)
					k.push_back(pre + std::to_string(i) + suf);
				spread(c, "numbered strings", k);
			}
			else {
				std::vector<seq::tstring> k;
				for (size_t i = 0; i < n; ++i)
					k.push_back(seq::tstring((pre + std::to_string(i) + suf).c_str()));
				spread(c, "numbered tiny strings", k);
			}
			break;
		}
		case 8: { // two bytes vary anywhere
			std::string base(2 + r.below(80), char(r.next()));
			size_t a = r.below(base.size()), b = (a + 1 + r.below(base.size() - 1)) % base.size();
			std::vector<std::string> k;
			for (size_t i = 0; i < n; ++i) {
				base[a] = char(i);
				base[b] = char(i >> 8);
				k.push_back(base);
			}
			spread(c, "two bytes", k);
			break;
		}
		case 9: {
			std::vector<std::pair<int, int>> k;
			int w = 1 << r.below(7);
			for (size_t i = 0; i < n; ++i)
				k.emplace_back(int(i) % w, int(i) / w);
			spread(c, "grid of pairs", k);
			break;
		}
		case 10: {
			std::vector<std::tuple<int, short, double>> k;
			for (size_t i = 0; i < n; ++i)
				k.emplace_back(int(i) & 15, short((i >> 4) & 15), double(i >> 8));
			spread(c, "grid of tuples", k);
			break;
		}
		default: {
			std::vector<std::pair<std::string, unsigned>> k;
			for (size_t i = 0; i < n; ++i)
				k.emplace_back("n" + std::to_string(i & 31), unsigned(i >> 5));
			spread(c, "pairs of string", k);
		}
	}
}
static Reg a0("C29/bytes", 6000, 200000, &bytes_case);
static Reg a1("C29/values", 6000, 200000, &values_case);
static Reg a2("C29/spread", 1500, 40000, &spread_case);
