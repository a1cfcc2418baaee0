// C20: seq::to_chars / seq::from_chars for integers against a naive digit-by-digit reference (itself compared with
// std::to_chars / std::from_chars), for every integer type, base and character type.
#include "mon.hpp"
#include <seq/charconv.hpp>
#include <charconv>
#include <limits>
#include <memory>
#include <string>
using namespace mon;

template<class T>
T rnd_int(Rng& r)
{
	using U = typename std::make_unsigned<T>::type;
	using L = std::numeric_limits<T>;
	switch (r.below(8)) {
		case 0: {
			static const int e[] = { 0, 1, 2, 9, 10, 11, 99, 100, 101, 127 };
			return static_cast<T>(e[r.below(10)]);
		}
		case 1:
			return static_cast<T>(static_cast<U>(L::max()) - static_cast<U>(r.below(3)));
		case 2:
			return static_cast<T>(static_cast<U>(L::min()) + static_cast<U>(r.below(3)));
		case 3: { // around powers of ten
			U p = 1;
			for (size_t k = r.below(20); k; --k)
				p = static_cast<U>(p * 10u);
			return static_cast<T>(static_cast<U>(p + static_cast<U>(r.range(-1, 1))));
		}
		case 4: // around powers of two
			return static_cast<T>(static_cast<U>((static_cast<U>(1) << r.below(sizeof(T) * 8)) + static_cast<U>(r.range(-1, 1))));
		default:
			return static_cast<T>(static_cast<U>(r.next() >> r.below(64)));
	}
}
// naive rendering
template<class T>
std::string digits(T v, unsigned base, unsigned width, bool prefix, bool upper)
{
	bool neg = v < 0;
	unsigned __int128 u = neg ? static_cast<unsigned __int128>(-static_cast<__int128>(v)) : static_cast<unsigned __int128>(v);
	std::string s;
	do {
		unsigned d = static_cast<unsigned>(u % base);
		s.insert(s.begin(), static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)));
		u /= base;
	} while (u);
	while (s.size() < width)
		s.insert(s.begin(), '0');
	if (prefix && base == 16)
		s = "0x" + s;
	if (neg)
		s = "-" + s;
	return s;
}
template<class C>
std::basic_string<C> widen(const std::string& s)
{
	std::basic_string<C> r;
	for (char c : s)
		r.push_back(static_cast<C>(static_cast<unsigned char>(c)));
	return r;
}
template<class C>
std::string narrow(const C* a, const C* b)
{
	std::string r;
	for (; a != b && r.size() < 300; ++a)
		r.push_back(static_cast<unsigned long long>(*a) < 256 ? static_cast<char>(*a) : '?');
	return r;
}

template<class T, class C>
void write_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 12; ++k) {
		T v = rnd_int<T>(r);
		unsigned base = r.coin() ? 10 : r.coin() ? 16 : 2 + r.below(35);
		if (r.pct(10))
			base = 2;
		seq::integral_chars_format f;
		if (r.pct(40))
			f.integral_min_width = static_cast<unsigned char>(r.coin() ? r.below(24) : r.below(256));
		f.hex_prefix = v != 0 && r.pct(30);
		f.upper_case = r.pct(30);
		std::string e = digits(v, base, f.integral_min_width, f.hex_prefix, f.upper_case);
		c.op("to_chars", std::to_string(v), base, f.integral_min_width, f.hex_prefix, f.upper_case);
		if (!f.integral_min_width && !(f.hex_prefix && base == 16) && !f.upper_case) { // the reference itself agrees with the standard
			char sb[80];
			auto sr = std::to_chars(sb, sb + 80, v, static_cast<int>(base));
			c.check(e == std::string(sb, sr.ptr), "reference", "naive rendering differs from std::to_chars");
		}
		// ample or exact-size heap buffer, with guard zones from the allocator
		size_t n = e.size() + (r.coin() ? 0 : r.below(20));
		std::unique_ptr<C[]> b(new C[n]);
		auto res = seq::to_chars(b.get(), b.get() + n, v, static_cast<int>(base), f);
		c.check(res.ec == std::errc(), "to-ec", "to_chars(%s, base %u) failed although %zu characters were available", e.c_str(), base, n);
		c.check(res.ptr >= b.get() && res.ptr <= b.get() + n, "to-ptr", "end pointer outside the buffer");
		std::string got = narrow(b.get(), res.ptr);
		c.check(got == e, "to-text", "to_chars wrote \"%s\", expected \"%s\" (base %u, width %d, prefix %d, upper %d)", got.c_str(), e.c_str(), base, int(f.integral_min_width), int(f.hex_prefix),
			int(f.upper_case));
		// reads back
		T back = static_cast<T>(77);
		auto rr = seq::from_chars(static_cast<const C*>(b.get()), static_cast<const C*>(res.ptr), back, static_cast<int>(base));
		c.check(rr.ec == std::errc(), "back-ec", "from_chars of \"%s\" (base %u) failed", e.c_str(), base);
		c.check(back == v, "back-value", "from_chars of \"%s\" (base %u) gives %s", e.c_str(), base, std::to_string(back).c_str());
		c.check(rr.ptr == res.ptr, "back-ptr", "from_chars of \"%s\" (base %u) stopped after %td of %td characters", e.c_str(), base, rr.ptr - b.get(), res.ptr - b.get());
		c.state(mix(base, mix(e.size(), f.integral_min_width)));
		MON_COUNT("integers_written", 1);
	}
}

inline bool sp(unsigned long long c) { return c == ' ' || (c >= 9 && c <= 13); }
template<class C>
unsigned digit_of(C c)
{
	unsigned long long u = static_cast<unsigned long long>(c);
	if (u >= '0' && u <= '9')
		return static_cast<unsigned>(u - '0');
	if (u >= 'a' && u <= 'z')
		return static_cast<unsigned>(u - 'a' + 10);
	if (u >= 'A' && u <= 'Z')
		return static_cast<unsigned>(u - 'A' + 10);
	return 99;
}
// documented grammar: spaces, sign, 0x in base 16, digits. Overflow wraps.
template<class T>
struct Parsed
{
	bool ok = false;
	T val = 0;
	size_t len = 0;
	bool dangling = false; // "0x" without a digit behind: either reading (0, or an error) is accepted
	bool overflow = false;
};
template<class T, class C>
Parsed<T> parse(const std::basic_string<C>& s, unsigned base)
{
	using U = typename std::make_unsigned<T>::type;
	Parsed<T> p;
	size_t i = 0, n = s.size();
	while (i < n && sp(static_cast<typename std::make_unsigned<C>::type>(s[i])))
		++i;
	bool neg = false;
	if (i < n && (s[i] == C('+') || s[i] == C('-'))) {
		neg = s[i] == C('-');
		if (neg && !std::is_signed<T>::value)
			return p;
		++i;
	}
	if (base == 16 && i + 1 < n && s[i] == C('0') && (s[i + 1] == C('x') || s[i + 1] == C('X'))) {
		if (i + 2 < n && digit_of(s[i + 2]) < 16)
			i += 2;
		else
			p.dangling = true;
	}
	size_t st = i;
	U u = 0;
	unsigned __int128 exact = 0;
	for (; i < n && digit_of(s[i]) < base; ++i) {
		u = static_cast<U>(u * static_cast<U>(base) + static_cast<U>(digit_of(s[i])));
		if (exact < (static_cast<unsigned __int128>(1) << 100))
			exact = exact * base + digit_of(s[i]);
	}
	if (i == st)
		return p;
	p.ok = true;
	p.len = i;
	p.val = static_cast<T>(neg ? static_cast<U>(0 - u) : u);
	unsigned __int128 lim = static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + (neg ? 1 : 0);
	p.overflow = exact > lim;
	return p;
}
template<class T, class C>
void read_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 16; ++k) {
		unsigned base = r.coin() ? 10 : r.coin() ? 16 : 2 + r.below(35);
		std::basic_string<C> s;
		auto junk = [&]() {
			static const int j[] = { 0, 1, '/', ':', '@', '[', '`', '{', '.', '-', '+', 'x', 'X', 'e', 'z', 'Z', ' ', '\n', 0x7f, 0x80, 0xff, 0x131, 0x161, 0x1161, 0xffff, 0xc1 };
			size_t n = sizeof(C) == 1 ? 21 : 26;
			s.push_back(static_cast<C>(j[r.below(n)]));
		};
		if (r.pct(40))
			for (size_t n = r.below(4); n; --n)
				s.push_back(static_cast<C>(" \t\n\v\f\r"[r.below(6)]));
		if (r.pct(10))
			junk();
		if (r.pct(40))
			s.push_back(static_cast<C>("+-"[r.below(2)]));
		if (r.pct(5))
			s.push_back(static_cast<C>("+-"[r.below(2)]));
		if (r.pct(base == 16 ? 40 : 5)) {
			s.push_back(C('0'));
			s.push_back(static_cast<C>("xX"[r.below(2)]));
		}
		if (r.pct(40))
			s += widen<C>(digits(rnd_int<T>(r), base, 0, false, r.coin()));
		else
			for (size_t n = r.below(r.pct(20) ? 70 : 8); n; --n) {
				unsigned d = r.below(r.pct(5) ? 36 : base);
				s.push_back(static_cast<C>(d < 10 ? '0' + d : (r.coin() ? 'a' : 'A') + d - 10));
			}
		if (r.pct(60)) {
			junk();
			for (size_t n = r.below(3); n; --n)
				r.coin() ? junk() : s.push_back(static_cast<C>('0' + r.below(10)));
		}
		c.op("from_chars", narrow(s.data(), s.data() + s.size()), base);
		std::unique_ptr<C[]> b(new C[s.size()]);
		std::copy(s.begin(), s.end(), b.get());
		const C *f = b.get(), *l = f + s.size();
		auto p = parse<T, C>(s, base);
		// the reference agrees with std::from_chars where the grammars coincide
		if (sizeof(C) == 1 && p.ok && !p.overflow && !s.empty() && (digit_of(s[0]) < base || (s[0] == C('-') && s.size() > 1 && digit_of(s[1]) < base)) && base != 16) {
			T sv = 0;
			std::string ns = narrow(f, l);
			auto q = std::from_chars(ns.data(), ns.data() + ns.size(), sv, static_cast<int>(base));
			c.check(q.ec == std::errc() && sv == p.val && size_t(q.ptr - ns.data()) == p.len, "reference", "naive parser differs from std::from_chars");
			MON_COUNT("std_from_chars_compared", 1);
		}
		T v = static_cast<T>(55);
		auto q = seq::from_chars(f, l, v, static_cast<int>(base));
		auto txt = narrow(f, l);
		if (p.dangling && q.ec != std::errc())
			p.ok = false;
		if (p.ok) {
			c.check(q.ec == std::errc(), "from-ec", "\"%s\" (base %u) rejected, expected %s", txt.c_str(), base, std::to_string(p.val).c_str());
			c.check(v == p.val, "from-value", "\"%s\" (base %u) read as %s, expected %s", txt.c_str(), base, std::to_string(v).c_str(), std::to_string(p.val).c_str());
			c.check(q.ptr == f + p.len, "from-ptr", "\"%s\" (base %u) consumed %td characters, expected %zu", txt.c_str(), base, q.ptr - f, p.len);
			MON_COUNT("texts_accepted", 1);
			if (p.overflow)
				MON_COUNT("texts_overflowing", 1);
		}
		else {
			c.check(q.ec == std::errc::invalid_argument, "from-bad-ec", "\"%s\" (base %u) accepted as %s", txt.c_str(), base, std::to_string(v).c_str());
			c.check(q.ptr == f, "from-bad-ptr", "\"%s\" (base %u) rejected with a pointer %td characters further", txt.c_str(), base, q.ptr - f);
			c.check(v == 0, "from-bad-value", "\"%s\" (base %u) rejected but value set to %s", txt.c_str(), base, std::to_string(v).c_str());
			MON_COUNT("texts_rejected", 1);
		}
		c.state(mix(base, mix(p.len, mix(s.size(), p.ok))));
	}
}
#define BOTH(T, C, id) static Reg w_##id("C20/write/" #T "/" #C, 4000, 100000, &write_case<T, C>); static Reg r_##id("C20/read/" #T "/" #C, 4000, 100000, &read_case<T, C>);
using schar = signed char;
using uchar = unsigned char;
using ushort_ = unsigned short;
using uint_ = unsigned;
using ulong_ = unsigned long;
using llong = long long;
using ullong = unsigned long long;
#if PART == 0
BOTH(char, char, 0)
BOTH(schar, char, 1)
BOTH(uchar, char, 2)
BOTH(short, char, 3)
BOTH(ushort_, char, 4)
BOTH(int, char, 5)
#elif PART == 1
BOTH(uint_, char, 0)
BOTH(long, char, 1)
BOTH(ulong_, char, 2)
BOTH(llong, char, 3)
BOTH(ullong, char, 4)
#else
BOTH(int, wchar_t, 0)
BOTH(ulong_, wchar_t, 1)
BOTH(int, char16_t, 2)
BOTH(ulong_, char16_t, 3)
BOTH(int, char32_t, 4)
BOTH(long, char32_t, 5)
#endif
