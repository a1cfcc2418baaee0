// C21: seq::from_chars for float, double and long double against the documented grammar and strtof/strtod/strtold.
#include "mon.hpp"
#include <seq/charconv.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
using namespace mon;

inline bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool dg(int c) { return c >= '0' && c <= '9'; }
struct Gram
{
	bool ok = false;
	size_t len = 0;
	std::string num; // text for strto*, '.' as dot
	bool nan = false, inf = false, neg = false;
};
// documented grammar; fmt as in std::from_chars: fixed excludes an exponent, scientific requires it
inline Gram parse(const std::string& s, int fmt, char dot)
{
	Gram g;
	size_t i = 0, n = s.size();
	auto at = [&](size_t k) { return k < n ? static_cast<unsigned char>(s[k]) : 0x1000; };
	auto lo = [&](size_t k) { int c = at(k); return c >= 'A' && c <= 'Z' ? c + 32 : c; };
	while (i < n && sp(at(i)))
		++i;
	bool sign = false;
	if (at(i) == '+' || at(i) == '-') {
		sign = true;
		g.neg = at(i) == '-';
		++i;
	}
	if (!sign && lo(i) == 'n' && lo(i + 1) == 'a' && lo(i + 2) == 'n') {
		g.ok = g.nan = true;
		g.len = i + 3;
		return g;
	}
	if (lo(i) == 'i' && lo(i + 1) == 'n' && lo(i + 2) == 'f') {
		g.ok = g.inf = true;
		g.len = i + 3;
		return g;
	}
	size_t nd = 0;
	while (dg(at(i)))
		g.num += static_cast<char>(at(i++)), ++nd;
	if (at(i) == static_cast<unsigned char>(dot)) {
		size_t k = i + 1, fd = 0;
		std::string f = ".";
		while (dg(at(k)))
			f += static_cast<char>(at(k++)), ++fd;
		if (nd + fd) {
			g.num += f;
			i = k;
			nd += fd;
		}
	}
	if (!nd)
		return g;
	bool has_exp = false;
	if (fmt != seq::fixed && lo(i) == 'e') {
		size_t k = i + 1;
		std::string e = "e";
		if (at(k) == '+' || at(k) == '-')
			e += static_cast<char>(at(k++));
		size_t st = k;
		while (dg(at(k)))
			e += static_cast<char>(at(k++));
		if (k != st) {
			has_exp = true;
			g.num += e;
			i = k;
		}
	}
	if (fmt == seq::scientific && !has_exp)
		return g;
	g.ok = true;
	g.len = i;
	return g;
}
template<class T>
T exact(const char* s);
template<>
inline float exact<float>(const char* s)
{
	return strtof(s, nullptr);
}
template<>
inline double exact<double>(const char* s)
{
	return strtod(s, nullptr);
}
template<>
inline long double exact<long double>(const char* s)
{
	return strtold(s, nullptr);
}
template<class T>
bool close(T got, T e)
{
	using L = std::numeric_limits<T>;
	if (std::isnan(got))
		return false;
	if (got == e)
		return true;
	if (std::isinf(e))
		return got >= L::max() * (1 - 32 * L::epsilon());
	if (std::isinf(got))
		return e >= L::max() * (1 - 32 * L::epsilon());
	T d = got > e ? got - e : e - got;
	return d <= e * (sizeof(T) > 8 ? 16 : 10) * L::epsilon() || d <= 4 * L::denorm_min();
}
template<class C>
std::basic_string<C> widen(const std::string& s)
{
	std::basic_string<C> r;
	for (char c : s)
		r.push_back(static_cast<C>(static_cast<unsigned char>(c)));
	return r;
}
inline std::string rnd_digits(Rng& r, size_t n, bool lead0)
{
	std::string s;
	unsigned mode = r.below(4);
	for (size_t i = 0; i < n; ++i)
		s.push_back(static_cast<char>('0' + (mode == 0 ? 9 : mode == 1 ? r.below(2) : r.below(10))));
	if (lead0)
		for (size_t i = r.below(n + 1); i--;)
			s[i] = '0';
	return s;
}
template<class T>
std::string gen(Rng& r, char dot)
{
	std::string s;
	if (r.pct(20))
		for (size_t n = r.below(4); n; --n)
			s.push_back(" \t\n\v\f\r"[r.below(6)]);
	if (r.pct(30))
		s.push_back("+-"[r.below(2)]);
	if (r.pct(30)) { // a printed value
		char b[6000];
		T v;
		if (sizeof(T) == 4) {
			uint32_t u = static_cast<uint32_t>(r.next());
			float f;
			memcpy(&f, &u, 4);
			v = f;
		}
		else {
			uint64_t u = r.next();
			double f;
			memcpy(&f, &u, 8);
			v = static_cast<T>(f);
		}
		if (r.pct(40))
			v = static_cast<T>(static_cast<double>(static_cast<int64_t>(r.next() >> r.below(60))) / std::pow(10., double(r.below(15))));
		const char* f[] = { "%.*Lg", "%.*Le", "%.*Lf" };
		snprintf(b, sizeof b, f[r.below(3)], int(r.below(25)), static_cast<long double>(std::fabs(v)));
		if (strlen(b) < 700)
			s += b;
		for (char& c : s)
			if (c == '.')
				c = dot;
	}
	else if (r.pct(6)) {
		const char* w[] = { "nan", "NaN", "inf", "INF", "infinity", "Inf", "na", "in", "nanx", "infx", "i", "n" };
		s += w[r.below(12)];
	}
	else {
		size_t k = r.below(10);
		s += rnd_digits(r, k < 5 ? r.below(5) : k < 8 ? r.below(25) : k < 9 ? 17 + r.below(4) : r.below(400), r.pct(20));
		if (r.pct(60)) {
			s.push_back(r.pct(95) ? dot : '.');
			k = r.below(10);
			s += rnd_digits(r, k < 5 ? r.below(5) : k < 8 ? r.below(25) : k < 9 ? 17 + r.below(4) : r.below(400), r.pct(40));
		}
	}
	if (r.pct(50)) {
		s.push_back("eE"[r.below(2)]);
		if (r.pct(60))
			s.push_back("+-"[r.below(2)]);
		int M = std::numeric_limits<T>::max_exponent10;
		switch (r.below(6)) {
			case 0:
				s += std::to_string(r.below(20));
				break;
			case 1:
				s += std::to_string(M - 20 + int(r.below(60)));
				break;
			case 2:
				s += std::to_string(r.below(size_t(M) + 50));
				break;
			case 3:
				s += rnd_digits(r, r.below(25), r.coin());
				break;
			case 4:
				break;
			default:
				s += std::to_string(r.below(400));
		}
	}
	if (r.pct(40)) {
		static const char j[] = " x.e-+,\xff\x80/:\0";
		for (size_t n = 1 + r.below(3); n; --n)
			s.push_back(r.pct(70) ? j[r.below(12)] : static_cast<char>('0' + r.below(10)));
	}
	return s;
}
template<class T, class C>
void read_case(Ctx& c)
{
	Rng& r = c.rng;
	using L = std::numeric_limits<T>;
	for (int k = 0; k < 10; ++k) {
		char dot = r.pct(80) ? '.' : r.coin() ? ',' : ';';
		seq::chars_format fmt = r.pct(70) ? seq::general : r.coin() ? seq::fixed : seq::scientific;
		std::string s = gen<T>(r, dot);
		c.op("from_chars", s, int(fmt), dot);
		auto w = widen<C>(s);
		std::unique_ptr<C[]> b(new C[w.size()]);
		std::copy(w.begin(), w.end(), b.get());
		const C *f = b.get(), *l = f + w.size();
		Gram g = parse(s, fmt, dot);
		T v = 123;
		auto q = seq::from_chars(f, l, v, fmt, dot);
		const char* fn = fmt == seq::general ? "general" : fmt == seq::fixed ? "fixed" : "scientific";
		if (!g.ok) {
			c.check(q.ec == std::errc::invalid_argument, "bad-ec", "\"%.200s\" (%s) accepted as %.20Lg", s.c_str(), fn, static_cast<long double>(v));
			c.check(q.ptr == f, "bad-ptr", "\"%.200s\" (%s) rejected, pointer moved by %td", s.c_str(), fn, q.ptr - f);
			c.check(v == 0, "bad-value", "\"%.200s\" (%s) rejected but the value is %Lg", s.c_str(), fn, static_cast<long double>(v));
			MON_COUNT("texts_rejected", 1);
			continue;
		}
		MON_COUNT("texts_accepted", 1);
		c.check(q.ec == std::errc(), "ec", "\"%.200s\" (%s) rejected", s.c_str(), fn);
		c.check(q.ptr == f + g.len, "ptr", "\"%.200s\" (%s) consumed %td characters, expected %zu", s.c_str(), fn, q.ptr - f, g.len);
		if (g.nan) {
			c.check(std::isnan(v), "nan", "\"%.200s\" read as %Lg", s.c_str(), static_cast<long double>(v));
			continue;
		}
		c.check(std::signbit(v) == g.neg, "sign", "\"%.200s\" read as %Lg, wrong sign", s.c_str(), static_cast<long double>(v));
		T a = v < 0 ? -v : v;
		if (g.inf) {
			c.check(std::isinf(v), "inf", "\"%.200s\" read as %Lg", s.c_str(), static_cast<long double>(v));
			continue;
		}
		T e = exact<T>(g.num.c_str());
		c.check(close<T>(a, e), "value", "\"%.200s\" (%s) read as %.21Lg, expected %.21Lg", s.c_str(), fn, static_cast<long double>(a), static_cast<long double>(e));
		if (e != 0 && e < L::min())
			MON_COUNT("subnormal_values", 1);
		if (std::isinf(e))
			MON_COUNT("overflowing_values", 1);
		if (a == e)
			MON_COUNT("exactly_rounded", 1);
		c.state(mix(static_cast<uint64_t>(e == 0 || std::isinf(e) ? 5000 : std::ilogb(e)), mix(g.len, fmt)));
	}
}
// small decimal integers and terminating dyadic fractions are exact
template<class T>
void exact_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 20; ++k) {
		int64_t v = static_cast<int64_t>(r.next() >> (64 - 1 - r.below(sizeof(T) == 4 ? 23 : 52)));
		std::string s = std::to_string(v);
		if (r.coin())
			s = "-" + s, v = -v;
		if (r.coin())
			s += r.coin() ? ".0" : r.coin() ? "." : ".000000";
		c.op("exact", s);
		T x = 5;
		auto q = seq::from_chars(s.data(), s.data() + s.size(), x);
		c.check(q.ec == std::errc() && q.ptr == s.data() + s.size(), "exact-parse", "\"%s\" not fully read", s.c_str());
		c.check(x == static_cast<T>(v), "exact-value", "\"%s\" read as %.20Lg", s.c_str(), static_cast<long double>(x));
		c.state(mix(s.size(), v & 1023));
	}
}
#define RD(id, T, C) static Reg id("C21/read/" #T "/" #C, 16000, 400000, &read_case<T, C>)
using ldouble = long double;
RD(a0, double, char);
RD(a1, float, char);
RD(a2, ldouble, char);
RD(a3, double, wchar_t);
RD(a4, double, char16_t);
RD(a5, float, char32_t);
static Reg b0("C21/exact/double", 4000, 100000, &exact_case<double>);
static Reg b1("C21/exact/float", 4000, 100000, &exact_case<float>);
