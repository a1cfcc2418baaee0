// C22/C23: seq::to_chars for floating point values against printf.
#pragma once
#include "mon.hpp"
#include <seq/charconv.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
namespace fltw {
using namespace mon;
template<class T>
T rnd_value(Rng& r)
{
	T v;
	switch (r.below(10)) {
		case 0: {
			static const double e[] = { 0, 1, 0.5, 0.25, 1.5, 2.5, 10, 100, 1e15, 1e16, 1e17, 1e-4, 1e-5, 0.1, 0.09, 0.95, 9.5, 99.5, 999999.5, 9.9999995, 1e-15, 123456, 1234567, 0.0001234 };
			v = static_cast<T>(e[r.below(24)]);
			break;
		}
		case 1: // any finite bit pattern
			do {
				if (sizeof(T) == 4) {
					uint32_t u = static_cast<uint32_t>(r.next());
					float f;
					memcpy(&f, &u, 4);
					v = f;
				}
				else {
					uint64_t u = r.next();
					double f;
					memcpy(&f, &u, 8);
					v = static_cast<T>(f);
				}
			} while (!std::isfinite(v));
			if (sizeof(T) > 8 && r.pct(30))
				v = std::pow(10.0L, static_cast<long double>(r.range(-4900, 4900))) * static_cast<long double>(1 + r.below(1000000));
			break;
		case 2: { // decimal with few digits
			T d = static_cast<T>(r.below(size_t(1) << r.below(40)));
			v = d / static_cast<T>(std::pow(10.0L, static_cast<long double>(r.below(16))));
			break;
		}
		case 3: // dyadic: exact ties
			v = static_cast<T>(r.below(100000)) / static_cast<T>(1 << r.below(8));
			break;
		case 4: { // around powers of ten
			int M = std::min(std::numeric_limits<T>::max_exponent10 - 1, 320);
			v = static_cast<T>(std::pow(10.0L, static_cast<long double>(r.range(r.coin() ? -M : -20, r.coin() ? M : 20))));
			if (r.coin())
				v = std::nextafter(v, r.coin() ? T(0) : v * 2);
			break;
		}
		case 5: // integers
			v = static_cast<T>(r.next() >> r.below(64));
			break;
		default: {
			T m = static_cast<T>(r.next()) / static_cast<T>(1ull << 60);
			int M = std::numeric_limits<T>::max_exponent10;
			int e = r.pct(70) ? int(r.range(-25, 25)) : int(r.range(-std::min(M, 300), std::min(M, 300) - 2));
			v = m * static_cast<T>(std::pow(10.0L, static_cast<long double>(e)));
		}
	}
	if (!std::isfinite(v))
		v = 1;
	return r.pct(30) ? -v : v;
}
struct Shape
{
	bool ok = false;
	std::string why;
	bool neg = false, sci = false;
	size_t ints = 0, fracs = 0;
	int exp = 0;
	std::string plain; // with '.' and 'e'
};
// [-]digits[.digits][e(+|-)dd[d*]], no superfluous zero
inline Shape shape(const std::string& s, char dot, char ec)
{
	Shape r;
	size_t i = 0;
	auto bad = [&](const char* w) {
		r.why = w;
		return r;
	};
	if (i < s.size() && s[i] == '-')
		r.neg = true, ++i, r.plain = "-";
	size_t st = i;
	while (i < s.size() && s[i] >= '0' && s[i] <= '9')
		r.plain += s[i++];
	r.ints = i - st;
	if (!r.ints)
		return bad("no integral digit");
	if (r.ints > 1 && s[st] == '0')
		return bad("leading zero");
	if (i < s.size() && s[i] == dot) {
		r.plain += '.';
		++i;
		st = i;
		while (i < s.size() && s[i] >= '0' && s[i] <= '9')
			r.plain += s[i++];
		r.fracs = i - st;
		if (!r.fracs)
			return bad("dot without decimals");
		if (s[i - 1] == '0')
			return bad("trailing zero");
	}
	if (i < s.size() && s[i] == ec) {
		r.sci = true;
		r.plain += 'e';
		++i;
		if (i == s.size() || (s[i] != '+' && s[i] != '-'))
			return bad("exponent without sign");
		bool en = s[i] == '-';
		r.plain += s[i++];
		st = i;
		while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
			r.exp = r.exp * 10 + (s[i] - '0');
			r.plain += s[i++];
		}
		if (i - st < 2)
			return bad("exponent with less than two digits");
		if (i - st > 2 && s[st] == '0')
			return bad("exponent with a leading zero");
		if (en)
			r.exp = -r.exp;
		if (r.ints != 1)
			return bad("more than one integral digit in scientific notation");
	}
	if (i != s.size())
		return bad("unexpected character");
	r.ok = true;
	return r;
}
inline std::string strip(std::string s)
{
	size_t e = s.find('e');
	std::string tail = e == std::string::npos ? "" : s.substr(e);
	if (e != std::string::npos)
		s.resize(e);
	if (s.find('.') != std::string::npos) {
		while (s.back() == '0')
			s.pop_back();
		if (s.back() == '.')
			s.pop_back();
	}
	return s + tail;
}
template<class C>
std::string narrow(const C* a, const C* b)
{
	std::string r;
	for (; a < b; ++a)
		r.push_back(static_cast<unsigned long long>(*a) < 128 ? static_cast<char>(*a) : '?');
	return r;
}
struct Spec
{
	seq::chars_format fmt;
	int prec;
	char dot, exp;
	bool upper, dflt;
};
inline Spec rnd_spec(Rng& r)
{
	Spec s;
	s.fmt = r.pct(34) ? seq::general : r.coin() ? seq::fixed : seq::scientific;
	s.prec = r.pct(70) ? int(r.below(13)) : r.pct(70) ? int(r.below(19)) : int(r.below(60));
	s.dot = r.pct(80) ? '.' : ',';
	s.exp = r.pct(80) ? 'e' : 'E';
	s.upper = r.coin();
	s.dflt = r.pct(5);
	if (s.dflt) {
		s.fmt = seq::general;
		s.prec = 6;
		s.dot = '.';
		s.exp = 'e';
		s.upper = false;
	}
	return s;
}
template<class C, class T>
seq::to_chars_result<C> call(C* b, C* e, T v, const Spec& s)
{
	if (s.dflt)
		return seq::to_chars(b, e, v);
	return seq::to_chars(b, e, v, s.fmt, s.prec, s.dot, s.exp, s.upper);
}
inline const char* fname(seq::chars_format f) { return f == seq::general ? "general" : f == seq::fixed ? "fixed" : "scientific"; }

template<class T>
void judge(Ctx& c, const std::string& got, T v, const Spec& s)
{
	char b[6000];
	static const char* pf[] = { "%.*Lg", "%.*Lf", "%.*Le" };
	const char* f = s.fmt == seq::general ? pf[0] : s.fmt == seq::fixed ? pf[1] : pf[2];
	if (std::isnan(v)) {
		c.check(got == (s.upper ? "NAN" : "nan"), "nan", "NaN written as %s", got.c_str());
		return;
	}
	if (std::isinf(v)) {
		c.check(got == std::string(v < 0 ? "-" : "") + (s.upper ? "INF" : "inf"), "inf", "infinity written as %s", got.c_str());
		return;
	}
	snprintf(b, sizeof b, f, s.prec, static_cast<long double>(v));
	std::string ref = strip(b);
	Shape g = shape(got, s.dot, s.exp), p = shape(ref, '.', 'e');
	c.check(g.ok, "syntax", "%.25Lg (%s, precision %d) written as %.300s: %s (printf: %.300s)", static_cast<long double>(v), fname(s.fmt), s.prec, got.c_str(), g.why.c_str(), ref.c_str());
	c.check(p.ok, "reference", "reference text %.200s", ref.c_str());
	c.check(g.neg == std::signbit(v), "sign", "%.25Lg written as %.300s: wrong sign", static_cast<long double>(v), got.c_str());
	if (g.plain == ref) {
		MON_COUNT("same_as_printf", 1);
		return;
	}
	MON_COUNT("other_than_printf", 1);
	long double lv = v < 0 ? -static_cast<long double>(v) : static_cast<long double>(v);
	long double gv = fabsl(strtold(g.plain.c_str(), nullptr));
	if (s.fmt == seq::scientific)
		c.check(g.sci, "layout", "%.25Lg (scientific, precision %d) written without exponent: %.300s", lv, s.prec, got.c_str());
	if (s.fmt == seq::fixed)
		c.check(!g.sci, "layout", "%.25Lg (fixed, precision %d) written with an exponent: %.300s", lv, s.prec, got.c_str());
	// next to a rounding tie, the normalized value might be on the other side of the power of ten
	long double nine = s.prec ? 10.L - 0.5L * powl(10.L, 1 - s.prec) : 9.5L;
	long double lead = lv == 0 ? 0 : lv / powl(10.L, floorl(log10l(lv)));
	if (s.fmt == seq::general && s.prec <= 16 && fabsl(lead - nine) > 3e-14L)
		c.check(g.sci == p.sci, "layout", "%.25Lg (general, precision %d) written as %.300s, printf writes %s", lv, s.prec, got.c_str(), ref.c_str());
	// number of significant/fractional digits within the requested precision
	int P = s.fmt == seq::general ? (s.prec ? s.prec : 1) : s.prec;
	int X = lv == 0 ? 0 : static_cast<int>(floorl(log10l(lv)));
	long double unit;
	if (s.fmt == seq::general) {
		unit = powl(10.L, X + 1 - P);
		if (g.sci)
			c.check(int(g.fracs) <= P - 1, "digits", "%.25Lg (general, precision %d) written with too many digits: %.300s", lv, s.prec, got.c_str());
	}
	else {
		c.check(int(g.fracs) <= P, "digits", "%.25Lg (%s, precision %d) written with too many digits: %.300s", lv, fname(s.fmt), s.prec, got.c_str());
		unit = s.fmt == seq::fixed ? powl(10.L, -P) : powl(10.L, X - P);
	}
	// digits beyond the 17th are not produced
	long double tol = (sizeof(T) > 8 ? 1e-17L : 1.2e-14L) * lv;
	if (sizeof(T) > 8)
		tol = 2e-16L * lv;
	// the decimals of a value are computed after an offset of 0.1 (docs: same as printf below 12 digits)
	tol += (g.sci ? powl(10.L, X) : 1.L) * 3e-17L;
	long double err = fabsl(gv - lv);
	long double allowed = 0.5L * unit * (1 + 1e-9L) + tol;
	c.check(err <= allowed, "value", "%.25Lg (%s, precision %d) written as %.300s: error %.3Lg, allowed %.3Lg (printf: %.300s)", lv, fname(s.fmt), s.prec, got.c_str(), err, allowed, ref.c_str());
}

template<class T, class C>
void write_case(Ctx& c)
{
	Rng& r = c.rng;
	std::unique_ptr<C[]> big(new C[6000]);
	for (int k = 0; k < 10; ++k) {
		T v = rnd_value<T>(r);
		if (r.pct(3))
			v = r.coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
		else if (r.pct(2))
			v = std::numeric_limits<T>::quiet_NaN();
		else if (r.pct(2))
			v = r.coin() ? T(0) : -T(0);
		Spec s = rnd_spec(r);
		c.op("to_chars", static_cast<double>(v), int(s.fmt), s.prec, s.dot, s.exp);
		auto res = call(big.get(), big.get() + 6000, v, s);
		c.check(res.ec == std::errc(), "ec", "to_chars failed with an ample buffer");
		c.check(res.ptr > big.get() && res.ptr <= big.get() + 6000, "ptr", "end pointer outside of the buffer");
		judge<T>(c, narrow(big.get(), res.ptr), v, s);
		MON_COUNT("values_written", 1);
		// reads back
		if (std::isfinite(v) && v != 0 && s.fmt != seq::fixed && s.prec >= (sizeof(T) == 4 ? 9 : 17) && std::fabs(v) > std::numeric_limits<T>::min() && std::fabs(v) < std::numeric_limits<T>::max() / 2) {
			T w = 0;
			auto q = seq::from_chars(static_cast<const C*>(big.get()), static_cast<const C*>(res.ptr), w, seq::general, s.dot);
			c.check(q.ec == std::errc() && q.ptr == res.ptr, "reread", "the text written for %.25Lg is not read back", static_cast<long double>(v));
			long double tol = sizeof(T) == 4 ? 1e-6L : sizeof(T) == 8 ? 1.5e-14L : 3e-16L;
			bool sci = narrow(big.get(), res.ptr).find(s.exp) != std::string::npos;
			c.check(fabsl(static_cast<long double>(w) - v) <= tol * fabsl(v) + (sci ? 0 : 4e-17L), "roundtrip", "%.25Lg written then read as %.25Lg", static_cast<long double>(v), static_cast<long double>(w));
			MON_COUNT("roundtrips", 1);
		}
		c.state(mix(uint64_t(v == 0 || !std::isfinite(v) ? 9999 : std::ilogb(v)), mix(s.fmt, s.prec)));
	}
}
template<class T, class C>
void bound_case(Ctx& c)
{
	Rng& r = c.rng;
	std::unique_ptr<C[]> big(new C[6000]);
	for (int k = 0; k < 3; ++k) {
		T v = rnd_value<T>(r);
		if (r.pct(5))
			v = r.coin() ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
		Spec s = rnd_spec(r);
		c.op("bounded", static_cast<double>(v), int(s.fmt), s.prec);
		auto res = call(big.get(), big.get() + 6000, v, s);
		c.check(res.ec == std::errc(), "ec", "to_chars failed with an ample buffer");
		size_t n = res.ptr - big.get();
		for (size_t m = n > 60 ? n - 40 : 0; m <= n + 3; ++m) {
			std::unique_ptr<C[]> b(new C[m]);
			auto q = call(b.get(), b.get() + m, v, s);
			if (m < n) {
				c.check(q.ec == std::errc::value_too_large, "short-ec", "%.20Lg (%s, precision %d): %zu characters reported as written in a buffer of %zu", static_cast<long double>(v), fname(s.fmt), s.prec, n, m);
				c.check(q.ptr == b.get() + m, "short-ptr", "value_too_large does not return the end of the buffer (offset %td of %zu)", q.ptr - b.get(), m);
				MON_COUNT("truncations", 1);
			}
			else {
				c.check(q.ec == std::errc(), "fit-ec", "%.20Lg (%s, precision %d) needs %zu characters but is refused in a buffer of %zu", static_cast<long double>(v), fname(s.fmt), s.prec, n, m);
				c.check(q.ptr == b.get() + n, "fit-ptr", "end pointer differs from that of an ample buffer");
				c.check(std::equal(b.get(), b.get() + n, big.get()), "fit-text", "text differs from that of an ample buffer");
				MON_COUNT("exact_fits", 1);
			}
			c.state(mix(m, mix(n, s.fmt)));
		}
	}
}
}
