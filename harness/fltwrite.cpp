#include "fltwrite.hpp"
using namespace fltw;
using ldouble = long double;
#if PART == 0
#define WR(id, T, C) static Reg id("C22/write/" #T "/" #C, 60000, 1500000, &write_case<T, C>)
WR(a0, double, char);
WR(a1, float, char);
WR(a2, ldouble, char);
WR(a3, double, wchar_t);
#else
#define BD(id, T, C) static Reg id("C23/float/" #T "/" #C, 12000, 300000, &bound_case<T, C>)
BD(b0, double, char);
BD(b1, float, char);
BD(b2, ldouble, char);
BD(b3, double, char16_t);
#endif
#if PART == 1
// Integers in every base: the text of an ample buffer, in buffers of every smaller size down to nothing.
template<class T, class C>
void int_bound(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 4; ++k) {
		T v = static_cast<T>(r.next() >> r.below(64));
		if (r.pct(10))
			v = r.coin() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
		else if (std::is_signed<T>::value && r.coin())
			v = static_cast<T>(~v);
		int base = r.coin() ? 10 : r.coin() ? 16 : int(r.range(2, 36));
		seq::integral_chars_format f;
		int form = int(r.below(3));
		if (form == 2) {
			f.integral_min_width = static_cast<unsigned char>(r.pct(80) ? r.below(24) : r.below(256));
			f.hex_prefix = r.coin();
			f.upper_case = r.coin();
		}
		else if (form == 0)
			base = 10;
		auto run = [&](C* b, C* e) {
			if (form == 0)
				return seq::to_chars(b, e, v);
			if (form == 1)
				return seq::to_chars(b, e, v, base);
			return seq::to_chars(b, e, v, base, f);
		};
		C big[400];
		c.op("int-bounded", std::to_string(v), base, f.integral_min_width);
		auto res = run(big, big + 400);
		c.check(res.ec == std::errc() && res.ptr > big && res.ptr <= big + 400, "ec", "to_chars failed with an ample buffer");
		size_t n = static_cast<size_t>(res.ptr - big);
		for (size_t m = 0; m <= n + 2; ++m) {
			if (n > 100 && m > 4 && m + 4 < n)
				continue;
			std::unique_ptr<C[]> b(new C[m]);
			auto q = run(b.get(), b.get() + m);
			if (m < n) {
				c.check(q.ec == std::errc::value_too_large, "short-ec", "%s in base %d: %zu characters reported as written in a buffer of %zu", std::to_string(v).c_str(), base, n, m);
				c.check(q.ptr == b.get() + m, "short-ptr", "value_too_large does not return the end of the buffer");
				MON_COUNT("int_truncations", 1);
			}
			else {
				c.check(q.ec == std::errc(), "fit-ec", "%s in base %d needs %zu characters but is refused in a buffer of %zu", std::to_string(v).c_str(), base, n, m);
				c.check(q.ptr == b.get() + n && std::equal(b.get(), b.get() + n, big), "fit-text", "text differs from that of an ample buffer");
				MON_COUNT("int_exact_fits", 1);
			}
			c.state(mix(m, mix(n, base)));
		}
	}
}
#define IB(id, T, C) static Reg id("C23/int/" #T "/" #C, 6000, 200000, &int_bound<T, C>)
using i8 = int8_t;
using u16 = uint16_t;
using i64 = int64_t;
using u64 = uint64_t;
IB(i0, int, char);
IB(i1, i8, char);
IB(i2, u16, char16_t);
IB(i3, i64, char);
IB(i4, u64, wchar_t);
using llong = long long;
IB(i5, llong, char32_t);
#endif
