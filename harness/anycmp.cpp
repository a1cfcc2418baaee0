// C28: comparison, hashing, conversion and streaming of hold_any over pools of values of every arithmetic and string
// type, against the mathematical value / the text, and hold_any as a key of sorted and hashed containers.
#include "mon.hpp"
#include <seq/any.hpp>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/tiny_string.hpp>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace mon;

#ifndef PART
#define PART 0
#endif

struct Opaque // nothing but a value
{
	int v = 0;
};
struct OnlyEq
{
	int v = 0;
	friend bool operator==(OnlyEq a, OnlyEq b) { return a.v == b.v; }
};
struct Point
{
	int x = 0, y = 0;
	operator std::string() const { return std::to_string(x) + "," + std::to_string(y); }
	friend bool operator==(const Point& a, const Point& b) { return a.x == b.x && a.y == b.y; }
	friend bool operator<(const Point& a, const Point& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; }
	friend std::ostream& operator<<(std::ostream& o, const Point& p) { return o << '<' << p.x << ' ' << p.y << '>'; }
	friend std::istream& operator>>(std::istream& i, Point& p) { return i >> p.x >> p.y; }
};
struct Meters
{
	double m = 0;
};
#define NOHASH(...)                                                                                                                                                                                    \
	template<>                                                                                                                                                                                     \
	struct seq::is_hashable<__VA_ARGS__> : std::false_type                                                                                                                                                 \
	{                                                                                                                                                                                              \
	};
NOHASH(Opaque)
NOHASH(OnlyEq)
NOHASH(Point)
NOHASH(Meters)
using IntPair = std::pair<int, int>;
NOHASH(IntPair)

// registered functions
static struct RegisterAll
{
	RegisterAll()
	{
		seq::register_any_conversion<Point, std::string>();
		seq::register_any_conversion<IntPair, std::string>([](const IntPair& p) { return std::to_string(p.first) + ":" + std::to_string(p.second); });
		seq::register_any_conversion<IntPair, Point>([](const IntPair& p) { return Point{ p.first, p.second }; });
		seq::register_any_equal_comparison<IntPair, int>([](const IntPair& p, int i) { return p.first == i && p.second == i; });
		seq::register_any_less_comparison<IntPair, int>([](const IntPair& p, int i) { return p.first < i; });
		seq::register_any_less_comparison<int, IntPair>([](int i, const IntPair& p) { return i < p.first; });
	}
} register_all;

// ---------------------------------------------------------------- pools
// Either a number or a text, with the C++ type it is stored with
template<class Any>
struct Val
{
	Any a;
	int kind = 0; // 0 empty, 1 number, 2 text, 3 Point
	long double num = 0;
	std::string text;
	Point pt;
	int tid = 0;
	bool raw = false; // character pointer
};
using AllNums = std::tuple<bool, char, signed char, unsigned char, wchar_t, char16_t, char32_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double,
			   long double>;
template<class F, class... T>
static void pick_impl(std::tuple<T...>*, unsigned t, F f)
{
	unsigned k = 0;
	int dummy[] = { 0, (k++ == t ? (f((T*)nullptr), 0) : 0)... };
	(void)dummy;
}
template<class F>
static void with_num(unsigned t, F f)
{
	pick_impl((AllNums*)nullptr, t, f);
}
static constexpr unsigned NNums = std::tuple_size<AllNums>::value;

template<class T>
static T pick_num(Rng& r)
{
	using L = std::numeric_limits<T>;
	if constexpr (std::is_same_v<T, bool>)
		return r.coin();
	else if constexpr (std::is_floating_point_v<T>) {
		switch (r.below(8)) {
			case 0: return T(int64_t(r.below(9)) - 4);
			case 1: return T(int64_t(r.below(4001)) - 2000) / 4;
			case 2: return std::ldexp(T(1), int(r.below(70))) * (r.coin() ? 1 : -1);
			case 3: return T(r.coin() ? 9223372036854775808.0 : 18446744073709551616.0) * (r.coin() ? 1 : -1);
			case 4: return r.coin() ? L::max() : L::min();
			case 5: return r.coin() ? L::infinity() : -L::infinity();
			case 6: return r.coin() ? T(-0.0) : T(0.0);
			default: return T(r.next()) / T(3);
		}
	}
	else {
		switch (r.below(6)) {
			case 0: return T(int(r.below(9)) - 4);
			case 1: return T(int(r.below(4001)) - 2000);
			case 2: return T(uint64_t(1) << r.below(64));
			case 3: return L::max();
			case 4: return L::min();
			default: return T(r.next());
		}
	}
}
static std::string pick_text(Rng& r)
{
	std::string s;
	unsigned n = r.coin() ? r.below(4) : r.below(30);
	for (unsigned i = 0; i < n; ++i)
		s += "ab\xff\x80" "1"[r.below(r.coin() ? 2 : 5)];
	return s;
}
// texts live as long as the case
struct Texts
{
	std::vector<std::unique_ptr<std::string>> all;
	const std::string& keep(std::string s)
	{
		all.emplace_back(new std::string(std::move(s)));
		return *all.back();
	}
};
enum
{
	AllowRaw = 1,
	AllowPoint = 2,
	AllowEmpty = 4,
};
template<class Any>
static Val<Any> pick_val(Rng& r, Texts& tx, unsigned flags)
{
	Val<Any> v;
	unsigned k = r.below(20);
	if (k == 0 && (flags & AllowEmpty))
		return v;
	if (k == 1 && (flags & AllowPoint)) {
		v.kind = 3;
		v.pt = Point{ int(r.below(3)), int(r.below(3)) };
		v.a = v.pt;
		v.tid = seq::get_type_id<Point>();
		return v;
	}
	if (k < 12) {
		v.kind = 1;
		with_num(r.below(NNums), [&](auto* p) {
			using T = std::remove_pointer_t<decltype(p)>;
			T x = pick_num<T>(r);
			v.a = x;
			v.num = static_cast<long double>(x);
			v.tid = seq::get_type_id<T>();
		});
		return v;
	}
	v.kind = 2;
	const std::string& s = tx.keep(pick_text(r));
	v.text = s;
	switch (r.below((flags & AllowRaw) ? 6 : 4)) {
		case 0: v.a = std::string(s); break;
		case 1: v.a = seq::tstring(s.data(), s.size()); break;
		case 2: v.a = seq::tstring_view(s.data(), s.size()); break;
		case 3: v.a = std::string_view(s); break;
		case 4: v.a = s.c_str(), v.raw = true; break;
		default: v.a = const_cast<char*>(s.c_str()), v.raw = true;
	}
	v.tid = v.a.type_id();
	return v;
}
template<class Any>
static int group(const Val<Any>& v)
{
	return v.kind; // empty < numbers < texts < others: type ids follow that order
}
template<class Any>
static bool eq(const Val<Any>& a, const Val<Any>& b)
{
	if (a.kind != b.kind)
		return false;
	switch (a.kind) {
		case 0: return true;
		case 1: return a.num == b.num;
		case 2: return a.text == b.text;
		default: return a.pt == b.pt;
	}
}
template<class Any>
static bool lt(const Val<Any>& a, const Val<Any>& b)
{
	if (a.kind != b.kind)
		return a.kind == 0 || (b.kind != 0 && a.tid < b.tid);
	switch (a.kind) {
		case 0: return false;
		case 1: return a.num < b.num;
		case 2: return a.text < b.text;
		default: return a.pt < b.pt;
	}
}
// two character pointers of the same type compare as pointers
template<class Any>
static bool pointers(const Val<Any>& a, const Val<Any>& b)
{
	return a.raw && b.raw && a.tid == b.tid;
}
template<class Any>
static std::string show(const Val<Any>& v)
{
	char b[128];
	if (v.kind == 1)
		snprintf(b, sizeof b, "%.25Lg (type %d)", v.num, v.tid);
	else
		snprintf(b, sizeof b, "kind %d '%.40s' (type %d)", v.kind, v.text.c_str(), v.tid);
	return b;
}
static int64_t num_sig(long double x) { return std::isfinite(x) ? int64_t(std::fmod(x, 1e15L) * 3) : 7; }
static uint64_t sig(const char* s) { return hstr(s); }

// all operators between two objects
template<class A, class B>
static void operators(Ctx& c, const A& a, const B& b, bool e, bool l, bool g, const std::string& sa, const std::string& sb, const char* who)
{
	c.check((a == b) == e, "equal", "%s: %s == %s expected %d", who, sa.c_str(), sb.c_str(), e);
	c.check((b == a) == e, "equal", "%s: %s == %s expected %d", who, sb.c_str(), sa.c_str(), e);
	c.check((a != b) == !e, "not-equal", "%s: %s != %s expected %d", who, sa.c_str(), sb.c_str(), !e);
	c.check((b != a) == !e, "not-equal", "%s: %s != %s expected %d", who, sb.c_str(), sa.c_str(), !e);
	c.check((a < b) == l, "less", "%s: %s < %s expected %d", who, sa.c_str(), sb.c_str(), l);
	c.check((b < a) == g, "less", "%s: %s < %s expected %d", who, sb.c_str(), sa.c_str(), g);
	c.check((a > b) == g, "greater", "%s: %s > %s expected %d", who, sa.c_str(), sb.c_str(), g);
	c.check((b > a) == l, "greater", "%s: %s > %s expected %d", who, sb.c_str(), sa.c_str(), l);
	c.check((a <= b) == !g, "less-equal", "%s: %s <= %s expected %d", who, sa.c_str(), sb.c_str(), !g);
	c.check((b <= a) == !l, "less-equal", "%s: %s <= %s expected %d", who, sb.c_str(), sa.c_str(), !l);
	c.check((a >= b) == !l, "greater-equal", "%s: %s >= %s expected %d", who, sa.c_str(), sb.c_str(), !l);
	c.check((b >= a) == !g, "greater-equal", "%s: %s >= %s expected %d", who, sb.c_str(), sa.c_str(), !g);
	MON_COUNT("operator results", 12);
}

template<class Any>
static constexpr bool hashed = std::is_same_v<Any, seq::any> || std::is_same_v<Any, seq::r_any>;

// every pair of a pool
template<class Any>
static void pairs(Ctx& c)
{
	Rng& r = c.rng;
	Texts tx;
	std::vector<Val<Any>> pool;
	for (int i = 0; i < 12; ++i)
		pool.push_back(pick_val<Any>(r, tx, AllowRaw | AllowPoint | AllowEmpty));
	// some values again, with another type when possible
	for (int i = 0; i < 6; ++i) {
		const Val<Any> v = pool[r.below(pool.size())];
		Val<Any> w;
		if (v.kind == 1) {
			with_num(r.below(NNums), [&](auto* p) {
				using T = std::remove_pointer_t<decltype(p)>;
				if (v.num >= static_cast<long double>(std::numeric_limits<T>::lowest()) && v.num <= static_cast<long double>(std::numeric_limits<T>::max()) &&
				    static_cast<long double>(static_cast<T>(v.num)) == v.num) {
					w = v;
					w.a = static_cast<T>(v.num);
					w.tid = seq::get_type_id<T>();
				}
			});
		}
		else if (v.kind == 2) {
			w = v;
			w.raw = false;
			if (r.coin())
				w.a = v.text;
			else
				w.a = seq::tstring(v.text.data(), v.text.size());
			w.tid = w.a.type_id();
		}
		if (w.kind)
			pool.push_back(w);
	}
	for (auto& a : pool)
		for (auto& b : pool) {
			if (pointers(a, b))
				continue;
			c.op("pair", int64_t(a.tid), int64_t(b.tid), sig(a.text.c_str()), sig(b.text.c_str()), num_sig(a.num), num_sig(b.num));
			bool e = eq(a, b), l = lt(a, b), g = lt(b, a);
			operators(c, a.a, b.a, e, l, g, show(a), show(b), "objects");
			c.state(mix(uint64_t(a.tid) * 64 + uint64_t(b.tid), e * 4 + l * 2 + g));
			if constexpr (hashed<Any>)
				if (e && a.kind != 0 && a.kind != 3) {
					size_t h1 = a.a.hash(), h2 = b.a.hash();
					c.check(h1 == h2, "hash", "equal objects have different hashes: %s and %s", show(a).c_str(), show(b).c_str());
					c.check(seq::hasher<Any>{}(a.a) == h1 && std::hash<Any>{}(b.a) == h2, "hash", "hasher and hash() differ");
					MON_COUNT("equal pairs hashed", 1);
				}
			// against bare values
			auto bare = [&](const auto& y) {
				operators(c, a.a, y, e, l, g, show(a), show(b), "bare value");
				if constexpr (hashed<Any>) {
					if (e && a.kind != 0 && a.kind != 3)
						c.check(seq::hasher<Any>{}(y) == a.a.hash() && std::hash<Any>{}(y) == a.a.hash(), "hash", "the bare value has another hash: %s and %s",
							show(a).c_str(), show(b).c_str());
				}
			};
			if (b.kind == 1) {
				for (unsigned t = 0; t < NNums; ++t)
					with_num(t, [&](auto* p) {
						using T = std::remove_pointer_t<decltype(p)>;
						if (b.a.type_id() == seq::get_type_id<T>())
							bare(b.a.template cast<const T&>());
					});
			}
			else if (b.kind == 2) {
				if (!b.raw) {
					if (b.tid == seq::get_type_id<std::string>())
						bare(b.a.template cast<const std::string&>());
					else if (b.tid == seq::get_type_id<seq::tstring>())
						bare(b.a.template cast<const seq::tstring&>());
					else if (b.tid == seq::get_type_id<seq::tstring_view>())
						bare(b.a.template cast<const seq::tstring_view&>());
					else
						bare(b.a.template cast<const std::string_view&>());
				}
				else if (b.tid == seq::get_type_id<const char*>())
					bare(b.a.template cast<const char*>());
				else
					bare(b.a.template cast<char*>());
			}
			else if (b.kind == 3 && a.kind != 0)
				bare(b.pt);
		}
}

// hold_any as keys
template<class K, class V>
static void sorted_keys(Ctx& c, V& vals, const char* who)
{
	K s;
	using Any = std::decay_t<decltype(vals[0].a)>;
	std::vector<const Val<Any>*> ref;
	for (auto& v : vals) {
		bool fresh = true;
		for (auto* q : ref)
			fresh = fresh && !eq(*q, v);
		bool ins = s.insert(v.a).second;
		c.check(ins == fresh, "container-insert", "%s: insert(%s) returned %d", who, show(v).c_str(), ins);
		if (fresh)
			ref.push_back(&v);
		c.op(who, fresh, s.size(), v.tid);
	}
	c.check(s.size() == ref.size(), "container-size", "%s: %zu keys expected %zu", who, s.size(), ref.size());
	for (auto& v : vals) {
		auto it = s.find(v.a);
		c.check(it != s.end() && *it == v.a, "container-find", "%s: %s not found", who, show(v).c_str());
	}
	for (size_t i = 0; i < ref.size(); i += 2)
		c.check(s.erase(ref[i]->a) == 1, "container-erase", "%s: %s not erased", who, show(*ref[i]).c_str());
	for (size_t i = 0; i < ref.size(); ++i)
		c.check((s.find(ref[i]->a) != s.end()) == (i % 2 == 1), "container-find", "%s: %s after erase", who, show(*ref[i]).c_str());
}
template<class Any>
static void keys(Ctx& c)
{
	Rng& r = c.rng;
	Texts tx;
	std::vector<Val<Any>> vals;
	for (unsigned n = 4 + r.below(60); n; --n)
		vals.push_back(pick_val<Any>(r, tx, AllowEmpty));
	sorted_keys<std::set<Any>>(c, vals, "std::set");
	sorted_keys<seq::flat_set<Any>>(c, vals, "flat_set");
	if constexpr (hashed<Any>) {
		sorted_keys<std::unordered_set<Any>>(c, vals, "std::unordered_set");
		sorted_keys<seq::ordered_set<Any>>(c, vals, "ordered_set");
		// heterogeneous lookup
		seq::ordered_set<Any, seq::hasher<Any>, std::equal_to<>> hs;
		seq::flat_set<Any, std::less<>> fs;
		for (auto& v : vals)
			hs.insert(v.a), fs.insert(v.a);
		for (auto& v : vals)
			if (v.kind == 1)
				for (unsigned t = 0; t < NNums; ++t)
					with_num(t, [&](auto* p) {
						using T = std::remove_pointer_t<decltype(p)>;
						if (v.tid != seq::get_type_id<T>())
							return;
						T y = v.a.template cast<T>();
						auto it = hs.find(y);
						c.check(it != hs.end() && *it == v.a, "heterogeneous", "ordered_set: %s not found as a bare value", show(v).c_str());
						auto f = fs.find(y);
						c.check(f != fs.end() && *f == v.a, "heterogeneous", "flat_set: %s not found as a bare value", show(v).c_str());
					});
			else if (v.kind == 2) {
				auto found = [&](const auto& y) {
					auto it = hs.find(y);
					c.check(it != hs.end() && *it == v.a, "heterogeneous", "ordered_set: %s not found as a bare value", show(v).c_str());
					auto f = fs.find(y);
					c.check(f != fs.end() && *f == v.a, "heterogeneous", "flat_set: %s not found as a bare value", show(v).c_str());
				};
				found(v.text);
				found(v.text.c_str());
				found(seq::tstring(v.text.c_str()));
				found(std::string_view(v.text));
			}
		c.op("heterogeneous", hs.size(), fs.size());
	}
}

// conversions
template<class Any>
static void conversions(Ctx& c)
{
	Rng& r = c.rng;
	Texts tx;
	for (int k = 0; k < 6; ++k) {
		Val<Any> v = pick_val<Any>(r, tx, AllowRaw);
		if (r.pct(40)) { // text of a number
			std::string s;
			long double num = 0;
			with_num(7 + r.below(NNums - 7), [&](auto* p) {
				using T = std::remove_pointer_t<decltype(p)>;
				T x = pick_num<T>(r);
				if constexpr (std::is_floating_point_v<T>)
					x = T(int64_t(r.below(200001)) - 100000) / T(8);
				char b[64];
				if (std::is_floating_point_v<T>)
					snprintf(b, sizeof b, "%.3Lf", static_cast<long double>(x));
				else
					snprintf(b, sizeof b, "%.0Lf", static_cast<long double>(x));
				s = b;
				num = static_cast<long double>(x);
			});
			if (r.pct(20))
				s = "1e5", num = 100000;
			const std::string& kept = tx.keep(s);
			v = Val<Any>();
			v.kind = 2;
			v.text = s;
			v.num = num;
			switch (r.below(6)) {
				case 0: v.a = s; break;
				case 1: v.a = seq::tstring(s.c_str()); break;
				case 2: v.a = seq::tstring_view(kept.data(), kept.size()); break;
				case 3: v.a = std::string_view(kept); break;
				case 4: v.a = kept.c_str(); break;
				default: v.a = const_cast<char*>(kept.c_str());
			}
			c.op("number text", sig(s.c_str()), v.a.type_id());
			long double whole = std::trunc(num);
			bool integer_text = s.find_first_of(".e") == std::string::npos;
			with_num(7 + r.below(NNums - 7), [&](auto* p) {
				using T = std::remove_pointer_t<decltype(p)>;
				using L = std::numeric_limits<T>;
				if (num < (long double)L::lowest() || num > (long double)L::max())
					return;
				if (!std::is_floating_point_v<T> && !integer_text && s.find('e') != std::string::npos)
					return;
				try {
					T x = v.a.template cast<T>();
					long double got = static_cast<long double>(x), want = std::is_floating_point_v<T> ? num : whole;
					bool ok = std::is_floating_point_v<T> ? std::fabs(got - want) <= std::fabs(want) * 1e-6L : got == want;
					c.check(ok, "text-to-number", "'%s' converted to %.20Lg (type %d)", s.c_str(), got, seq::get_type_id<T>());
					MON_COUNT("text to number", 1);
				}
				catch (const std::bad_cast&) {
					c.fail("text-to-number", "'%s' refused (type %d)", s.c_str(), seq::get_type_id<T>());
				}
			});
		}
		else
			c.op("conversion", v.tid, sig(v.text.c_str()), num_sig(v.num));
		const Any& a = v.a;
		if (v.kind == 2) {
			c.check(a.template cast<std::string>() == v.text, "text-to-text", "std::string of '%s'", v.text.c_str());
			seq::tstring t = a.template cast<seq::tstring>();
			c.check(std::string(t.data(), t.size()) == v.text, "text-to-text", "tstring of '%s'", v.text.c_str());
			seq::tstring_view w = a.template cast<seq::tstring_view>();
			c.check(std::string(w.data(), w.size()) == v.text, "text-to-text", "tstring_view of '%s'", v.text.c_str());
			c.check(std::string(a.template cast<std::string_view>()) == v.text, "text-to-text", "std::string_view of '%s'", v.text.c_str());
			if (!v.text.empty() || true)
				c.check(std::string(a.template cast<const char*>()) == v.text, "text-to-text", "const char* of '%s'", v.text.c_str());
			if (!v.text.empty() && (v.text[0] == 'a' || v.text[0] == '\xff')) {
				bool thrown = false;
				try {
					a.template cast<int>();
				}
				catch (const std::bad_cast&) {
					thrown = true;
				}
				c.check(thrown, "bad-text", "'%s' converted to int", v.text.c_str());
				thrown = false;
				try {
					a.template cast<double>();
				}
				catch (const std::bad_cast&) {
					thrown = true;
				}
				c.check(thrown, "bad-text", "'%s' converted to double", v.text.c_str());
			}
		}
		else if (v.kind == 1) {
			for (unsigned t = 0; t < NNums; ++t)
				with_num(t, [&](auto* p) {
					using T = std::remove_pointer_t<decltype(p)>;
					using L = std::numeric_limits<T>;
					if (std::is_integral_v<T> && (std::trunc(v.num) < (long double)L::lowest() || std::trunc(v.num) > (long double)L::max()))
						return;
					if (std::is_floating_point_v<T> && std::isfinite(v.num) && std::fabs(v.num) > (long double)L::max())
						return;
					long double got = static_cast<long double>(a.template cast<T>());
					long double want = std::is_same_v<T, bool> ? (v.num != 0) : static_cast<long double>(static_cast<T>(v.num));
					// a double rounding is possible on the way from long double
					c.check(got == want, "number-to-number", "%s converted to %.20Lg expected %.20Lg (type %d)", show(v).c_str(), got, want, seq::get_type_id<T>());
					MON_COUNT("number to number", 1);
				});
			if (v.tid >= seq::get_type_id<short>()) {
				std::string s = a.template cast<std::string>();
				seq::tstring t = a.template cast<seq::tstring>();
				c.check(std::string(t.data(), t.size()) == s, "number-to-text", "std::string '%s' and tstring differ", s.c_str());
				if (std::isfinite(v.num)) {
					char* end;
					long double back = strtold(s.c_str(), &end);
					c.check(!s.empty() && *end == 0, "number-to-text", "%s written as '%s'", show(v).c_str(), s.c_str());
					bool integral = v.tid < seq::get_type_id<float>();
					c.check(integral ? back == v.num : std::fabs(back - v.num) <= std::fabs(v.num) * 1e-5L, "number-to-text", "%s written as '%s'", show(v).c_str(), s.c_str());
				}
			}
			bool thrown = false;
			try {
				a.template cast<seq::tstring_view>();
			}
			catch (const std::bad_cast&) {
				thrown = true;
			}
			c.check(thrown, "bad-cast", "a number converted to a string view");
		}
	}
}

template<class E, class F>
static bool throws(F f)
{
	try {
		f();
	}
	catch (const E&) {
		return true;
	}
	return false;
}
// registered functions, unsupported operations, streams
template<class Any>
static void misc(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 4; ++k) {
		int x = int(r.below(5)), y = int(r.below(5)), z = int(r.below(5));
		c.op("registered", x, y, z);
		Any p = Point{ x, y }, q = IntPair(x, y), i = z, o = Opaque{ x }, e = OnlyEq{ x }, e2 = OnlyEq{ y }, none, none2;
		Any p2 = Point{ z, y };
		c.check(p.template cast<std::string>() == std::to_string(x) + "," + std::to_string(y), "registered-conversion", "Point to std::string");
		c.check(q.template cast<std::string>() == std::to_string(x) + ":" + std::to_string(y), "registered-conversion", "pair to std::string");
		Point pq = q.template cast<Point>();
		c.check(pq == Point{ x, y }, "registered-conversion", "pair to Point");
		c.check(throws<std::bad_cast>([&] { p.template cast<IntPair>(); }), "registered-conversion", "Point to pair is not registered");
		c.check(throws<std::bad_cast>([&] { p.template cast<seq::tstring>(); }), "registered-conversion", "Point to tstring is not registered");
		c.check(throws<std::bad_cast>([&] { o.template cast<std::string>(); }), "bad-cast", "Opaque to std::string");
		c.check(throws<std::bad_cast>([&] { o.template cast<int>(); }), "bad-cast", "Opaque to int");
		c.check(throws<std::bad_cast>([&] { i.template cast<Opaque>(); }), "bad-cast", "int to Opaque");
		c.check(throws<std::bad_cast>([&] { i.template cast<void*>(); }), "bad-cast", "int to void*");
		c.check(throws<std::bad_cast>([&] { i.template cast<double&>(); }), "bad-cast", "int to double&");
		c.check(throws<std::bad_cast>([&] { none.template cast<int>(); }), "bad-cast", "empty to int");
		// comparisons
		bool e1 = x == z && y == z;
		c.check((q == i) == e1 && (q != i) == !e1, "registered-equal", "pair (%d,%d) == %d", x, y, z);
		c.check((q < i) == (x < z) && (i < q) == (z < x) && (q > i) == (z < x) && (i >= q) == !(z < x), "registered-less", "pair (%d,%d) and %d", x, y, z);
		c.check((q == z) == e1 && (q != z) == !e1, "registered-equal", "pair (%d,%d) == bare %d", x, y, z);
		c.check((q < z) == (x < z) && (q > z) == (z < x) && (q <= z) == !(z < x) && (q >= z) == !(x < z), "registered-less", "pair (%d,%d) and bare %d", x, y, z);
		c.check((p == q) == false && (q == p) == false, "unrelated-equal", "unrelated types compare equal");
		bool first = seq::get_type_id<Point>() < seq::get_type_id<IntPair>();
		c.check((p < q) == first && (q < p) == !first, "unrelated-less", "unrelated types are ordered by type id");
		// same type
		c.check((p == p2) == (x == z) && (p < p2) == (x < z) && (p > p2) == (z < x), "same-type", "comparison of two Points");
		c.check((e == e2) == (x == y), "same-type", "equality of two OnlyEq");
		c.check(throws<std::bad_function_call>([&] { (void)(e < e2); }), "no-less", "no std::bad_function_call for a type without operator<");
		c.check(throws<std::bad_function_call>([&] { (void)(e > OnlyEq{ 1 }); }), "no-less", "no std::bad_function_call for a type without operator<");
		Any o2 = Opaque{ x };
		c.check(!(o == o2) && (o != o2), "no-equal", "a type without operator== compares equal");
		c.check(throws<std::bad_function_call>([&] { (void)(o < o2); }), "no-less", "no std::bad_function_call for a type without operator<");
		c.check(throws<std::bad_function_call>([&] { o.hash(); }), "no-hash", "no std::bad_function_call for a type that is not hashable");
		if (!hashed<Any>)
			c.check(throws<std::bad_function_call>([&] { i.hash(); }), "no-hash", "no std::bad_function_call from a hold_any without hash support");
		c.check(none.hash() == 0 && none == none2 && !(none < none2) && none < i && !(i < none) && none != i, "empty", "comparison of empty objects");
		// streams
		std::ostringstream os;
		os << p << ' ' << i << ' ' << Any(std::string("text")) << ' ' << Any(2.5) << ' ' << Any("raw") << ' ' << Any(seq::tstring("tiny"));
		std::string want = "<" + std::to_string(x) + " " + std::to_string(y) + "> " + std::to_string(z) + " text 2.5 raw tiny";
		c.check(os.str() == want, "ostream", "'%s' expected '%s'", os.str().c_str(), want.c_str());
		c.check(throws<std::bad_function_call>([&] { os << o; }), "no-ostream", "no std::bad_function_call for a type that cannot be written");
		c.check(throws<std::bad_function_call>([&] { os << none; }), "no-ostream", "no std::bad_function_call for an empty object");
		std::istringstream is(std::to_string(y) + " word " + std::to_string(x) + ".5 7 8");
		Any ri = 0, rs = std::string(), rd = 0.0, rp = Point{};
		is >> ri >> rs >> rd >> rp;
		c.check(!is.fail() && ri == y && rs == "word" && rd == x + 0.5 && rp == Point({ 7, 8 }), "istream", "values read from a stream");
		c.check(throws<std::bad_function_call>([&] { is >> o; }), "no-istream", "no std::bad_function_call for a type that cannot be read");
		c.check(throws<std::bad_function_call>([&] { is >> none; }), "no-istream", "no std::bad_function_call for an empty object");
		// formatting
		c.check(seq::fmt(Any(z)).str() == std::to_string(z) && seq::fmt(Any(std::string("text"))).str() == "text", "format", "fmt() of a hold_any");
		c.check(seq::fmt(Any(z)).l(6).fill('_').str() == std::to_string(z) + "_____", "format", "fmt() of a hold_any with a width: %s", seq::fmt(Any(z)).l(6).fill('_').str().c_str());
		// pointers
		static int target[2];
		Any ptr = &target[x & 1];
		c.check(ptr.template cast<void*>() == &target[x & 1] && ptr.template cast<const void*>() == &target[x & 1] && ptr == &target[x & 1], "pointer", "pointer conversions");
		c.check(ptr.type_id() == seq::get_type_id<int*>() && i.type_id() == seq::get_type_id<int>() && none.type_id() == 0, "type-id", "type ids");
	}
}
// type ids: distinct per type, stable, arithmetic types first, then strings, then any other
template<int N>
struct Tag
{
};
static void ids(Ctx& c)
{
	std::set<int> seen;
	int last = 0, n = 0;
	for (unsigned t = 0; t < NNums; ++t)
		with_num(t, [&](auto* p) {
			using T = std::remove_pointer_t<decltype(p)>;
			seen.insert(seq::get_type_id<T>());
			last = std::max(last, seq::get_type_id<T>());
			++n;
		});
	int s[] = { seq::get_type_id<char*>(), seq::get_type_id<const char*>(), seq::get_type_id<std::string>(), seq::get_type_id<seq::tstring>(), seq::get_type_id<seq::tstring_view>(), seq::get_type_id<std::string_view>() };
	int slast = 0;
	for (int i : s) {
		c.check(i > last, "type-id", "a string type has id %d, before an arithmetic type", i);
		seen.insert(i);
		slast = std::max(slast, i);
		++n;
	}
	int o[] = { seq::get_type_id<Tag<1>>(), seq::get_type_id<Tag<2>>(), seq::get_type_id<int*>(), seq::get_type_id<const int*>(), seq::get_type_id<std::wstring>(), seq::get_type_id<std::vector<int>>(), seq::get_type_id<IntPair>() };
	for (int i : o) {
		c.check(i > slast, "type-id", "a type has id %d, before a string type", i);
		seen.insert(i);
		++n;
	}
	c.check(int(seen.size()) == n && *seen.begin() > 0, "type-id", "%zu distinct ids for %d types", seen.size(), n);
	c.check(seq::get_type_id<Tag<1>>() == o[0] && seq::get_type_id<IntPair>() == o[6], "type-id", "ids change");
	for (int i : o)
		c.op("ids", i, c.id);
}
#define REG(Any, tag)                                                                                                                                                                                  \
	static Reg a_##tag("C28/pairs-" #tag, 1500, 40000, &pairs<Any>);                                                                                                                              \
	static Reg b_##tag("C28/keys-" #tag, 1200, 30000, &keys<Any>);                                                                                                                                \
	static Reg c_##tag("C28/conversions-" #tag, 4000, 100000, &conversions<Any>);                                                                                                                 \
	static Reg d_##tag("C28/misc-" #tag, 500, 5000, &misc<Any>);
#if PART == 0
REG(seq::any, any)
static Reg ri("C28/ids", 4, 4, &ids);
#elif PART == 1
REG(seq::r_any, r_any)
#else
using Wide = seq::hold_any<seq::any_no_hash_interface, 40, 16, true>;
REG(Wide, wide)
#endif
