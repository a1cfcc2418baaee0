// Model tester for the associative containers: flat_*, ordered_*, radix_*, radix_hash_*
#pragma once
#include "mon.hpp"
#include <seq/tiny_string.hpp>

namespace assoc {
using namespace mon;

enum Kind
{
	FLAT,
	ORD,
	RADIX,
	RHASH
};
// ---- key traits: an ordered pool of reference keys; the model works on indices in that pool ("codes")
template<class Key, class = void>
struct KT;
template<class T>
T gen_int(Rng& r, unsigned shape, size_t i, size_t n)
{
	using U = typename std::make_unsigned<T>::type;
	U v = 0;
	switch (shape % 6) {
		case 0:
			v = static_cast<U>(i);
			break;
		case 1:
			v = static_cast<U>(r.next());
			break;
		case 2: // few distinct high bits, dense low bits
			v = static_cast<U>((static_cast<U>(r.below(4)) << (sizeof(T) * 8 - 2)) | static_cast<U>(r.below(n * 2 + 1)));
			break;
		case 3: // dense high bits, constant low bits
			v = static_cast<U>(static_cast<U>(r.below(n * 2 + 1)) << (sizeof(T) * 8 > 16 ? sizeof(T) * 8 - 16 : 0));
			break;
		case 4: // around zero, both signs, and limits
			v = r.pct(80) ? static_cast<U>(static_cast<U>(r.below(2 * n + 1)) - static_cast<U>(n)) : (r.coin() ? static_cast<U>(std::numeric_limits<T>::max() - static_cast<T>(r.below(3))) : static_cast<U>(std::numeric_limits<T>::min() + static_cast<T>(r.below(3))));
			break;
		default: // powers of two neighbourhoods
			v = static_cast<U>((U(1) << r.below(sizeof(T) * 8)) + static_cast<U>(r.below(3)) - U(1));
			break;
	}
	return static_cast<T>(v);
}
template<class T>
struct KT<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
	using Ref = T;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n) { return gen_int<T>(r, shape, i, n); }
	static T make(const Ref& r) { return r; }
	static Ref ref(const T& k) { return k; }
	static uint64_t tag(const T&) { return 0; }
	static T view(const Ref& r) { return r; }
};
template<bool A, bool B, bool C>
struct KT<Trk<A, B, C>>
{
	using T = Trk<A, B, C>;
	using Ref = int64_t;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n) { return gen_int<int>(r, shape, i, n); }
	static T make(const Ref& r) { return T(r); }
	static Ref ref(const T& k) { return k.get(); }
	static T view(const Ref& r) { return T(r); }
};
inline std::string gen_str(Rng& r, unsigned shape, size_t i)
{
	static const char* prefixes[] = { "", "a", "prefix_", "a long shared prefix that is over thirty two bytes/", "\xff\xff", "common" };
	std::string s;
	switch (shape % 6) {
		case 0:
			s = std::to_string(i);
			break;
		case 1:
			for (size_t k = r.below(20); k > 0; --k)
				s += static_cast<char>(r.next());
			break;
		case 2: // shared prefixes, nested
			s = prefixes[r.below(6)];
			for (size_t k = r.below(4); k > 0; --k)
				s += prefixes[r.below(6)];
			s += std::to_string(r.below(1000));
			break;
		case 3: // strings of the same letters, every length (prefix chains)
			s = std::string(r.below(70), 'x');
			if (r.coin())
				s += static_cast<char>(r.below(256));
			break;
		case 4: // two letters, includes zero bytes
			for (size_t k = r.below(14); k > 0; --k)
				s += r.coin() ? '\0' : (r.coin() ? '\1' : '\xff');
			break;
		default:
			s = std::string(r.below(3) * 20, 'k') + std::to_string(r.next() >> 40);
			break;
	}
	return s;
}
template<>
struct KT<std::string>
{
	using T = std::string;
	using Ref = std::string;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t) { return gen_str(r, shape, i); }
	static T make(const Ref& r) { return r; }
	static Ref ref(const T& k) { return k; }
	static std::string_view view(const Ref& r) { return r; }
};
// key with a payload that does not take part in the comparison
struct Tagged
{
	int k;
	int64_t tag;
	friend bool operator<(const Tagged& a, const Tagged& b) { return a.k < b.k; }
	friend bool operator>(const Tagged& a, const Tagged& b) { return a.k > b.k; }
	friend bool operator==(const Tagged& a, const Tagged& b) { return a.k == b.k; }
	friend bool operator!=(const Tagged& a, const Tagged& b) { return a.k != b.k; }
};
template<>
struct KT<Tagged>
{
	using T = Tagged;
	using Ref = int;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n) { return gen_int<int>(r, shape, i, n); }
	static T make(const Ref& r) { return T{ r, 0 }; }
	static Ref ref(const T& k) { return k.k; }
	static T view(const Ref& r) { return T{ r, -1 }; }
};
template<>
struct KT<double>
{
	using T = double;
	using Ref = double;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n)
	{
		switch (shape % 4) {
			case 0:
				return static_cast<double>(i) - static_cast<double>(n) / 2;
			case 1: {
				double d;
				uint64_t u = r.next();
				memcpy(&d, &u, 8);
				return std::isnan(d) ? 1.5 : d;
			}
			case 2:
				return (static_cast<double>(r.below(1000)) - 500) * std::pow(10., static_cast<double>(r.range(-300, 300)));
			default: {
				static const double s[] = { 0., std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), 1., -1. };
				return r.coin() ? s[r.below(9)] : std::ldexp(1. + static_cast<double>(r.below(8)), static_cast<int>(r.range(-60, 60))) * (r.coin() ? 1 : -1);
			}
		}
	}
	static T make(const Ref& r) { return r; }
	static Ref ref(const T& k) { return k; }
	static T view(const Ref& r) { return r; }
};
template<>
struct KT<float>
{
	using T = float;
	using Ref = float;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n)
	{
		float f = static_cast<float>(KT<double>::gen(r, shape, i, n));
		return std::isnan(f) ? 2.f : (f == 0 ? 0.f : f);
	}
	static T make(const Ref& r) { return r; }
	static Ref ref(const T& k) { return k; }
	static T view(const Ref& r) { return r; }
};

// ---- mapped traits
template<class M>
struct MT
{
	static M make(int64_t s) { return Make<M>::make(s); }
	static int64_t get(const M& m) { return val(m); }
};

struct E
{
	int code;
	int64_t stamp;
};

struct Opt
{
	unsigned maxn = 200;
	unsigned steps = 60;
	bool faults = false;
	unsigned fmask = 0;
	bool strong = false;
	bool bounds = true;
};

// Cfg: C, Key, Mapped (void for sets), K (Kind), Multi, Stable, Transp, Stamp (element carries a stamp), Desc(c&) , make(arena), alloc ids ...
template<class Cfg>
struct Tester
{
	using C = typename Cfg::C;
	using Key = typename Cfg::Key;
	using Mapped = typename Cfg::Mapped;
	using V = typename C::value_type;
	using KTr = KT<Key>;
	using Ref = typename KTr::Ref;
	static constexpr Kind K = Cfg::K;
	static constexpr bool Map = !std::is_void<Mapped>::value;
	static constexpr bool Multi = Cfg::Multi;
	static constexpr bool Stable = Cfg::Stable;
	static constexpr bool Sorted = K == FLAT || K == RADIX;
	static constexpr bool Stamp = Cfg::Stamp;
	static constexpr bool Copyable = Cfg::Copyable;

	Ctx& ctx;
	Rng& r;
	Opt opt;
	std::vector<Ref> pool;
	bool desc = false;
	int64_t next_stamp = 1;
	static constexpr int NC = 3;
	struct Slot
	{
		std::unique_ptr<C> c;
		std::vector<E> m;
		int arena = 0;
	};
	Slot s[NC];

	Tester(Ctx& c, const Opt& o)
	  : ctx(c)
	  , r(c.rng)
	  , opt(o)
	{
	}
	// ---- element helpers
	Key key(int code) { return KTr::make(pool[code]); }
	V value(int code, int64_t st)
	{
		if constexpr (Map)
			return V(key(code), MT<Mapped>::make(st));
		else if constexpr (std::is_same<Key, Tagged>::value)
			return Tagged{ pool[code], st };
		else
			return key(code);
	}
	template<class El>
	static const Key& ekey(const El& e)
	{
		if constexpr (Map)
			return e.first;
		else
			return e;
	}
	template<class El>
	int64_t estamp(const El& e)
	{
		if constexpr (Map)
			return MT<Mapped>::get(e.second);
		else if constexpr (std::is_same<Key, Tagged>::value)
			return e.tag;
		else
			return 0;
	}
	int64_t stamp()
	{
		if constexpr (Stamp)
			return next_stamp++;
		else
			return 0;
	}
	bool rless(const Ref& a, const Ref& b) const { return desc ? b < a : a < b; }
	int code_of(const Ref& x)
	{
		auto it = std::lower_bound(pool.begin(), pool.end(), x, [this](const Ref& a, const Ref& b) { return rless(a, b); });
		if (it == pool.end() || rless(x, *it))
			return -1;
		return static_cast<int>(it - pool.begin());
	}
	template<class El>
	int ecode(const El& e)
	{
		int c = code_of(KTr::ref(ekey(e)));
		ctx.check(c >= 0, "alien-key", "element key was never inserted");
		return c;
	}
	void make_pool()
	{
		unsigned shape = static_cast<unsigned>(r.below(6));
		size_t n = opt.maxn * (1 + r.below(3)) / 2 + 4;
		if (r.pct(15))
			n = 4 + r.below(8);
		bool mixed = r.pct(30);
		for (size_t i = 0; i < n; ++i)
			pool.push_back(KTr::gen(r, mixed ? static_cast<unsigned>(r.below(6)) : shape, i, n));
		std::sort(pool.begin(), pool.end(), [this](const Ref& a, const Ref& b) { return rless(a, b); });
		pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
	}
	int rcode(const Slot& x)
	{
		if (!x.m.empty() && r.pct(40))
			return x.m[r.below(x.m.size())].code;
		return static_cast<int>(r.below(pool.size()));
	}
	// ---- model helpers
	static size_t lb(const std::vector<E>& m, int code)
	{
		return std::lower_bound(m.begin(), m.end(), code, [](const E& e, int c) { return e.code < c; }) - m.begin();
	}
	static size_t ub(const std::vector<E>& m, int code)
	{
		return std::upper_bound(m.begin(), m.end(), code, [](int c, const E& e) { return c < e.code; }) - m.begin();
	}
	// index of the code or -1
	int64_t idx(const std::vector<E>& m, int code)
	{
		if constexpr (K != ORD) {
			size_t i = lb(m, code);
			return i < m.size() && m[i].code == code ? static_cast<int64_t>(i) : -1;
		}
		else {
			for (size_t i = 0; i < m.size(); ++i)
				if (m[i].code == code)
					return static_cast<int64_t>(i);
			return -1;
		}
	}
	// ---- verification
	template<class It, class El>
	void same_el(const It&, const El& el, const E& e, const char* what)
	{
		int c = ecode(el);
		ctx.check(c == e.code, what, "key code %d expected %d", c, e.code);
		if (Stamp)
			ctx.check(estamp(el) == e.stamp, "value", "%s: code %d holds %lld expected %lld", what, c, (long long)estamp(el), (long long)e.stamp);
	}
	void at_index(Slot& x, typename C::const_iterator it, int64_t i, const char* what)
	{
		if (i < 0 || i == static_cast<int64_t>(x.m.size()))
			ctx.check(it == static_cast<const C&>(*x.c).end(), what, "expected end()");
		else {
			ctx.check(it != static_cast<const C&>(*x.c).end(), what, "unexpected end(), size %zu index %lld", x.m.size(), (long long)i);
			same_el(it, *it, x.m[i], what);
		}
	}
	std::vector<E> observe(const C& c)
	{
		std::vector<E> o;
		size_t guard = c.size() + 8;
		for (auto it = c.begin(); it != c.end(); ++it) {
			o.push_back(E{ ecode(*it), estamp(*it) });
			ctx.check(o.size() <= guard, "iteration-too-long", "more than size() elements visited");
		}
		return o;
	}
	void verify(Slot& x, bool anywhere = false, int new_code = -1)
	{
		const C& c = *x.c;
		ctx.check(c.size() == x.m.size(), "size", "size %zu expected %zu", (size_t)c.size(), x.m.size());
		ctx.check(c.empty() == x.m.empty(), "empty", "empty() %d", (int)c.empty());
		std::vector<E> o = observe(c);
		ctx.check(o.size() == x.m.size(), "iteration", "visited %zu of %zu", o.size(), x.m.size());
		if (K == RHASH) {
			std::vector<E> q = o;
			std::sort(q.begin(), q.end(), [](const E& a, const E& b) { return a.code < b.code; });
			for (size_t i = 0; i < q.size(); ++i) {
				ctx.check(q[i].code == x.m[i].code, "content", "sorted position %zu holds code %d expected %d", i, q[i].code, x.m[i].code);
				ctx.check(q[i].stamp == x.m[i].stamp, "value", "code %d holds %lld expected %lld", q[i].code, (long long)q[i].stamp, (long long)x.m[i].stamp);
			}
		}
		else {
			if (anywhere) {
				// one element may have appeared at any place: adopt its position
				size_t i = 0;
				while (i < o.size() && o[i].code != new_code)
					++i;
				ctx.check(i < o.size(), "inserted-missing", "inserted code %d not visited", new_code);
				int64_t j = idx(x.m, new_code);
				E e = x.m[j];
				x.m.erase(x.m.begin() + j);
				x.m.insert(x.m.begin() + i, e);
			}
			for (size_t i = 0; i < o.size(); ++i) {
				ctx.check(o[i].code == x.m[i].code, "order", "position %zu holds code %d expected %d (size %zu)", i, o[i].code, x.m[i].code, o.size());
				ctx.check(o[i].stamp == x.m[i].stamp, "value", "position %zu code %d holds %lld expected %lld", i, o[i].code, (long long)o[i].stamp, (long long)x.m[i].stamp);
			}
		}
		// backward
		{
			C& nc = *x.c;
			auto it = nc.end();
			size_t i = o.size();
			while (i > 0) {
				--it;
				--i;
				int cd = ecode(*it);
				ctx.check(cd == o[i].code, "backward", "position %zu holds code %d expected %d", i, cd, o[i].code);
			}
			ctx.check(it == nc.begin(), "backward-begin", "begin() not reached backwards");
		}
		if constexpr (K != RHASH) {
			size_t i = o.size();
			for (auto it = c.rbegin(); it != c.rend(); ++it) {
				ctx.check(i > 0, "reverse-iteration", "too many elements");
				int cd = ecode(*it);
				--i;
				ctx.check(cd == o[i].code, "reverse-iteration", "position %zu holds code %d expected %d", i, cd, o[i].code);
			}
			ctx.check(i == 0, "reverse-iteration", "%zu elements missing", i);
		}
		MON_COUNT("full_verifications", 1);
		MON_COUNT("elements_compared", o.size());
		uint64_t h = mix(o.size(), K);
		if (!o.empty())
			h = mix(mix(h, o.front().code), mix(o.back().code, o[o.size() / 2].code));
		ctx.state(h);
	}
	void cheap(Slot& x)
	{
		ctx.check(x.c->size() == x.m.size(), "size", "size %zu expected %zu", (size_t)x.c->size(), x.m.size());
	}
	template<class KK>
	void lookup_with(Slot& x, const KK& k, int code)
	{
		C& c = *x.c;
		const C& cc = c;
		int64_t i = idx(x.m, code);
		size_t cnt = 0;
		if (Multi)
			cnt = ub(x.m, code) - lb(x.m, code);
		else
			cnt = i >= 0;
		MON_COUNT("lookups", 1);
		ctx.check(cc.contains(k) == (cnt > 0), "contains", "contains %d expected %zu", (int)cc.contains(k), cnt);
		ctx.check(cc.count(k) == cnt, "count", "count %zu expected %zu", (size_t)cc.count(k), cnt);
		{
			auto it = cc.find(k);
			if (i < 0)
				ctx.check(it == cc.end(), "find", "found a missing key");
			else {
				ctx.check(it != cc.end(), "find", "present key not found, code %d", code);
				if (!Multi)
					same_el(it, *it, x.m[i], "find");
				else
					ctx.check(ecode(*it) == code, "find", "wrong key");
			}
		}
		{
			auto it = c.find(k);
			ctx.check((it == c.end()) == (i < 0), "find-nonconst", "found %d", (int)(it != c.end()));
			if (i >= 0)
				ctx.check(ecode(*it) == code, "find-nonconst", "wrong key");
		}
		if constexpr (Sorted) {
			if (opt.bounds) {
				size_t l = lb(x.m, code), u = ub(x.m, code);
				at_index(x, cc.lower_bound(k), l, "lower_bound");
				at_index(x, cc.upper_bound(k), u, "upper_bound");
				auto er = cc.equal_range(k);
				at_index(x, er.first, l, "equal_range.first");
				at_index(x, er.second, u, "equal_range.second");
				if constexpr (K == FLAT) {
					at_index(x, c.lower_bound(k), l, "lower_bound-nonconst");
					at_index(x, c.upper_bound(k), u, "upper_bound-nonconst");
					auto ner = c.equal_range(k);
					at_index(x, ner.first, l, "equal_range-nonconst.first");
					at_index(x, ner.second, u, "equal_range-nonconst.second");
					ctx.check(cc.lower_bound_pos(k) == l, "lower_bound_pos", "%zu expected %zu", cc.lower_bound_pos(k), l);
					ctx.check(cc.upper_bound_pos(k) == u, "upper_bound_pos", "%zu expected %zu", cc.upper_bound_pos(k), u);
					auto ep = cc.equal_range_pos(k);
					ctx.check(ep.first == l && ep.second == u, "equal_range_pos", "%zu,%zu expected %zu,%zu", ep.first, ep.second, l, u);
					size_t fp = cc.find_pos(k);
					if (i < 0)
						ctx.check(fp == x.m.size(), "find_pos", "%zu expected size %zu", fp, x.m.size());
					else
						ctx.check(fp >= l && fp < u, "find_pos", "%zu expected %zu..%zu", fp, l, u);
				}
			}
		}
	}
	void lookup(Slot& x, int code)
	{
		if constexpr (!std::is_same<Key, Tagged>::value)
			lookup_with(x, key(code), code);
		else
			lookup_with(x, KTr::view(pool[code]), code);
		if constexpr (Cfg::Transp) {
			MON_COUNT("heterogeneous_lookups", 1);
			lookup_with(x, KTr::view(pool[code]), code);
			if constexpr (std::is_same<typename KTr::Ref, std::string>::value && Cfg::Literals) {
				// every other way to name the same string
				const std::string& s = pool[code];
				switch (r.below(5)) {
					case 0: lookup_with(x, s, code); break;
					case 1: lookup_with(x, seq::tstring(s.data(), s.size()), code); break;
					case 2: lookup_with(x, seq::tstring_view(s.data(), s.size()), code); break;
					case 3: lookup_with(x, seq::tiny_string<char, std::char_traits<char>, std::allocator<char>, 60>(s.data(), s.size()), code); break;
					default:
						if (s.find('\0') == std::string::npos)
							lookup_with(x, s.c_str(), code);
				}
			}
		}
		if constexpr (K == RADIX) {
			const auto* p = const_cast<const C&>(*x.c).find_ptr(key(code));
			int64_t i = idx(x.m, code);
			ctx.check((p != nullptr) == (i >= 0), "find_ptr", "%d expected %d", (int)(p != nullptr), (int)(i >= 0));
			if (p)
				same_el(p, *p, x.m[i], "find_ptr");
			if constexpr (Cfg::Prefix)
				prefix_lookup(x, code);
		}
	}
	void prefix_lookup(Slot& x, int code)
	{
		Ref pre = pool[code];
		pre.resize(r.below(pre.size() + 1));
		if (r.pct(10))
			pre.push_back(static_cast<typename Ref::value_type>(r.below(128)));
		size_t first = 0, n = 0;
		for (size_t i = 0; i < x.m.size(); ++i)
			if (pool[x.m[i].code].compare(0, pre.size(), pre) == 0) {
				if (!n)
					first = i;
				++n;
			}
		MON_COUNT("prefix_lookups", 1);
		MON_COUNT("prefix_matches", n);
		Key pk = KTr::make(pre);
		const C& c = *x.c;
		auto it = c.prefix(pk);
		if (!n)
			ctx.check(it == c.end(), "prefix", "element found for an absent prefix");
		else {
			ctx.check(it != c.end(), "prefix", "end() for a prefix of %zu elements", n);
			same_el(it, *it, x.m[first], "prefix");
		}
		auto pr = c.prefix_range(pk);
		size_t k = 0;
		for (auto p = pr.first; p != pr.second; ++p, ++k) {
			ctx.check(k < n, "prefix_range", "more than the %zu expected elements", n);
			same_el(p, *p, x.m[first + k], "prefix_range");
		}
		ctx.check(k == n, "prefix_range", "%zu elements expected %zu", k, n);
	}
	// ---- recover the model after an injected exception
	void after_fault(Slot& x, const std::vector<E>& before, const char* op)
	{
		Fault::disarm();
		MON_COUNT("exceptions_injected", 1);
		if constexpr (K == ORD) {
			if (x.c->sequence().size() != 0) {
			}
		}
		std::vector<E> o = observe(*x.c);
		ctx.check(o.size() == x.c->size(), "fault-size", "%s: size() %zu but %zu visited", op, (size_t)x.c->size(), o.size());
		if (opt.strong) {
			bool same = o.size() == before.size();
			std::vector<E> a = o, b = before;
			auto cmp = [](const E& p, const E& q) { return p.code != q.code ? p.code < q.code : p.stamp < q.stamp; };
			if (K == RHASH) {
				std::sort(a.begin(), a.end(), cmp);
				std::sort(b.begin(), b.end(), cmp);
			}
			for (size_t i = 0; same && i < a.size(); ++i)
				same = a[i].code == b[i].code && a[i].stamp == b[i].stamp;
			ctx.check(same, "strong-guarantee", "%s: content changed by a failed operation (size %zu -> %zu)", op, before.size(), o.size());
		}
		if (K == RHASH)
			std::sort(o.begin(), o.end(), [](const E& p, const E& q) { return p.code < q.code; });
		x.m = o;
		// still a valid container: order, uniqueness, lookups
		std::vector<int> seen;
		for (auto& e : o)
			seen.push_back(e.code);
		if (Sorted)
			for (size_t i = 1; i < seen.size(); ++i)
				ctx.check(Multi ? seen[i - 1] <= seen[i] : seen[i - 1] < seen[i], "fault-order", "%s: order broken at %zu of %zu", op, i, seen.size());
		else {
			std::sort(seen.begin(), seen.end());
			for (size_t i = 1; i < seen.size(); ++i)
				ctx.check(seen[i - 1] != seen[i], "fault-duplicate", "%s: key present twice", op);
		}
		verify(x);
		for (auto& e : o)
			if (r.pct(20))
				lookup(x, e.code);
	}
	template<class F>
	bool guarded(Slot& x, const char* name, F&& f)
	{
		if (!opt.faults) {
			f();
			return true;
		}
		std::vector<E> before = x.m;
		bool armed = r.pct(45);
		if (armed) {
			// most often early, sometimes deep in the operation
			int64_t n = 1 + static_cast<int64_t>(r.pct(60) ? r.below(6) : r.below(8 + 2 * before.size()));
			Fault::arm(n, opt.fmask);
		}
		try {
			f();
			Fault::disarm();
			return true;
		}
		catch (const Injected&) {
			ctx.vtrace("injected exception in %s", name);
			after_fault(x, before, name);
			return false;
		}
	}
	// ---- operations
	C fresh_impl(int arena) { return Cfg::make(arena, desc); }
	void fresh(Slot& x)
	{
		x.c.reset();
		x.c.reset(Cfg::create(x.arena, desc));
		x.m.clear();
	}
	// index where a new element goes in the model; -1 in ORD for anywhere
	enum Where
	{
		Any,
		Back,
		Front
	};
	size_t model_insert(Slot& x, int code, int64_t st, Where w)
	{
		size_t p;
		if (K == ORD)
			p = w == Front ? 0 : x.m.size();
		else
			p = ub(x.m, code);
		x.m.insert(x.m.begin() + p, E{ code, st });
		return p;
	}
	template<class RR>
	void check_ins(Slot& x, const RR& res, int code, int64_t st, Where w, bool existing_kept = true)
	{
		int64_t i = idx(x.m, code);
		if constexpr (Multi) {
			size_t p = model_insert(x, code, st, w);
			if constexpr (std::is_convertible<RR, size_t>::value)
				ctx.check(static_cast<size_t>(res) == p, "insert-pos", "%zu expected %zu", static_cast<size_t>(res), p);
			else
				at_index(x, res, static_cast<int64_t>(p), "insert-result");
		}
		else {
			ctx.check(res.second == (i < 0), "insert-flag", "inserted %d but key %s present, code %d", (int)res.second, i < 0 ? "not" : "was", code);
			size_t p;
			if (i < 0)
				p = model_insert(x, code, st, w);
			else {
				p = static_cast<size_t>(i);
				if (!existing_kept)
					x.m[p].stamp = st;
			}
			if constexpr (std::is_same<decltype(res.first), size_t>::value || std::is_same<decltype(res.first), const size_t>::value)
				ctx.check(res.first == p, "insert-pos", "%zu expected %zu", (size_t)res.first, p);
			else {
				ctx.check(res.first != x.c->end(), "insert-result", "end() returned");
				same_el(res.first, *res.first, x.m[p], "insert-result");
			}
		}
		settle(x, K == ORD && w == Any && i < 0, code);
	}
	// iterator-only result
	template<class It>
	void check_hint(Slot& x, const It& it, int code, int64_t st, Where w = Any, bool existing_kept = true)
	{
		int64_t i = idx(x.m, code);
		if constexpr (Multi) {
			ctx.check(it != x.c->end() && ecode(*it) == code, "hint-result", "wrong element");
			model_insert(x, code, st, w);
			// any place among equal keys
			adopt_equal(x);
			return;
		}
		else {
			size_t p;
			if (i < 0)
				p = model_insert(x, code, st, w);
			else {
				p = static_cast<size_t>(i);
				if (!existing_kept)
					x.m[p].stamp = st;
			}
			ctx.check(it != x.c->end(), "hint-result", "end() returned");
			same_el(it, *it, x.m[p], "hint-result");
			settle(x, K == ORD && w == Any && i < 0, code);
		}
	}
	void settle(Slot& x, bool anywhere, int code)
	{
		if (x.m.size() <= 24 || r.pct(static_cast<unsigned>(2400 / x.m.size()) + 3) || anywhere)
			verify(x, anywhere, code);
		else
			cheap(x);
	}
	// equal keys may be in any relative order: check multisets per key then adopt
	void adopt_equal(Slot& x)
	{
		std::vector<E> o = observe(*x.c);
		ctx.check(o.size() == x.m.size(), "size", "%zu elements expected %zu", o.size(), x.m.size());
		for (size_t i = 0; i < o.size();) {
			size_t j = i;
			while (j < o.size() && x.m[j].code == x.m[i].code)
				++j;
			std::vector<int64_t> a, b;
			for (size_t k = i; k < j; ++k) {
				ctx.check(o[k].code == x.m[i].code, "order", "position %zu holds code %d expected %d", k, o[k].code, x.m[i].code);
				a.push_back(o[k].stamp);
				b.push_back(x.m[k].stamp);
			}
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			ctx.check(a == b, "value", "elements of key code %d are not the inserted ones", x.m[i].code);
			for (size_t k = i; k < j; ++k)
				x.m[k].stamp = o[k].stamp;
			i = j;
		}
		verify(x);
	}
	typename C::const_iterator iter_at(Slot& x, size_t i)
	{
		auto it = static_cast<const C&>(*x.c).begin();
		for (; i > 0; --i)
			++it;
		return it;
	}
	typename C::const_iterator rhint(Slot& x, int code)
	{
		if constexpr (Sorted) {
			switch (r.below(4)) {
				case 0:
					return static_cast<const C&>(*x.c).end();
				case 1:
					return static_cast<const C&>(*x.c).lower_bound(key(code));
				case 2:
					return static_cast<const C&>(*x.c).upper_bound(key(code));
				default:
					return iter_at(x, r.below(x.m.size() + 1));
			}
		}
		else
			return r.coin() ? static_cast<const C&>(*x.c).end() : static_cast<const C&>(*x.c).begin();
	}
	void range_model(Slot& x, const std::vector<E>& in)
	{
		// insert a range: existing keys keep their element; new equal keys: first of the range when stable
		std::vector<E> old = x.m;
		if constexpr (Multi) {
			for (auto& e : in)
				model_insert(x, e.code, e.stamp, Any);
			if (Stable) {
				verify(x);
				return;
			}
			// without the Stable parameter the order of equivalent elements after a range insertion is unspecified
			adopt_equal(x);
		}
		else {
			std::vector<std::pair<int, int64_t>> order;
			for (auto& e : in)
				if (idx(x.m, e.code) < 0)
					model_insert(x, e.code, e.stamp, Any);
			std::vector<E> o = observe(*x.c);
			ctx.check(o.size() == x.m.size(), "size", "%zu expected %zu after a range insertion", o.size(), x.m.size());
			bool exact = Stable || K != FLAT;
			if (K == ORD) {
				// adopt order: old elements keep their relative order
				std::vector<E> keep;
				for (auto& e : o) {
					int64_t i = idx(x.m, e.code);
					ctx.check(i >= 0, "content", "unexpected code %d", e.code);
					ctx.check(x.m[i].stamp == e.stamp, "value", "code %d holds %lld expected %lld", e.code, (long long)e.stamp, (long long)x.m[i].stamp);
					if (idx(old, e.code) >= 0)
						keep.push_back(e);
				}
				for (size_t i = 0; i < old.size(); ++i)
					ctx.check(i < keep.size() && keep[i].code == old[i].code, "order", "relative order of old elements changed");
				x.m = o;
			}
			else if (!exact && Stamp) {
				if (K == RHASH)
					std::sort(o.begin(), o.end(), [](const E& a, const E& b) { return a.code < b.code; });
				for (size_t i = 0; i < o.size(); ++i) {
					ctx.check(o[i].code == x.m[i].code, "order", "position %zu holds code %d expected %d", i, o[i].code, x.m[i].code);
					if (o[i].stamp != x.m[i].stamp) {
						// which of the equivalent elements is kept is unspecified without the Stable parameter (flat containers)
						if (K != FLAT)
							ctx.check(idx(old, o[i].code) < 0, "range-altered-existing", "code %d was present and its element changed", o[i].code);
						bool ok = false;
						for (auto& e : in)
							ok = ok || (e.code == o[i].code && e.stamp == o[i].stamp);
						ctx.check(ok, "value", "code %d holds a value that is not in the range", o[i].code);
						x.m[i].stamp = o[i].stamp;
					}
				}
			}
			verify(x);
		}
	}
	std::vector<E> gen_range(Slot& x, bool& sorted_unique)
	{
		std::vector<E> v;
		size_t n;
		switch (r.below(4)) {
			case 0:
				n = r.below(4);
				break;
			case 1:
				n = r.below(x.m.size() + 2);
				break;
			default:
				n = r.below(opt.maxn / 2 + 2);
				break;
		}
		for (size_t i = 0; i < n; ++i)
			v.push_back(E{ rcode(x), 0 });
		unsigned shape = static_cast<unsigned>(r.below(4));
		if (sorted_unique)
			shape = 3;
		auto less = [](const E& a, const E& b) { return a.code < b.code; };
		if (shape == 1 || shape == 3)
			std::stable_sort(v.begin(), v.end(), less);
		if (shape == 2)
			std::stable_sort(v.rbegin(), v.rend(), less);
		if (shape == 3 && !Multi)
			v.erase(std::unique(v.begin(), v.end(), [](const E& a, const E& b) { return a.code == b.code; }), v.end());
		for (auto& e : v)
			e.stamp = stamp();
		return v;
	}
	template<class F>
	void with_values(const std::vector<E>& in, F f)
	{
		std::vector<V> vals;
		vals.reserve(in.size());
		for (auto& e : in)
			vals.push_back(value(e.code, e.stamp));
		f(vals);
	}
	void op_insert(Slot& x)
	{
		C& c = *x.c;
		int code = rcode(x);
		int64_t st = stamp();
		unsigned k = static_cast<unsigned>(r.below(Map ? 13 : 8));
		if (K == FLAT && Map && Multi && k >= 8)
			k -= 8;
		static const char* names[] = { "insert_move", "insert_copy", "emplace", "emplace_hint", "insert_hint_copy", "insert_hint_move", "insert_pos", "emplace_pos", "try_emplace", "try_emplace_hint", "insert_or_assign", "insert_or_assign_hint", "operator[]" };
		ctx.op(names[k], code, st);
		guarded(x, names[k], [&]() {
			switch (k) {
				case 0:
					check_ins2(x, [&]() { return c.insert(value(code, st)); }, code, st, Any);
					return;
				case 1:
					if constexpr (Copyable) {
						V v = value(code, st);
						check_ins2(x, [&]() { return c.insert(v); }, code, st, Any);
						ctx.check(ecode(v) == code, "argument-altered", "copied argument changed");
						return;
					}
					check_ins2(x, [&]() { return c.insert(value(code, st)); }, code, st, Any);
					return;
				case 2:
					if constexpr (Map) {
						if (r.coin()) {
							check_ins2(x, [&]() { return c.emplace(key(code), MT<Mapped>::make(st)); }, code, st, Any);
							return;
						}
					}
					check_ins2(x, [&]() { return c.emplace(value(code, st)); }, code, st, Any);
					return;
				case 3: {
					auto h = rhint(x, code);
					auto it = c.emplace_hint(h, value(code, st));
					Fault::disarm();
					check_hint(x, it, code, st);
					return;
				}
				case 4:
					if constexpr (Copyable) {
						V v = value(code, st);
						auto h = rhint(x, code);
						auto it = c.insert(h, v);
						Fault::disarm();
						check_hint(x, it, code, st);
						return;
					}
					// fall through
				case 5: {
					auto h = rhint(x, code);
					auto it = c.insert(h, value(code, st));
					Fault::disarm();
					check_hint(x, it, code, st);
					return;
				}
				case 6:
					if constexpr (K == FLAT) {
						check_ins2(x, [&]() { return c.insert_pos(value(code, st)); }, code, st, Any);
						return;
					}
					check_ins2(x, [&]() { return c.insert(value(code, st)); }, code, st, Any);
					return;
				case 7:
					if constexpr (K == FLAT) {
						check_ins2(x, [&]() { return c.emplace_pos(value(code, st)); }, code, st, Any);
						return;
					}
					else if constexpr (K == ORD) {
						int q = static_cast<int>(r.below(6));
						Where w = (q & 1) ? Front : Back;
						check_ins2(
						  x,
						  [&]() {
							  switch (q) {
								  case 0:
									  return c.push_back(value(code, st));
								  case 1:
									  return c.push_front(value(code, st));
								  case 2:
									  return c.emplace_back(value(code, st));
								  case 3:
									  return c.emplace_front(value(code, st));
								  default:
									  break;
							  }
							  if constexpr (Copyable) {
								  V v = value(code, st);
								  return q == 4 ? c.push_back(v) : c.push_front(v);
							  }
							  else
								  return q == 4 ? c.push_back(value(code, st)) : c.push_front(value(code, st));
						  },
						  code,
						  st,
						  w);
						return;
					}
					check_ins2(x, [&]() { return c.insert(value(code, st)); }, code, st, Any);
					return;
				default:
					break;
			}
			if constexpr (Map && !Multi) {
				switch (k) {
					case 8: {
						int q = K == ORD ? static_cast<int>(r.below(3)) : 0;
						bool mv = r.coin();
						Where w = q == 0 ? Any : q == 1 ? Back : Front;
						bool was = idx(x.m, code) >= 0;
						Mapped mm = MT<Mapped>::make(st);
						Key kk = key(code);
						check_ins2(
						  x,
						  [&]() {
							  if constexpr (K == ORD) {
								  if (q == 1)
									  return mv ? c.try_emplace_back(std::move(kk), std::move(mm)) : c.try_emplace_back(kk, std::move(mm));
								  if (q == 2)
									  return mv ? c.try_emplace_front(std::move(kk), std::move(mm)) : c.try_emplace_front(kk, std::move(mm));
							  }
							  return mv ? c.try_emplace(std::move(kk), std::move(mm)) : c.try_emplace(kk, std::move(mm));
						  },
						  code,
						  st,
						  w);
						if (was && !opt.faults) // try_emplace must not consume its arguments when the key exists
						{
							ctx.check(MT<Mapped>::get(mm) == st, "try_emplace-consumed", "mapped argument consumed although the key was present");
							ctx.check(KTr::ref(kk) == pool[code], "try_emplace-consumed-key", "key argument consumed although the key was present");
						}
						return;
					}
					case 9: {
						auto h = rhint(x, code);
						auto it = r.coin() ? c.try_emplace(h, key(code), MT<Mapped>::make(st)) : [&]() { Key kk = key(code); return c.try_emplace(h, kk, MT<Mapped>::make(st)); }();
						Fault::disarm();
						check_hint(x, it, code, st);
						return;
					}
					case 10: {
						int q = K == ORD ? static_cast<int>(r.below(3)) : 0;
						Where w = q == 0 ? Any : q == 1 ? Back : Front;
						bool mv = r.coin();
						Key kk = key(code);
						check_ins2(
						  x,
						  [&]() {
							  if constexpr (K == ORD) {
								  if (q == 1)
									  return mv ? c.push_back_or_assign(std::move(kk), MT<Mapped>::make(st)) : c.push_back_or_assign(kk, MT<Mapped>::make(st));
								  if (q == 2)
									  return mv ? c.push_front_or_assign(std::move(kk), MT<Mapped>::make(st)) : c.push_front_or_assign(kk, MT<Mapped>::make(st));
							  }
							  return mv ? c.insert_or_assign(std::move(kk), MT<Mapped>::make(st)) : c.insert_or_assign(kk, MT<Mapped>::make(st));
						  },
						  code,
						  st,
						  w,
						  false);
						return;
					}
					case 11: {
						auto h = rhint(x, code);
						Key kk = key(code);
						auto it = r.coin() ? c.insert_or_assign(h, kk, MT<Mapped>::make(st)) : c.insert_or_assign(h, std::move(kk), MT<Mapped>::make(st));
						Fault::disarm();
						check_hint(x, it, code, st, Any, false);
						return;
					}
					case 12: {
						if constexpr (K != ORD || Cfg::HasBracket) {
							int64_t i = idx(x.m, code);
							Mapped& ref = c[key(code)];
							Fault::disarm();
							if (i >= 0)
								ctx.check(MT<Mapped>::get(ref) == x.m[i].stamp, "bracket", "operator[] returned another value");
							ref = MT<Mapped>::make(st);
							if (i >= 0)
								x.m[i].stamp = st;
							else
								model_insert(x, code, st, Any);
							settle(x, K == ORD && i < 0, code);
						}
						return;
					}
				}
			}
		});
	}
	template<class F>
	void check_ins2(Slot& x, F f, int code, int64_t st, Where w, bool kept = true)
	{
		auto res = f();
		Fault::disarm();
		check_ins(x, res, code, st, w, kept);
	}
	// through either iterator type
	typename C::iterator erase_at(Slot& x, size_t p)
	{
		C& c = *x.c;
		if (r.pct(40)) {
			typename C::iterator it = c.begin();
			std::advance(it, static_cast<typename C::difference_type>(p));
			return c.erase(it);
		}
		return c.erase(iter_at(x, p));
	}
	void op_erase(Slot& x)
	{
		C& c = *x.c;
		unsigned k = static_cast<unsigned>(r.below(6));
		if (x.m.empty() && (k == 1 || k == 4))
			k = 0;
		static const char* names[] = { "erase_key", "erase_it", "erase_range", "erase_if", "erase_pos", "erase_view" };
		int code = rcode(x);
		ctx.op(names[k], code);
		guarded(x, names[k], [&]() {
			switch (k) {
				case 0:
				case 5: {
					size_t n = 0;
					size_t before = Multi ? ub(x.m, code) - lb(x.m, code) : (idx(x.m, code) >= 0);
					if constexpr (Cfg::Transp) {
						if (k == 5)
							n = c.erase(KTr::view(pool[code]));
						else
							n = c.erase(key(code));
					}
					else
						n = c.erase(key(code));
					Fault::disarm();
					ctx.check(n == before, "erase-count", "%zu expected %zu", n, before);
					x.m.erase(std::remove_if(x.m.begin(), x.m.end(), [&](const E& e) { return e.code == code; }), x.m.end());
					break;
				}
				case 1: {
					if constexpr (K == RHASH) {
						// position in the traversal
						std::vector<E> o = observe(c);
						size_t p = r.below(o.size());
						auto it = erase_at(x, p);
						Fault::disarm();
						x.m.erase(x.m.begin() + idx(x.m, o[p].code));
						if (p + 1 == o.size())
							ctx.check(it == c.end(), "erase-next", "expected end()");
						else {
							ctx.check(it != c.end(), "erase-next", "unexpected end(): erased %zu of %zu", p, o.size());
							ctx.check(ecode(*it) == o[p + 1].code, "erase-next", "returned another element than the next one");
						}
					}
					else {
						size_t p = r.below(x.m.size());
						auto it = erase_at(x, p);
						Fault::disarm();
						x.m.erase(x.m.begin() + p);
						at_index(x, it, p, "erase-next");
					}
					break;
				}
				case 2: {
					std::vector<E> o = K == RHASH ? observe(c) : x.m;
					size_t a = r.below(o.size() + 1), b = a + (r.pct(70) ? r.below(std::min<size_t>(o.size() - a, 10) + 1) : r.below(o.size() - a + 1));
					if (opt.strong)
						b = std::min(b, a + 1); // multi element erasure is not one step
					auto it = c.erase(iter_at(x, a), iter_at(x, b));
					Fault::disarm();
					if (K == RHASH) {
						for (size_t i = a; i < b; ++i)
							x.m.erase(x.m.begin() + idx(x.m, o[i].code));
						if (b == o.size())
							ctx.check(it == c.end(), "erase-range-next", "expected end()");
						else
							ctx.check(it != c.end() && ecode(*it) == o[b].code, "erase-range-next", "wrong element");
					}
					else {
						x.m.erase(x.m.begin() + a, x.m.begin() + b);
						at_index(x, it, a, "erase-range-next");
					}
					break;
				}
				case 3: {
					int mod = 2 + static_cast<int>(r.below(6));
					int rem = static_cast<int>(r.below(mod));
					if (opt.strong)
						break;
					size_t n = 0;
					if constexpr (Copyable || K != FLAT) {
						n = erase_if(c, [&](const auto& e) {
							Fault::point(Fault::User);
							return ecode(e) % mod == rem;
						});
						Fault::disarm();
						size_t b = x.m.size();
						x.m.erase(std::remove_if(x.m.begin(), x.m.end(), [&](const E& e) { return e.code % mod == rem; }), x.m.end());
						ctx.check(n == b - x.m.size(), "erase_if-count", "%zu expected %zu", n, b - x.m.size());
					}
					break;
				}
				case 4:
					if constexpr (K == FLAT) {
						size_t p = r.below(x.m.size());
						if (r.coin()) {
							c.erase_pos(p);
							Fault::disarm();
							x.m.erase(x.m.begin() + p);
						}
						else {
							size_t b = p + r.below(x.m.size() - p + 1);
							c.erase(p, b);
							Fault::disarm();
							x.m.erase(x.m.begin() + p, x.m.begin() + b);
						}
					}
					break;
			}
			settle(x, false, -1);
		});
	}
	void op_range(Slot& x)
	{
		if constexpr (Copyable) {
			C& c = *x.c;
			unsigned k = static_cast<unsigned>(r.below(7));
			static const char* names[] = { "insert_range_ra", "insert_range_list", "insert_range_il", "insert_sorted_unique", "assign_range", "construct_range", "assign_list" };
			if (opt.strong)
				return;
			bool su = k == 3;
			std::vector<E> in = gen_range(x, su);
			if (k == 2 && in.size() > 3)
				in.resize(3);
			ctx.op(names[k], in.size());
			guarded(x, names[k], [&]() {
				with_values(in, [&](std::vector<V>& v) {
					switch (k) {
						case 0:
							c.insert(v.begin(), v.end());
							break;
						case 1: {
							std::list<V> l(v.begin(), v.end());
							c.insert(l.begin(), l.end());
							break;
						}
						case 2:
							if (v.size() == 3)
								c.insert({ v[0], v[1], v[2] });
							else if (v.size() == 2)
								c.insert({ v[0], v[1] });
							else if (v.size() == 1)
								c.insert({ v[0] });
							else
								c.insert(std::initializer_list<V>());
							break;
						case 3:
							if constexpr (K == FLAT) {
								if constexpr (Multi)
									c.insert(typename Cfg::SortedTag{}, v.begin(), v.end());
								else
									c.insert(typename Cfg::SortedTag{}, v.begin(), v.end());
								break;
							}
							c.insert(v.begin(), v.end());
							break;
						case 4:
						case 6: {
							x.m.clear();
							if constexpr (Sorted) {
								if (k == 4)
									c.assign(v.begin(), v.end());
								else {
									std::list<V> l(v.begin(), v.end());
									c.assign(l.begin(), l.end());
								}
								break;
							}
							c.clear();
							c.insert(v.begin(), v.end());
							break;
						}
						case 5: {
							x.c.reset(Cfg::create_range(x.arena, desc, v));
							x.m.clear();
							break;
						}
					}
					Fault::disarm();
				});
				range_model(x, in);
			});
		}
	}
	void op_whole(Slot& x)
	{
		Slot& y = s[r.below(NC)];
		unsigned k = static_cast<unsigned>(r.below(11));
		static const char* names[] = { "copy_construct", "copy_assign", "move_construct", "move_assign", "swap", "clear", "equal", "merge", "extract_replace", "shrink", "self" };
		ctx.op(names[k], static_cast<int>(&x - s), static_cast<int>(&y - s));
		if (&x == &y && k != 5 && k != 9 && k != 10 && k != 8)
			return;
		guarded(x, names[k], [&]() {
			switch (k) {
				case 0:
					if constexpr (Copyable) {
						std::unique_ptr<C> n(Cfg::copy(*x.c, x.arena, r.coin()));
						Fault::disarm();
						ctx.check(n->size() == x.m.size(), "copy-size", "%zu", (size_t)n->size());
						// the copy replaces y, x must be unchanged
						y.c = std::move(n);
						y.m = x.m;
						y.arena = Cfg::arena_of(*y.c);
						verify_adopt(y, x);
					}
					break;
				case 1:
					if constexpr (Copyable) {
						if (opt.strong)
							break;
						bool pocca = Cfg::pocca();
						*x.c = static_cast<const C&>(*y.c);
						Fault::disarm();
						x.m = y.m;
						int want = pocca ? y.arena : x.arena;
						x.arena = Cfg::arena_of(*x.c);
						ctx.check(!Cfg::Alloc || x.arena == want, "allocator-propagation", "copy assignment: allocator %d expected %d", x.arena, want);
						verify_adopt(x, y);
					}
					break;
				case 2: {
					std::unique_ptr<C> n(new C(std::move(*x.c)));
					Fault::disarm();
					std::vector<E> m = x.m;
					int ar = x.arena;
					x.c->clear();
					ctx.check(x.c->size() == 0, "moved-clear", "moved-from not empty after clear");
					if (r.coin())
						x.c = std::move(n), x.m = m;
					else {
						y.c = std::move(n);
						y.m = m;
						y.arena = ar;
						x.m.clear();
						verify(y);
					}
					verify(x);
					ctx.check(!Cfg::Alloc || Cfg::arena_of(*y.c) == y.arena, "allocator-propagation", "move construction lost the allocator");
					break;
				}
				case 3: {
					if (!Cfg::movable(x.arena, y.arena))
						break;
					bool pocma = Cfg::pocma();
					*x.c = std::move(*y.c);
					Fault::disarm();
					x.m = y.m;
					int want = pocma ? y.arena : x.arena;
					x.arena = Cfg::arena_of(*x.c);
					ctx.check(!Cfg::Alloc || x.arena == want, "allocator-propagation", "move assignment: allocator %d expected %d", x.arena, want);
					if (r.coin())
						y.c->clear();
					else
						fresh(y);
					y.m.clear();
					y.arena = Cfg::arena_of(*y.c);
					verify(x);
					verify(y);
					break;
				}
				case 4:
					if (Cfg::Alloc && !Cfg::pocs() && x.arena != y.arena)
						break;
					x.c->swap(*y.c);
					Fault::disarm();
					std::swap(x.m, y.m);
					std::swap(x.arena, y.arena);
					if (Cfg::Alloc) {
						ctx.check(Cfg::arena_of(*x.c) == x.arena, "allocator-propagation", "swap");
					}
					verify(x);
					verify(y);
					break;
				case 5:
					if (r.pct(30)) {
						x.c->clear();
						x.m.clear();
					}
					verify(x);
					break;
				case 6: {
					if constexpr (Cfg::HasEq) {
						auto key_only = [&](const Slot& p) {
							std::vector<std::pair<int, int64_t>> v;
							for (auto& e : p.m)
								v.emplace_back(e.code, Map ? e.stamp : 0);
							if (K == ORD || K == RHASH)
								std::sort(v.begin(), v.end());
							return v;
						};
						bool want = key_only(x) == key_only(y);
						bool eq = (*x.c == *y.c), ne = (*x.c != *y.c);
						Fault::disarm();
						ctx.check(eq == want, "equality", "== gives %d expected %d (sizes %zu %zu)", (int)eq, (int)want, x.m.size(), y.m.size());
						ctx.check(ne == !want, "inequality", "!= gives %d", (int)ne);
					}
					break;
				}
				case 7: {
					if constexpr (Cfg::HasMerge) {
						if (Cfg::Alloc && x.arena != y.arena)
							break;
						if (opt.strong)
							break;
						x.c->merge(*y.c);
						Fault::disarm();
						if constexpr (Multi) {
							for (auto& e : y.m)
								model_insert(x, e.code, e.stamp, Any);
							y.m.clear();
						}
						else {
							std::vector<E> rest;
							for (auto& e : y.m)
								if (idx(x.m, e.code) < 0)
									model_insert(x, e.code, e.stamp, Any);
								else
									rest.push_back(e);
							y.m = rest;
						}
						verify(x);
						verify(y);
					}
					break;
				}
				case 8:
					if constexpr (K == FLAT) {
						auto t = x.c->extract();
						ctx.check(x.c->size() == 0, "extract", "not empty after extract()");
						ctx.check(t.size() == x.m.size(), "extract", "%zu elements expected %zu", t.size(), x.m.size());
						x.c->replace(std::move(t));
						verify(x);
					}
					break;
				case 9:
					if constexpr (K == RADIX) {
						if constexpr (!Map || Cfg::HasShrink)
							x.c->shrink_to_fit();
					}
					else if constexpr (K == RHASH) {
						if (r.coin())
							x.c->rehash();
						else
							x.c->reserve(r.below(opt.maxn * 2));
					}
					else if constexpr (K == ORD) {
						switch (r.below(4)) {
							case 0:
								x.c->rehash();
								break;
							case 1:
								x.c->reserve(r.below(opt.maxn * 2));
								break;
							case 2:
								x.c->shrink_to_fit();
								break;
							default:
								x.c->rehash(r.below(opt.maxn));
								break;
						}
					}
					Fault::disarm();
					verify(x);
					break;
				case 10: {
					// self assignment and self swap
					C& c = *x.c;
					if constexpr (Copyable)
						if (r.coin())
							c = *&c;
					if (r.coin())
						c.swap(c);
					verify(x);
					break;
				}
			}
		});
		if (opt.faults) {
			// a failed two-container operation may have touched y as well
			Fault::disarm();
			if (y.c->size() != y.m.size() || true) {
				std::vector<E> o = observe(*y.c);
				if (K == RHASH)
					std::sort(o.begin(), o.end(), [](const E& a, const E& b) { return a.code < b.code; });
				if (o.size() != y.m.size())
					MON_COUNT("peer_changed_by_failed_operation", 1);
				y.m = o;
				y.arena = Cfg::arena_of(*y.c);
				x.arena = Cfg::arena_of(*x.c);
			}
		}
	}
	// same content as z; order of ordered containers must be the same too
	void verify_adopt(Slot& x, Slot& z)
	{
		verify(x);
		verify(z);
	}
	void op_misc(Slot& x)
	{
		C& c = *x.c;
		if constexpr (Map && !Multi) {
			int code = rcode(x);
			int64_t i = idx(x.m, code);
			ctx.op("at", code);
			bool thrown = false;
			try {
				const C& cc = c;
				int64_t st = r.coin() ? MT<Mapped>::get(c.at(key(code))) : MT<Mapped>::get(cc.at(key(code)));
				ctx.check(i >= 0, "at", "no exception for a missing key");
				ctx.check(st == x.m[i].stamp, "at", "wrong value");
			}
			catch (const std::out_of_range&) {
				thrown = true;
			}
			ctx.check(thrown == (i < 0), "at-throws", "out_of_range %d expected %d", (int)thrown, (int)(i < 0));
		}
		if constexpr (K == FLAT) {
			if (!x.m.empty()) {
				size_t p = r.below(x.m.size());
				ctx.op("pos", p);
				const C& cc = c;
				ctx.check(ecode(cc.pos(p)) == x.m[p].code, "pos", "wrong element at position %zu", p);
				ctx.check(cc.container().size() == x.m.size(), "container", "size");
				auto it = cc.begin() + static_cast<std::ptrdiff_t>(p);
				ctx.check(ecode(*it) == x.m[p].code, "iterator-arith", "begin()+%zu", p);
				ctx.check(cc.end() - it == static_cast<std::ptrdiff_t>(x.m.size() - p), "iterator-diff", "end()-it");
			}
		}
		if constexpr (K == RHASH || K == ORD) {
			ctx.op("observers");
			(void)c.load_factor();
			ctx.check(c.max_load_factor() > 0, "max_load_factor", "not positive");
		}
		if constexpr (K == ORD)
			op_ordered(x);
	}
	void op_ordered(Slot& x)
	{
		if constexpr (K == ORD) {
			C& c = *x.c;
			if (opt.strong)
				return;
			switch (r.below(4)) {
				case 0: {
					ctx.op("sort");
					guarded(x, "sort", [&]() {
						c.sort();
						Fault::disarm();
						std::stable_sort(x.m.begin(), x.m.end(), [&](const E& a, const E& b) { return pool[a.code] < pool[b.code]; });
						verify(x);
					});
					break;
				}
				case 1: {
					ctx.op("sort_less");
					guarded(x, "sort_less", [&]() {
						c.sort([&](const auto& a, const auto& b) {
							Fault::point(Fault::Compare);
							return ecode2(b) < ecode2(a);
						});
						Fault::disarm();
						std::stable_sort(x.m.begin(), x.m.end(), [&](const E& a, const E& b) { return b.code < a.code; });
						verify(x);
					});
					break;
				}
				case 2: {
					// edit the underlying sequence, then let the table rebuild itself and drop duplicates
					ctx.op("sequence_edit");
					auto& sq = c.sequence();
					size_t n = r.below(6);
					for (size_t i = 0; i < n; ++i) {
						unsigned w = static_cast<unsigned>(r.below(3));
						if (w == 0 && !x.m.empty()) {
							size_t p = r.below(x.m.size());
							auto it = sq.begin();
							std::advance(it, p);
							sq.erase(it);
							x.m.erase(x.m.begin() + p);
						}
						else {
							int code = rcode(x);
							if (idx(x.m, code) >= 0)
								continue;
							int64_t st = stamp();
							if (w == 1) {
								sq.push_back(value(code, st));
								x.m.push_back(E{ code, st });
							}
							else {
								sq.push_front(value(code, st));
								x.m.insert(x.m.begin(), E{ code, st });
							}
						}
					}
					bool dup = !x.m.empty() && r.pct(30);
					if (dup) {
						// duplicates: only the first of the sequence is kept by rehash()
						int code = x.m[r.below(x.m.size())].code;
						if constexpr (Copyable) {
							sq.push_back(value(code, stamp()));
							MON_COUNT("duplicates_via_sequence", 1);
						}
					}
					c.rehash();
					verify(x);
					break;
				}
				case 3: {
					ctx.op("load_factor");
					c.max_load_factor(static_cast<float>(0.2 + 0.1 * static_cast<double>(r.below(7))));
					verify(x);
					break;
				}
			}
		}
	}
	template<class El>
	int ecode2(const El& e)
	{
		if constexpr (std::is_same<El, Key>::value)
			return code_of(KTr::ref(e));
		else
			return code_of(KTr::ref(ekey(e)));
	}
	void run()
	{
		desc = Cfg::state(r);
		make_pool();
		for (int i = 0; i < NC; ++i) {
			s[i].arena = Cfg::Alloc ? 1 + static_cast<int>(r.below(2)) : 0;
			fresh(s[i]);
		}
		// phases with different mixes
		unsigned steps = opt.steps;
		unsigned wi = 50, we = 20;
		bool prefill = r.pct(60);
		if (prefill) {
			size_t n = r.below(opt.maxn + 1);
			ctx.op("prefill", n);
			for (size_t i = 0; i < n; ++i) {
				int code = static_cast<int>(r.below(pool.size()));
				int64_t st = stamp();
				bool was = idx(s[0].m, code) >= 0;
				s[0].c->insert(value(code, st));
				if (Multi || !was)
					model_insert(s[0], code, st, Any);
			}
			if (K == ORD) {
				s[0].m = observe(*s[0].c);
			}
			verify(s[0]);
		}
		for (unsigned i = 0; i < steps; ++i) {
			if (i % 20 == 0) {
				wi = 15 + static_cast<unsigned>(r.below(60));
				we = static_cast<unsigned>(r.below(60));
			}
			Slot& x = s[r.pct(75) ? 0 : r.below(NC)];
			size_t q = r.below(wi + we + 25);
			if (q < wi)
				op_insert(x);
			else if (q < wi + we)
				op_erase(x);
			else if (q < wi + we + 8)
				op_range(x);
			else if (q < wi + we + 18)
				op_whole(x);
			else
				op_misc(x);
			Fault::disarm();
			for (int k = 0; k < 2; ++k)
				lookup(x, rcode(x));
		}
		for (int i = 0; i < NC; ++i) {
			verify(s[i]);
			for (size_t k = 0; k < pool.size() && k < 200; ++k)
				lookup(s[i], static_cast<int>(r.below(pool.size())));
			s[i].c.reset();
		}
	}
};

// Default configuration pieces
struct CfgBase
{
	static constexpr bool Literals = false, Multi = false, Stable = false, Transp = false, Stamp = true, Copyable = true, Alloc = false, HasEq = true, HasMerge = false, HasShrink = false, HasBracket = true, Prefix = false;
	static bool state(Rng&) { return false; }
	static bool pocca() { return false; }
	static bool pocma() { return false; }
	static bool pocs() { return false; }
	static bool movable(int, int) { return true; }
};
}
