// Const operations of one object from several threads, and arbitrary operations on distinct objects (C34).
// Built with ThreadSanitizer; every result is also compared to the one computed alone beforehand.
#include "mon.hpp"
#include <seq/any.hpp>
#include <seq/charconv.hpp>
#include <seq/concurrent_map.hpp>
#include <seq/devector.hpp>
#include <seq/flat_map.hpp>
#include <seq/format.hpp>
#include <seq/hash.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/sequence.hpp>
#include <seq/tiered_vector.hpp>
#include <seq/tiny_string.hpp>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <unordered_set>
using namespace mon;
namespace {

template<class T, class = void>
struct Gen;
template<class T>
struct Gen<T, std::enable_if_t<std::is_arithmetic<T>::value>>
{
	static T make(Rng& r, unsigned shape)
	{
		switch (shape % 4) {
			case 0: return static_cast<T>(r.below(400));
			case 1: return static_cast<T>(r.next() >> (r.below(64)));
			case 2: return static_cast<T>(r.below(64) << 8);
			default: return static_cast<T>(r.below(5000)) * 3;
		}
	}
};
template<class T>
struct Gen<T, std::enable_if_t<std::is_class<T>::value>>
{
	static T make(Rng& r, unsigned shape)
	{
		std::string s;
		switch (shape % 3) {
			case 0: s = std::string("key_") + std::to_string(r.below(500)); break;
			case 1: s = std::string(r.below(40), char('a' + r.below(3))); break;
			default:
				s = "a rather long common prefix of every key, ";
				for (size_t n = r.below(20); n; --n)
					s.push_back(char(r.below(4) ? 'a' + r.below(2) : r.below(256)));
		}
		return T(s.c_str(), s.size());
	}
};

// Start everyone together, yield now and then
struct Gate
{
	std::atomic<int> n;
	explicit Gate(int c)
	  : n(c)
	{
	}
	void wait()
	{
		--n;
		while (n.load() > 0)
			std::this_thread::yield();
	}
};
template<class F>
void par(Ctx& c, int N, F f)
{
	std::vector<std::string> err(static_cast<size_t>(N));
	std::vector<std::thread> th;
	uint64_t seed = c.rng.next();
	Gate g(N);
	for (int t = 0; t < N; ++t)
		th.emplace_back([&, t] {
			Rng q(mix(seed, uint64_t(t)));
			auto bad = [&](bool ok, const char* what) {
				if (!ok && err[size_t(t)].empty())
					err[size_t(t)] = what;
			};
			g.wait();
			try {
				f(t, q, bad);
			}
			catch (const std::exception& e) {
				bad(false, (std::string("unexpected exception ") + e.what()).c_str());
			}
		});
	for (auto& x : th)
		x.join();
	for (auto& s : err)
		c.check(s.empty(), "result", "%s differs from the result obtained alone", s.c_str());
}

template<class C, class = void>
struct HasRev : std::false_type
{
};
template<class C>
struct HasRev<C, std::void_t<decltype(std::declval<const C&>().rbegin())>> : std::true_type
{
};
template<class C, class = void>
struct HasLB : std::false_type
{
};
template<class C>
struct HasLB<C, std::void_t<decltype(std::declval<const C&>().lower_bound(std::declval<typename C::key_type>()))>> : std::true_type
{
};
template<class C, class = void>
struct HasAt : std::false_type
{
};
template<class C>
struct HasAt<C, std::void_t<decltype(std::declval<const C&>().at(std::declval<typename C::key_type>()))>> : std::true_type
{
};
template<class C, class = void>
struct HasPos : std::false_type
{
};
template<class C>
struct HasPos<C, std::void_t<decltype(std::declval<const C&>().pos(size_t(0)))>> : std::true_type
{
};
template<class C, class = void>
struct HasPrefix : std::false_type
{
};
template<class C>
struct HasPrefix<C, std::void_t<decltype(std::declval<const C&>().prefix(std::declval<typename C::key_type>()))>> : std::true_type
{
};
template<class C, class = void>
struct HasEqR : std::false_type
{
};
template<class C>
struct HasEqR<C, std::void_t<decltype(std::declval<const C&>().equal_range(std::declval<typename C::key_type>()))>> : std::true_type
{
};
template<class C, class = void>
struct HasEq : std::false_type
{
};
template<class C>
struct HasEq<C, std::void_t<decltype(std::declval<const C&>() == std::declval<const C&>())>> : std::true_type
{
};
template<class C, class = void>
struct HasLess : std::false_type
{
};
template<class C>
struct HasLess<C, std::void_t<decltype(std::declval<const C&>() < std::declval<const C&>())>> : std::true_type
{
};
template<class T>
struct PlainV
{
	using type = T;
};
template<class K, class V>
struct PlainV<std::pair<K, V>>
{
	using type = std::pair<std::remove_const_t<K>, V>;
};
template<class C, class = void>
struct IsMap : std::false_type
{
};
template<class C>
struct IsMap<C, std::void_t<typename C::mapped_type>> : std::bool_constant<!std::is_same<typename C::mapped_type, typename C::key_type>::value || !std::is_same<typename C::value_type, typename C::key_type>::value>
{
};
template<class C>
const typename C::key_type& key_of(const typename PlainV<typename C::value_type>::type& v)
{
	if constexpr (IsMap<C>::value)
		return v.first;
	else
		return v;
}

// ------------------------------------------------------------- shared associative container
template<class C>
void assoc_case(Ctx& c)
{
	using K = typename C::key_type;
	using V = typename PlainV<typename C::value_type>::type;
	Rng& r = c.rng;
	unsigned shape = unsigned(r.below(12));
	size_t n = r.pct(10) ? r.below(4) : r.pct(30) ? r.below(40) : r.below(c.tier() ? 3000 : 900);
	C cont;
	for (size_t i = 0; i < n; ++i) {
		K k = Gen<K>::make(r, shape);
		if constexpr (IsMap<C>::value)
			cont.emplace(k, typename C::mapped_type(int(i)));
		else
			cont.emplace(k);
		if (r.pct(15) && !cont.empty()) {
			// leave tombstones, holes and non compact nodes behind
			auto it = cont.find(Gen<K>::make(r, shape));
			if (it != cont.end())
				cont.erase(it);
		}
	}
	if (r.pct(20) && n)
		cont = C(cont);
	const C& cc = cont;
	std::vector<V> all(cc.begin(), cc.end());
	C other(cc);
	if (r.coin() && !all.empty())
		other.erase(other.begin());
	const C& co = other;
	std::vector<K> probe;
	struct Ans
	{
		bool in;
		size_t cnt, f, lb, ub;
	};
	std::vector<Ans> ans;
	auto ask = [&](const K& k) {
		Ans a{};
		auto f = cc.find(k);
		a.in = cc.contains(k);
		a.cnt = cc.count(k);
		a.f = f == cc.end() ? all.size() : size_t(std::distance(cc.begin(), f));
		if constexpr (HasLB<C>::value) {
			a.lb = size_t(std::distance(cc.begin(), cc.lower_bound(k)));
			a.ub = size_t(std::distance(cc.begin(), cc.upper_bound(k)));
		}
		return a;
	};
	for (size_t i = 0; i < 24; ++i) {
		probe.push_back(i % 2 || all.empty() ? Gen<K>::make(r, shape) : key_of<C>(all[r.below(all.size())]));
		ans.push_back(ask(probe.back()));
	}
	bool eq = true, lt = false;
	if constexpr (HasEq<C>::value)
		eq = cc == co;
	if constexpr (HasLess<C>::value)
		lt = cc < co;
	const int N = 2 + int(r.below(4));
	int M = c.tier() ? 40 : 24;
	c.op("build", n, shape);
	c.op("threads", N);
	c.op("ops", M);
	c.op("size", all.size(), eq, lt);
	par(c, N, [&](int, Rng& q, auto bad) {
		for (int k = 0; k < M; ++k) {
			size_t i = q.below(probe.size());
			switch (q.below(12)) {
				case 0:
				case 1:
				case 2: {
					bad(cc.contains(probe[i]) == ans[i].in, "contains");
					bad(cc.count(probe[i]) == ans[i].cnt, "count");
					break;
				}
				case 3: {
					auto f = cc.find(probe[i]);
					if (f == cc.end())
						bad(ans[i].f == all.size(), "find (absent)");
					else
						bad(ans[i].f < all.size() && V(*f) == all[ans[i].f], "find");
					break;
				}
				case 4: {
					size_t j = 0;
					for (auto it = cc.begin(); it != cc.end(); ++it, ++j)
						if (j >= all.size() || !(V(*it) == all[j]))
							break;
					bad(j == all.size(), "iteration");
					break;
				}
				case 5: {
					if constexpr (HasRev<C>::value) {
						size_t j = all.size();
						for (auto it = cc.rbegin(); it != cc.rend(); ++it, --j)
							if (j == 0 || !(V(*it) == all[j - 1]))
								break;
						bad(j == 0, "reverse iteration");
					}
					break;
				}
				case 6: {
					if constexpr (HasLB<C>::value) {
						Ans a{};
						auto lb = cc.lower_bound(probe[i]), ub = cc.upper_bound(probe[i]);
						a.lb = size_t(std::distance(cc.begin(), lb));
						a.ub = size_t(std::distance(cc.begin(), ub));
						bad(a.lb == ans[i].lb && a.ub == ans[i].ub, "bounds");
					}
					if constexpr (HasEqR<C>::value) {
						auto p = cc.equal_range(probe[i]);
						bad(size_t(std::distance(p.first, p.second)) == ans[i].cnt, "equal_range");
					}
					break;
				}
				case 7: {
					if constexpr (HasAt<C>::value) {
						bool thrown = false;
						try {
							auto v = cc.at(probe[i]);
							bad(ans[i].f < all.size() && v == all[ans[i].f].second, "at");
						}
						catch (const std::out_of_range&) {
							thrown = true;
						}
						bad(thrown == (ans[i].f == all.size()), "at (throw)");
					}
					if constexpr (HasPos<C>::value)
						if (!all.empty()) {
							size_t p = q.below(all.size());
							bad(V(cc.pos(p)) == all[p], "pos");
						}
					break;
				}
				case 8: {
					bad(cc.size() == all.size() && cc.empty() == all.empty(), "size");
					if constexpr (HasPrefix<C>::value && std::is_class<K>::value) {
						auto p = cc.prefix(probe[i]);
						bad((p == cc.end()) || V(*p) == all[size_t(std::distance(cc.begin(), p))], "prefix");
					}
					break;
				}
				case 9:
				case 10: {
					C cp(cc);
					bad(cp.size() == all.size(), "copy size");
					bad(cp.contains(probe[i]) == ans[i].in, "lookup in the copy");
					if (!all.empty()) {
						cp.erase(cp.begin());
						bad(cp.size() == all.size() - 1, "copy after erase");
					}
					break;
				}
				default: {
					if constexpr (HasEq<C>::value)
						bad((cc == co) == eq, "==");
					if constexpr (HasLess<C>::value)
						bad((cc < co) == lt, "<");
					break;
				}
			}
			if (q.pct(10))
				std::this_thread::yield();
		}
	});
	c.check(all.size() == cc.size() && std::equal(all.begin(), all.end(), cc.begin(), [](const V& a, auto&& b) { return a == V(b); }),
		"content-changed",
		"the content changed although only const members were called");
	MON_COUNT("const_ops_compared", uint64_t(N * M));
	c.state(mix(shape, all.size()));
}

// ------------------------------------------------------------- shared random access / linear container
template<class C>
void linear_case(Ctx& c)
{
	using T = typename C::value_type;
	Rng& r = c.rng;
	unsigned shape = unsigned(r.below(12));
	size_t n = r.pct(10) ? r.below(4) : r.below(c.tier() ? 4000 : 1500);
	C cont;
	for (size_t i = 0; i < n; ++i) {
		T v = Gen<T>::make(r, shape);
		if (r.coin())
			cont.push_back(v);
		else
			cont.push_front(v);
		if (r.pct(20) && cont.size())
			r.coin() ? cont.pop_front() : cont.pop_back();
	}
	const C& cc = cont;
	std::vector<T> all(cc.begin(), cc.end());
	C other(cc);
	if (r.coin() && other.size())
		other.pop_back();
	bool eq = all.size() == other.size(), lt = std::lexicographical_compare(cc.begin(), cc.end(), other.begin(), other.end());
	const int N = 2 + int(r.below(4)), M = c.tier() ? 40 : 24;
	c.op("build", n, shape);
	c.op("threads", N);
	c.op("ops", M);
	c.op("size", all.size(), eq, lt);
	par(c, N, [&](int, Rng& q, auto bad) {
		for (int k = 0; k < M; ++k) {
			switch (q.below(7)) {
				case 0: bad(cc.size() == all.size() && cc.empty() == all.empty() && std::equal(all.begin(), all.end(), cc.begin()), "iteration"); break;
				case 1: bad(std::equal(all.rbegin(), all.rend(), cc.rbegin()), "reverse iteration"); break;
				case 2:
					if (!all.empty()) {
						bad(cc.front() == all.front() && cc.back() == all.back(), "front/back");
						size_t p = q.below(all.size());
						if constexpr (std::is_same<typename std::iterator_traits<typename C::const_iterator>::iterator_category, std::random_access_iterator_tag>::value) {
							bad(cc.begin()[std::ptrdiff_t(p)] == all[p], "random access");
						}
						else {
							auto it = cc.begin();
							std::advance(it, p);
							bad(*it == all[p], "iterator");
						}
					}
					break;
				case 3: {
					C cp(cc);
					cp.push_back(Gen<T>::make(q, shape));
					bad(cp.size() == all.size() + 1 && std::equal(all.begin(), all.end(), cp.begin()), "copy");
					break;
				}
				case 4:
					if constexpr (HasEq<C>::value)
						bad((cc == other) == eq, "==");
					break;
				case 5:
					if constexpr (HasLess<C>::value)
						bad((cc < other) == lt, "<");
					break;
				default: {
					T v = all.empty() || q.coin() ? Gen<T>::make(q, shape) : all[q.below(all.size())];
					bad((std::find(cc.begin(), cc.end(), v) - cc.begin()) == (std::find(all.begin(), all.end(), v) - all.begin()), "std::find");
					break;
				}
			}
			if (q.pct(10))
				std::this_thread::yield();
		}
	});
	MON_COUNT("const_ops_compared", uint64_t(N * M));
	c.state(mix(shape, all.size()));
}

#if PART == 0
#define AS(ident, name, ...)                                                                                                                                                                           \
	void ident##_run(Ctx& c)                                                                                                                                                                       \
	{                                                                                                                                                                                              \
		assoc_case<__VA_ARGS__>(c);                                                                                                                                                            \
	}                                                                                                                                                                                              \
	FAMILY(ident, "C34/const." name, 300, 6000, 0) { ident##_run(c); }
AS(c1, "ordered_set", seq::ordered_set<int>)
AS(c2, "ordered_map", seq::ordered_map<std::string, int>)
AS(c3, "flat_set", seq::flat_set<int>)
AS(c4, "flat_map", seq::flat_map<seq::tstring, int>)
AS(c5, "flat_multiset", seq::flat_multiset<int>)
AS(c6, "flat_multimap", seq::flat_multimap<int, int>)
AS(c7, "radix_set", seq::radix_set<int>)
AS(c8, "radix_map", seq::radix_map<std::string, int>)
AS(c9, "radix_hash_set", seq::radix_hash_set<int>)
AS(c10, "radix_hash_map", seq::radix_hash_map<seq::tstring, int>)
AS(c11, "radix_set.tstring", seq::radix_set<seq::tstring>)
AS(c12, "radix_map.double", seq::radix_map<double, int>)
#endif

#if PART == 1
#define LN(ident, name, ...)                                                                                                                                                                           \
	void ident##_run(Ctx& c)                                                                                                                                                                       \
	{                                                                                                                                                                                              \
		linear_case<__VA_ARGS__>(c);                                                                                                                                                           \
	}                                                                                                                                                                                              \
	FAMILY(ident, "C34/const." name, 300, 6000, 0) { ident##_run(c); }
LN(l1, "devector", seq::devector<int>)
LN(l2, "tiered_vector", seq::tiered_vector<int>)
LN(l3, "sequence", seq::sequence<int>)
LN(l4, "tiered_vector.string", seq::tiered_vector<std::string>)
LN(l5, "devector.tstring", seq::devector<seq::tstring>)
LN(l6, "sequence.tstring", seq::sequence<seq::tstring>)

// strings and type erased values
FAMILY(st, "C34/const.tstring", 400, 8000, 0)
{
	Rng& r = c.rng;
	std::string s = Gen<std::string>::make(r, unsigned(r.below(3)));
	for (size_t k = r.below(3); k; --k)
		s += s;
	const seq::tstring a(s.c_str(), s.size());
	std::string s2 = s;
	if (r.coin() && !s2.empty())
		s2[r.below(s2.size())] ^= 1;
	const seq::tstring b(s2.c_str(), s2.size());
	size_t h = seq::hasher<seq::tstring>{}(a), sh = std::hash<seq::tstring>{}(a);
	const int N = 2 + int(r.below(4)), M = 60;
	c.op("string", s.size());
	c.op("threads", N);
	c.op("ops", M);
	c.op("h", h);
	par(c, N, [&](int, Rng& q, auto bad) {
		for (int k = 0; k < M; ++k) {
			switch (q.below(9)) {
				case 0: bad(seq::hasher<seq::tstring>{}(a) == h && std::hash<seq::tstring>{}(a) == sh, "hash"); break;
				case 1: bad((a == b) == (s == s2) && (a < b) == (s < s2), "comparison"); break;
				case 2: {
					seq::tstring cp = a;
					cp.push_back('x');
					bad(std::string(cp.c_str(), cp.size()) == s + "x", "copy");
					break;
				}
				case 3: {
					std::string needle = s2.substr(q.below(s2.size() + 1), 3);
					bad(a.find(needle.c_str(), 0, needle.size()) == s.find(needle.c_str(), 0, needle.size()), "find");
					break;
				}
				case 4: bad(std::string(a.c_str(), a.size()) == s, "c_str"); break;
				case 5: {
					size_t p = q.below(s.size() + 1);
					auto u = a.substr(p, 7);
					bad(std::string(u.c_str(), u.size()) == s.substr(p, 7), "substr");
					break;
				}
				case 6: bad(std::string(a.begin(), a.end()) == s && std::string(a.rbegin(), a.rend()) == std::string(s.rbegin(), s.rend()), "iteration"); break;
				case 7: {
					std::ostringstream o;
					o << a;
					bad(o.str() == s, "stream");
					break;
				}
				default: {
					seq::tstring_view v = a;
					bad(v == a && std::string(v.data(), v.size()) == s, "view");
				}
			}
		}
	});
	MON_COUNT("const_ops_compared", uint64_t(N * M));
	c.state(mix(h, N));
}
template<int I>
struct Custom
{
	int v = I;
	std::string s = std::to_string(I);
	bool operator==(const Custom& o) const { return v == o.v && s == o.s; }
	bool operator<(const Custom& o) const { return v < o.v; }
};
FAMILY(an, "C34/const.any", 400, 8000, 0)
{
	Rng& r = c.rng;
	std::vector<seq::r_any> vals;
	for (size_t i = 0; i < 12; ++i)
		switch (r.below(7)) {
			case 0: vals.emplace_back(int(r.below(100))); break;
			case 1: vals.emplace_back(double(r.below(100)) / 4); break;
			case 2: vals.emplace_back(Gen<std::string>::make(r, unsigned(r.below(3)))); break;
			case 3: vals.emplace_back(Gen<seq::tstring>::make(r, unsigned(r.below(3)))); break;
			case 4: vals.emplace_back(uint64_t(r.next())); break;
			case 5: vals.emplace_back(std::string("42")); break;
			default: vals.emplace_back(); break;
		}
	const auto& cv = vals;
	std::vector<size_t> hs;
	std::vector<std::string> txt;
	auto text = [](const seq::r_any& a) -> std::string {
		try {
			return a.template cast<std::string>();
		}
		catch (const std::bad_cast&) {
			return "<bad cast>";
		}
	};
	for (auto& v : cv) {
		hs.push_back(v.empty() ? 0 : v.hash());
		txt.push_back(text(v));
	}
	std::vector<int> cmp;
	auto rel = [&](size_t i, size_t j) -> int {
		try {
			return (cv[i] == cv[j]) * 2 + (cv[i] < cv[j]);
		}
		catch (const std::exception&) {
			return -1;
		}
	};
	for (size_t i = 0; i < cv.size(); ++i)
		for (size_t j = 0; j < cv.size(); ++j)
			cmp.push_back(rel(i, j));
	const int N = 2 + int(r.below(4)), M = 60;
	c.op("values", cv.size());
	c.op("threads", N);
	c.op("ops", M);
	c.op("h", hs[0]);
	par(c, N, [&](int, Rng& q, auto bad) {
		for (int k = 0; k < M; ++k) {
			size_t i = q.below(cv.size()), j = q.below(cv.size());
			switch (q.below(5)) {
				case 0: bad(cv[i].empty() || cv[i].hash() == hs[i], "hash"); break;
				case 1: bad(rel(i, j) == cmp[i * cv.size() + j], "comparison"); break;
				case 2: {
					seq::r_any cp = cv[i];
					bad(text(cp) == txt[i], "copy");
					cp = cv[j];
					bad(text(cp) == txt[j], "copy assignment");
					break;
				}
				case 3: bad(text(cv[i]) == txt[i], "conversion to text"); break;
				default:
					if (auto* p = seq::any_cast<int>(&cv[i]))
						bad(std::to_string(*p) == txt[i], "target");
			}
		}
	});
	MON_COUNT("const_ops_compared", uint64_t(N * M));
	c.state(mix(hstr(txt[0].c_str()), N));
}

// one formatter, many readers
FAMILY(fo, "C34/const.format", 300, 6000, 0)
{
	using namespace seq;
	Rng& r = c.rng;
	double d = double(r.range(-40000, 40000)) / 8;
	int v = int(r.range(-100000, 100000));
	std::string s = Gen<std::string>::make(r, 0);
	tstring ts(s.c_str(), s.size());
	const auto f1 = fmt(d).p(4).l(14);
	const auto f1w = fmt(d).p(4).l(14);
	const auto f2 = fmt(v).base(16).r(12);
	const auto f3 = fmt("<", v, "|", fmt(d).c(12), "|", ts, ">");
	const auto f4 = fmt("=", fmt(v).l(10), true);
	const auto f5 = fmt(fmt(s.c_str()).r(12), ';', fmt(ts).l(3));
	std::string e1 = f1.str<std::string>(), e2 = f2.str<std::string>(), e3 = f3.str<std::string>(), e4 = f4.str<std::string>(), e5 = f5.str<std::string>();
	const int N = 2 + int(r.below(4)), M = 40;
	c.op("value", v, d);
	c.op("threads", N);
	c.op("ops", M);
	c.op("text", e3.size());
	par(c, N, [&](int, Rng& q, auto bad) {
		for (int k = 0; k < M; ++k) {
			auto one = [&](const auto& f, const std::string& e, const char* what) {
				switch (q.below(6)) {
					case 0: bad(f.template str<std::string>() == e, what); break;
					case 4: {
						char b[300];
						auto cp = f;
						bad(std::string(b, cp.to_chars(b)) == e, what);
						auto w = cp.to_chars(b, 5);
						bad(w.second == e.size() && std::string(b, w.first) == e.substr(0, 5), what);
						break;
					}
					case 5: {
						std::vector<char> b(300);
						auto cp = f;
						b.resize(size_t(cp.to_iter(b.begin()) - b.begin()));
						bad(std::string(b.begin(), b.end()) == e, what);
						break;
					}
					case 1: {
						std::ostringstream o;
						o << f;
						bad(o.str() == e, what);
						break;
					}
					case 2: {
						std::string x = "pre ";
						f.append(x);
						bad(x == "pre " + e, what);
						break;
					}
					default: {
						auto cp = f;
						tstring x = cp.template str<tstring>();
						bad(std::string(x.c_str(), x.size()) == e, what);
					}
				}
			};
			switch (q.below(6)) {
				case 5: bad(std::wstring(e1.begin(), e1.end()) == f1w.str<std::wstring>(), "a wide formatter"); break;
				case 0: one(f1, e1, "a number formatter"); break;
				case 1: one(f2, e2, "an integer formatter"); break;
				case 2: one(f3, e3, "a formatter of several values"); break;
				case 3: one(f4, e4, "a formatter of a number and a flag"); break;
				default: one(f5, e5, "a formatter of strings");
			}
		}
	});
	MON_COUNT("const_ops_compared", uint64_t(N * M));
	c.state(mix(hstr(e3.c_str()), N));
}
#endif

#if PART == 2
// ------------------------------------------------------------- distinct objects
template<class A, class B>
bool same(const A& a, const B& b)
{
	return a.size() == b.size() && std::equal(b.begin(), b.end(), a.begin());
}
template<class C>
void own_linear(Rng& q, int M, std::string& err, const char* what)
{
	using T = typename C::value_type;
	C x;
	std::deque<T> m;
	for (int k = 0; k < M; ++k) {
		T v = Gen<T>::make(q, unsigned(q.below(6)));
		size_t o = q.below(10);
		if (o < 3)
			x.push_back(v), m.push_back(v);
		else if (o < 6)
			x.push_front(v), m.push_front(v);
		else if (o == 6 && !m.empty())
			x.pop_back(), m.pop_back();
		else if (o == 7 && !m.empty())
			x.pop_front(), m.pop_front();
		else if (o == 8 && !m.empty()) {
			size_t p = q.below(m.size());
			x.erase(std::next(x.begin(), std::ptrdiff_t(p)));
			m.erase(m.begin() + std::ptrdiff_t(p));
		}
		else if (q.pct(10)) {
			C y(x);
			x = std::move(y);
		}
		else if (q.pct(3))
			x.clear(), m.clear();
	}
	if (!same(x, m))
		err = what;
}
template<class C, bool Sorted>
void own_assoc(Rng& q, int M, std::string& err, const char* what)
{
	using K = typename C::key_type;
	using V = typename PlainV<typename C::value_type>::type;
	std::map<std::string, std::pair<K, int>> m;
	C x;
	unsigned shape = unsigned(q.below(12));
	auto name = [](const K& k) {
		if constexpr (std::is_arithmetic<K>::value)
			return std::to_string(k);
		else
			return std::string(k.c_str(), k.size());
	};
	for (int k = 0; k < M; ++k) {
		K key = Gen<K>::make(q, shape);
		if (q.pct(65)) {
			if constexpr (IsMap<C>::value)
				x.emplace(key, k);
			else
				x.emplace(key);
			m.emplace(name(key), std::make_pair(key, k));
		}
		else {
			if (x.erase(key) != m.erase(name(key)))
				err = what;
		}
		if (q.pct(2)) {
			C y(x);
			x = std::move(y);
		}
	}
	if (x.size() != m.size())
		err = what;
	for (auto& p : m) {
		auto it = x.find(p.second.first);
		if (it == x.end())
			err = what;
		else if constexpr (IsMap<C>::value)
			if (!(it->second == p.second.second))
				err = what;
	}
	if constexpr (Sorted) {
		std::vector<V> a(x.begin(), x.end());
		if (!std::is_sorted(a.begin(), a.end(), [](const V& u, const V& v) { return key_of<C>(u) < key_of<C>(v); }))
			err = what;
	}
}
template<int I>
struct Reg2
{
	int v = I;
	bool operator==(const Reg2& o) const { return v == o.v; }
};
} // namespace
namespace seq {
template<int I>
struct is_hashable<Reg2<I>> : std::false_type
{
};
} // namespace seq
namespace {
template<int I>
int reg_type(std::vector<seq::hold_any<>>& out)
{
	out.emplace_back(Reg2<I>{});
	return seq::get_type_id<Reg2<I>>();
}
template<size_t... I>
void reg_types(std::vector<int>& ids, std::vector<seq::hold_any<>>& out, int from, std::index_sequence<I...>)
{
	int (*fn[])(std::vector<seq::hold_any<>>&) = { reg_type<int(I)>... };
	constexpr size_t n = sizeof...(I);
	ids.resize(n);
	for (size_t k = 0; k < n; ++k) {
		size_t j = (k + size_t(from)) % n;
		ids[j] = fn[j](out);
	}
}
// the very first use of every static table and type identifier, from all threads at once
FAMILY(fu, "C34/distinct.first_use", 40, 400, 0)
{
	// only the first case of a process really is a first use; the following ones check that identifiers are stable
	const int N = 4 + int(c.rng.below(5));
	constexpr int T = 24;
	std::vector<std::vector<int>> ids(static_cast<size_t>(N));
	std::vector<std::vector<seq::hold_any<>>> vals(static_cast<size_t>(N));
	c.op("threads", N);
	c.op("types", T);
	c.op("case", c.id);
	c.op("run", 1);
	par(c, N, [&](int t, Rng& q, auto bad) {
		reg_types(ids[size_t(t)], vals[size_t(t)], int(q.below(T)), std::make_index_sequence<T>());
		std::string s = seq::fmt(3.25).template str<std::string>() + seq::fmt(77).template str<std::string>();
		bad(s == "3.2577", "the first formatted text");
		double d = 0;
		const char* z = "1.25e3";
		seq::from_chars(z, z + 6, d);
		bad(d == 1250., "the first parsed number");
		seq::ordered_set<int> os;
		seq::flat_set<int> fs;
		seq::radix_set<int> rs;
		seq::radix_hash_set<int> rh;
		seq::concurrent_set<int> cs;
		bad(os.find(1) == os.end() && fs.find(1) == fs.end() && rs.find(1) == rs.end() && rh.find(1) == rh.end() && !cs.contains(1), "a lookup in an empty container");
		os.emplace(1), fs.emplace(1), rs.emplace(1), rh.emplace(1), cs.emplace(1);
		bad(os.count(1) && fs.count(1) && rs.count(1) && rh.count(1) && cs.contains(1), "a lookup of the first element");
	});
	std::set<int> distinct(ids[0].begin(), ids[0].end());
	c.check(distinct.size() == size_t(T), "type-id", "two types got the same identifier");
	for (auto& v : ids)
		c.check(v == ids[0], "type-id", "a type got different identifiers in different threads");
	for (auto& v : vals)
		c.check(v.size() == size_t(T), "values", "lost type erased values");
	MON_COUNT("type_ids_checked", uint64_t(N * T));
	c.state(mix(c.id, N));
}
FAMILY(di, "C34/distinct.containers", 500, 10000, 0)
{
	Rng& r = c.rng;
	const int N = 2 + int(r.below(5)), M = c.tier() ? 400 : 250;
	c.op("threads", N);
	c.op("ops", M);
	c.op("case", c.id);
	c.op("run", 2);
	std::atomic<uint64_t> hist{ 0 };
	par(c, N, [&](int, Rng& q, auto bad) {
		for (int k = 0; k < 3; ++k) {
			std::string e;
			switch (q.below(15)) {
				case 0: own_linear<seq::devector<int>>(q, M, e, "a thread's own devector"); break;
				case 1: own_linear<seq::tiered_vector<int>>(q, M, e, "a thread's own tiered_vector"); break;
				case 2: own_linear<seq::sequence<seq::tstring>>(q, M, e, "a thread's own sequence"); break;
				case 3: own_linear<seq::tiered_vector<seq::tstring>>(q, M, e, "a thread's own tiered_vector of strings"); break;
				case 4: own_assoc<seq::ordered_set<int>, false>(q, M, e, "a thread's own ordered_set"); break;
				case 5: own_assoc<seq::ordered_map<std::string, int>, false>(q, M, e, "a thread's own ordered_map"); break;
				case 6: own_assoc<seq::flat_set<int>, true>(q, M, e, "a thread's own flat_set"); break;
				case 7: own_assoc<seq::flat_map<seq::tstring, int>, true>(q, M, e, "a thread's own flat_map"); break;
				case 8: own_assoc<seq::radix_set<int>, true>(q, M, e, "a thread's own radix_set"); break;
				case 9: own_assoc<seq::radix_map<std::string, int>, true>(q, M, e, "a thread's own radix_map"); break;
				case 10: own_assoc<seq::radix_hash_set<int>, false>(q, M, e, "a thread's own radix_hash_set"); break;
				case 11: own_assoc<seq::radix_hash_map<seq::tstring, int>, false>(q, M, e, "a thread's own radix_hash_map"); break;
				case 12: {
					seq::concurrent_map<int, int> x;
					std::unordered_map<int, int> m;
					for (int i = 0; i < M; ++i) {
						int key = int(q.below(300));
						if (q.pct(60)) {
							x.emplace(key, i);
							m.emplace(key, i);
						}
						else if (x.erase(key) != m.erase(key))
							e = "a thread's own concurrent_map";
					}
					size_t n = 0;
					x.visit_all([&](const auto& p) {
						++n;
						auto it = m.find(p.first);
						if (it == m.end() || it->second != p.second)
							e = "a thread's own concurrent_map";
					});
					if (n != m.size())
						e = "a thread's own concurrent_map";
					break;
				}
				case 13: {
					std::vector<seq::hold_any<>> v;
					std::vector<std::string> m;
					for (int i = 0; i < M; ++i)
						if (q.pct(50)) {
							m.push_back(std::to_string(i));
							v.emplace_back(i);
						}
						else {
							m.push_back(Gen<std::string>::make(q, unsigned(q.below(3))));
							q.coin() ? (void)v.emplace_back(m.back()) : (void)v.emplace_back(seq::tstring(m.back().c_str(), m.back().size()));
						}
					for (size_t i = 0; i < v.size(); ++i)
						if (v[i].template cast<std::string>() != m[i])
							e = "a thread's own hold_any";
					break;
				}
				default: {
					for (int i = 0; i < M / 4; ++i) {
						double d = double(q.range(-40000, 40000)) / 16, back = 0;
						std::string t = seq::fmt(d).template str<std::string>();
						seq::from_chars(t.data(), t.data() + t.size(), back);
						char b[64];
						auto w = seq::to_chars(b, b + 64, d);
						double back2 = 0;
						seq::from_chars(b, w.ptr, back2);
						std::string j = seq::fmt("[", seq::fmt(i).r(6), ",", t, "]").template str<std::string>();
						std::string num = std::to_string(i);
						if (std::abs(back - d) > std::abs(d) * 1e-5 || std::abs(back2 - d) > std::abs(d) * 1e-5 ||
						    j != "[" + std::string(6 - num.size(), ' ') + num + "," + t + "]")
							e = "a thread's own formatted numbers";
					}
				}
			}
			++hist;
			bad(e.empty(), e.c_str());
		}
	});
	MON_COUNT("own_histories", hist.load());
	c.state(mix(c.id, N));
}
#endif
} // namespace
