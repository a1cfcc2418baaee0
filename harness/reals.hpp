// Real element types: strings, smart pointers, type erased values and nested containers. Every one denotes an
// integer, is built from it and can be decoded back (0: default constructed, INT64_MIN: damaged).
#pragma once
#include "mon.hpp"
#include <memory>
#include <seq/any.hpp>
#include <seq/devector.hpp>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/sequence.hpp>
#include <seq/tiered_vector.hpp>
#include <seq/tiny_string.hpp>
#include <vector>
namespace mon {
using TStr = seq::tstring;
using TStr40 = seq::tiny_string<char, std::char_traits<char>, std::allocator<char>, 40>;
using WStr = seq::wtstring;
constexpr int64_t Damaged = INT64_MIN;

template<class Ch, class Tr, class Al, size_t S>
int64_t val(const seq::tiny_string<Ch, Tr, Al, S>& s)
{
	if (s.size() == 0)
		return 0;
	std::string t;
	for (auto ch : s)
		t.push_back(static_cast<char>(ch));
	int64_t v = val(t);
	return v != Damaged && t == key_string(v) ? v : Damaged;
}
template<class Ch, class Tr, class Al, size_t S>
struct Make<seq::tiny_string<Ch, Tr, Al, S>>
{
	static seq::tiny_string<Ch, Tr, Al, S> make(int64_t x)
	{
		seq::tiny_string<Ch, Tr, Al, S> r;
		for (char ch : key_string(x))
			r.push_back(static_cast<Ch>(ch));
		return r;
	}
};
// ---- smart pointers
inline int64_t val(const std::unique_ptr<std::string>& p) { return p ? val(*p) : 0; }
template<>
struct Make<std::unique_ptr<std::string>>
{
	static std::unique_ptr<std::string> make(int64_t x) { return std::unique_ptr<std::string>(new std::string(key_string(x))); }
};
inline int64_t val(const std::shared_ptr<std::string>& p) { return p ? (p.use_count() > 0 ? val(*p) : Damaged) : 0; }
template<>
struct Make<std::shared_ptr<std::string>>
{
	static std::shared_ptr<std::string> make(int64_t x) { return std::make_shared<std::string>(key_string(x)); }
};
// ---- a value owning itself indirectly: not relocatable
struct SelfRef
{
	int64_t v = 0;
	const SelfRef* me = this;
	SelfRef() {}
	SelfRef(int64_t x)
	  : v(x)
	{
	}
	SelfRef(const SelfRef& o)
	  : v(o.v)
	{
	}
	SelfRef& operator=(const SelfRef& o)
	{
		v = o.v;
		return *this;
	}
	friend bool operator==(const SelfRef& a, const SelfRef& b) { return a.v == b.v; }
	friend bool operator<(const SelfRef& a, const SelfRef& b) { return a.v < b.v; }
};
inline int64_t val(const SelfRef& s) { return s.me == &s ? s.v : Damaged; }

// ---- containers of several consecutive values
inline size_t nest_len(int64_t x) { return 1 + static_cast<size_t>(static_cast<uint64_t>(x) % 6) * ((x % 5) ? 1 : 4); }
template<class C, class Get>
int64_t val_nested(const C& c, Get get)
{
	if (c.size() == 0)
		return c.begin() == c.end() ? 0 : Damaged;
	std::vector<int64_t> v;
	for (auto it = c.begin(); it != c.end(); ++it) {
		int64_t e = get(*it);
		if (e == Damaged)
			return e;
		v.push_back(e);
	}
	std::sort(v.begin(), v.end());
	if (v.size() != c.size() || v.size() != nest_len(v[0]))
		return Damaged;
	for (size_t i = 0; i < v.size(); ++i)
		if (v[i] != v[0] + static_cast<int64_t>(i))
			return Damaged;
	return v[0];
}
#define NESTED_LIN(TYPE)                                                                                                                                                                               \
	inline int64_t val(const TYPE& c)                                                                                                                                                              \
	{                                                                                                                                                                                              \
		return val_nested(c, [](const auto& e) { return val(e); });                                                                                                                            \
	}                                                                                                                                                                                              \
	template<>                                                                                                                                                                                     \
	struct Make<TYPE>                                                                                                                                                                              \
	{                                                                                                                                                                                              \
		static TYPE make(int64_t x)                                                                                                                                                            \
		{                                                                                                                                                                                      \
			TYPE r;                                                                                                                                                                        \
			for (size_t i = 0, n = nest_len(x); i < n; ++i)                                                                                                                                \
				r.push_back(Make<TYPE::value_type>::make(x + static_cast<int64_t>(i)));                                                                                                \
			return r;                                                                                                                                                                      \
		}                                                                                                                                                                                      \
	};
#define NESTED_SET(TYPE)                                                                                                                                                                               \
	inline int64_t val(const TYPE& c)                                                                                                                                                              \
	{                                                                                                                                                                                              \
		return val_nested(c, [&](const auto& e) { return c.find(e) != c.end() ? val(e) : Damaged; });                                                                                          \
	}                                                                                                                                                                                              \
	template<>                                                                                                                                                                                     \
	struct Make<TYPE>                                                                                                                                                                              \
	{                                                                                                                                                                                              \
		static TYPE make(int64_t x)                                                                                                                                                            \
		{                                                                                                                                                                                      \
			TYPE r;                                                                                                                                                                        \
			for (size_t i = 0, n = nest_len(x); i < n; ++i)                                                                                                                                \
				r.insert(Make<TYPE::value_type>::make(x + static_cast<int64_t>(i)));                                                                                                   \
			return r;                                                                                                                                                                      \
		}                                                                                                                                                                                      \
	};
#define NESTED_MAP(TYPE)                                                                                                                                                                               \
	inline int64_t val(const TYPE& c)                                                                                                                                                              \
	{                                                                                                                                                                                              \
		return val_nested(c, [&](const auto& e) { return c.find(e.first) != c.end() && val(e.first) == val(e.second) ? val(e.first) : Damaged; });                                             \
	}                                                                                                                                                                                              \
	template<>                                                                                                                                                                                     \
	struct Make<TYPE>                                                                                                                                                                              \
	{                                                                                                                                                                                              \
		static TYPE make(int64_t x)                                                                                                                                                            \
		{                                                                                                                                                                                      \
			TYPE r;                                                                                                                                                                        \
			for (size_t i = 0, n = nest_len(x); i < n; ++i)                                                                                                                                \
				r.emplace(Make<TYPE::key_type>::make(x + static_cast<int64_t>(i)), Make<TYPE::mapped_type>::make(x + static_cast<int64_t>(i)));                                        \
			return r;                                                                                                                                                                      \
		}                                                                                                                                                                                      \
	};
using DevT = seq::devector<TStr>;
using TvI = seq::tiered_vector<int64_t>;
using TvS = seq::tiered_vector<std::string>;
using SeqT = seq::sequence<TStr>;
using FlatS = seq::flat_set<std::string>;
using FlatM = seq::flat_map<int64_t, TStr>;
using OrdS = seq::ordered_set<TStr>;
using OrdM = seq::ordered_map<int64_t, std::string>;
using RadS = seq::radix_set<TStr>;
using RadM = seq::radix_map<int64_t, TStr>;
using RhS = seq::radix_hash_set<std::string>;
using RhM = seq::radix_hash_map<TStr, int64_t>;
using DevDev = seq::devector<DevT>;
NESTED_LIN(DevT)
NESTED_LIN(TvI)
NESTED_LIN(TvS)
NESTED_LIN(SeqT)
NESTED_SET(FlatS)
NESTED_MAP(FlatM)
NESTED_SET(OrdS)
NESTED_MAP(OrdM)
NESTED_SET(RadS)
NESTED_MAP(RadM)
NESTED_SET(RhS)
NESTED_MAP(RhM)
NESTED_LIN(DevDev)

// ---- type erased values
using Any = seq::hold_any<seq::any_no_hash_interface>;
using HAny = seq::any;
inline int64_t val_any_id(int64_t v) { return v; }
template<class A>
int64_t any_get(const A& a)
{
	if (a.empty())
		return 0;
	if (auto* p = seq::any_cast<int64_t>(&a))
		return *p;
	if (auto* p = seq::any_cast<std::string>(&a))
		return val(*p);
	if (auto* p = seq::any_cast<TStr>(&a))
		return val(*p);
	if (auto* p = seq::any_cast<TStr40>(&a))
		return val(*p);
	if constexpr (std::is_same<A, Any>::value) {
		if (auto* p = seq::any_cast<SelfRef>(&a))
			return val(*p);
		if (auto* p = seq::any_cast<DevT>(&a))
			return val(*p);
		if (auto* p = seq::any_cast<std::shared_ptr<std::string>>(&a))
			return val(*p);
	}
	return Damaged;
}
inline int64_t val(const Any& a) { return any_get(a); }
inline int64_t val(const HAny& a) { return any_get(a); }
template<class A>
A any_make(int64_t x)
{
	switch (mix(uint64_t(x), 77) % (std::is_same<A, Any>::value ? 7 : 4)) {
		case 0: return A(x);
		case 1: return A(key_string(x));
		case 2: return A(Make<TStr>::make(x));
		case 3: return A(Make<TStr40>::make(x));
		default:
			if constexpr (std::is_same<A, Any>::value)
				switch (mix(uint64_t(x), 77) % 7) {
					case 4: return A(SelfRef(x));
					case 5: return A(Make<DevT>::make(x));
					default: return A(Make<std::shared_ptr<std::string>>::make(x));
				}
			return A();
	}
}
template<>
struct Make<Any>
{
	static Any make(int64_t x) { return any_make<Any>(x); }
};
template<>
struct Make<HAny>
{
	static HAny make(int64_t x) { return any_make<HAny>(x); }
};
// ---- pairs and tuples
template<class A, class B>
int64_t val(const std::tuple<A, B>& p)
{
	return val(std::get<0>(p)) == val(std::get<1>(p)) ? val(std::get<0>(p)) : Damaged;
}
template<class A, class B>
struct Make<std::tuple<A, B>>
{
	static std::tuple<A, B> make(int64_t x) { return std::tuple<A, B>(Make<A>::make(x), Make<B>::make(x)); }
};
template<class A, class B>
int64_t val(const std::pair<A, B>& p)
{
	return val(p.first) == val(p.second) ? val(p.first) : Damaged;
}
template<class A, class B>
struct Make<std::pair<A, B>>
{
	static std::pair<A, B> make(int64_t x) { return std::pair<A, B>(Make<A>::make(x), Make<B>::make(x)); }
};
}
