#pragma once
#include "assoc.hpp"
#include <seq/flat_map.hpp>
#include <seq/tiny_string.hpp>
namespace assoc {
using TS = seq::tstring;
template<class K>
struct IsStrKey : std::is_same<K, std::string>
{
};
template<class Al, size_t N>
struct IsStrKey<seq::tiny_string<char, std::char_traits<char>, Al, N>> : std::true_type
{
};
template<class Al, size_t N>
struct KT<seq::tiny_string<char, std::char_traits<char>, Al, N>>
{
	using T = seq::tiny_string<char, std::char_traits<char>, Al, N>;
	using Ref = std::string;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t) { return gen_str(r, shape, i); }
	static T make(const Ref& r) { return T(r.data(), r.size()); }
	static Ref ref(const T& k) { return Ref(k.data(), k.size()); }
	static std::string_view view(const Ref& r) { return r; }
};
struct Less // plain, not transparent
{
	template<class T>
	bool operator()(const T& a, const T& b) const
	{
		return a < b;
	}
};
struct DirLess // stateful
{
	bool desc = false;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		return desc ? b < a : a < b;
	}
	using is_transparent = int;
};
// Which: 0 set, 1 multiset, 2 map, 3 multimap
template<int Which, class Key, class M, class Cmp, class Al, bool Stable>
struct FlatType;
template<class Key, class M, class Cmp, class Al, bool St>
struct FlatType<0, Key, M, Cmp, Al, St>
{
	using type = seq::flat_set<Key, Cmp, Al, St>;
};
template<class Key, class M, class Cmp, class Al, bool St>
struct FlatType<1, Key, M, Cmp, Al, St>
{
	using type = seq::flat_multiset<Key, Cmp, Al, St>;
};
template<class Key, class M, class Cmp, class Al, bool St>
struct FlatType<2, Key, M, Cmp, Al, St>
{
	using type = seq::flat_map<Key, M, Cmp, Al, St>;
};
template<class Key, class M, class Cmp, class Al, bool St>
struct FlatType<3, Key, M, Cmp, Al, St>
{
	using type = seq::flat_multimap<Key, M, Cmp, Al, St>;
};
template<class Key, class M>
struct ValueOf
{
	using type = std::pair<Key, M>;
};
template<class Key>
struct ValueOf<Key, void>
{
	using type = Key;
};
// AP < 0: std::allocator, else LAlloc with propagation bits AP
template<class T, int AP>
struct AllocOf
{
	using type = LAlloc<T, static_cast<unsigned>(AP < 0 ? 0 : AP)>;
};
template<class T>
struct AllocOf<T, -1>
{
	using type = std::allocator<T>;
};

template<int Which, class Key_, class M_, class Cmp, bool Stable_, int AP = -1, bool Copyable_ = true>
struct FlatCfg : CfgBase
{
	using Key = Key_;
	using Mapped = M_;
	using Val = typename ValueOf<Key, M_>::type;
	using Al = typename AllocOf<Val, AP>::type;
	using C = typename FlatType<Which, Key, M_, Cmp, Al, Stable_>::type;
	using SortedTag = std::conditional_t<(Which & 1) != 0, seq::sorted_equivalent_t, seq::sorted_unique_t>;
	static constexpr Kind K = FLAT;
	static constexpr bool Multi = Which & 1, Stable = Stable_;
	static constexpr bool Transp = seq::has_is_transparent<Cmp>::value && !std::is_same<Key, Tagged>::value;
	static constexpr bool Stamp = !std::is_void<M_>::value || std::is_same<Key, Tagged>::value;
	static constexpr bool Alloc = AP >= 0;
	static constexpr bool Copyable = Copyable_;
	static constexpr bool HasMerge = !Multi && Copyable_;
	static bool state(Rng& r)
	{
		if (std::is_same<Cmp, DirLess>::value)
			return r.coin();
		return std::is_same<Cmp, std::greater<>>::value;
	}
	static Cmp cmp(bool desc)
	{
		if constexpr (std::is_same<Cmp, DirLess>::value)
			return DirLess{ desc };
		else
			return (void)desc, Cmp();
	}
	static Al al(int arena)
	{
		if constexpr (AP >= 0)
			return Al(arena);
		else
			return (void)arena, Al();
	}
	static C* create(int arena, bool desc) { return new C(cmp(desc), al(arena)); }
	template<class R>
	static C* create_range(int arena, bool desc, R& v)
	{
		return new C(v.begin(), v.end(), cmp(desc), al(arena));
	}
	static C* copy(const C& c, int arena, bool with)
	{
		if (with)
			return new C(c, al(arena));
		return new C(c);
	}
	static int arena_of(const C& c)
	{
		if constexpr (AP >= 0)
			return c.get_allocator().arena;
		else
			return (void)c, 0;
	}
	static bool pocca() { return AP >= 0 && (AP & 1); }
	static bool pocma() { return AP >= 0 && (AP & 2); }
	static bool pocs() { return AP >= 0 && (AP & 4); }
};
template<class Cfg, unsigned N, unsigned S, unsigned F = 0>
void run(Ctx& c)
{
	Opt o;
	o.maxn = c.rng.pct(15) ? N * 6 : (c.rng.pct(30) ? 12 : N);
	o.steps = S;
	if (F) {
		o.faults = true;
		o.fmask = F;
	}
	Tester<Cfg>(c, o).run();
}
}
