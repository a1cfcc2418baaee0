// Hash functors of different quality and state, and configurations of the hash based containers
#pragma once
#include "flat_cfg.hpp"
#include <seq/ordered_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/tiny_string.hpp>
namespace assoc {
inline uint64_t raw_hash(int64_t v) { return mix(0x1234567, static_cast<uint64_t>(v)); }
inline uint64_t raw_hash(std::string_view v)
{
	uint64_t h = 1469598103934665603ull;
	for (char c : v)
		h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
	return mix(h, v.size());
}
template<class T>
uint64_t hash_of(const T& v)
{
	if constexpr (std::is_integral<T>::value)
		return raw_hash(static_cast<int64_t>(v));
	else if constexpr (std::is_floating_point<T>::value) {
		double d = v;
		uint64_t u;
		memcpy(&u, &d, 8);
		return raw_hash(static_cast<int64_t>(u));
	}
	else if constexpr (std::is_same<T, Tagged>::value)
		return raw_hash(static_cast<int64_t>(v.k));
	else if constexpr (std::is_convertible<const T&, std::string_view>::value)
		return raw_hash(std::string_view(v));
	else if constexpr (std::is_same<T, TS>::value)
		return raw_hash(std::string_view(v.data(), v.size()));
	else
		return raw_hash(static_cast<int64_t>(v.get()));
}
// Q: 0 good, 1 constant, 2 four values only, 3 high bits only, 4 low bits only (clusters), 5 stateful
template<int Q>
struct TH
{
	uint64_t seed = 0;
	template<class T>
	size_t operator()(const T& v) const
	{
		Fault::point(Fault::Hash);
		uint64_t h = hash_of(v);
		switch (Q) {
			case 0:
				return static_cast<size_t>(h);
			case 1:
				return 12345;
			case 2:
				return static_cast<size_t>((h & 3) * 0x4000000000000001ull);
			case 3:
				return static_cast<size_t>(h << 52);
			case 4:
				return static_cast<size_t>(h & 0x3f);
			default:
				return static_cast<size_t>(mix(h, seed));
		}
	}
	using is_transparent = int;
};
// stateful equality: a wrong (swapped or lost) state makes every comparison fail
struct SEq
{
	uint64_t on = 0;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		return on == 0x51 && a == b;
	}
	using is_transparent = int;
};
// Hash selector: -1 the library's default
template<int Q, class Key>
struct HashOf
{
	using H = TH<Q>;
	using Eq = std::conditional_t<Q == 5, SEq, std::equal_to<>>;
};
template<class Key>
struct HashOf<-1, Key>
{
	using H = seq::hasher<Key>;
	using Eq = std::equal_to<>;
};
template<class H>
H make_hash(uint64_t seed)
{
	if constexpr (std::is_same<H, TH<5>>::value) {
		H h;
		h.seed = seed;
		return h;
	}
	else
		return (void)seed, H();
}
template<class Eq>
Eq make_eq()
{
	if constexpr (std::is_same<Eq, SEq>::value)
		return SEq{ 0x51 };
	else
		return Eq();
}

// Lib 0: ordered_set/map, 1: radix_hash_set/map
template<int Lib, class Key_, class M_, int Q, int AP = -1, bool Copyable_ = true>
struct HashCfg : CfgBase
{
	using Key = Key_;
	using Mapped = M_;
	using Val = typename ValueOf<Key, M_>::type;
	using Al = typename AllocOf<Val, AP>::type;
	using H = typename HashOf<Q, Key>::H;
	using Eq = typename HashOf<Q, Key>::Eq;
	template<int L, class M>
	static auto pick()
	{
		if constexpr (L == 0) {
			if constexpr (std::is_void<M>::value)
				return std::common_type<seq::ordered_set<Key, H, Eq, Al>>{};
			else
				return std::common_type<seq::ordered_map<Key, M, H, Eq, Al>>{};
		}
		else {
			if constexpr (std::is_void<M>::value)
				return std::common_type<seq::radix_hash_set<Key, H, Eq, Al>>{};
			else
				return std::common_type<seq::radix_hash_map<Key, M, H, Eq, Al>>{};
		}
	}
	using C = typename decltype(pick<Lib, M_>())::type;
	static constexpr Kind K = Lib == 0 ? ORD : RHASH;
	static constexpr bool Stable = true;
	static constexpr bool Stamp = !std::is_void<M_>::value || std::is_same<Key, Tagged>::value;
	static constexpr bool Transp = !std::is_same<Key, Tagged>::value && (Q >= 0 || IsStrKey<Key>::value);
	static constexpr bool Alloc = AP >= 0;
	static constexpr bool Copyable = Copyable_;
	static Al al(int arena)
	{
		if constexpr (AP >= 0)
			return Al(arena);
		else
			return (void)arena, Al();
	}
	static uint64_t& seed_counter()
	{
		static uint64_t c = 0;
		return c;
	}
	static H hash() { return make_hash<H>(++seed_counter() % 7); }
	static C* create(int arena, bool) { return new C(hash(), make_eq<Eq>(), al(arena)); }
	template<class R>
	static C* create_range(int arena, bool, R& v)
	{
		return new C(v.begin(), v.end(), hash(), make_eq<Eq>(), al(arena));
	}
	static C* copy(const C& c, int arena, bool with)
	{
		if (with)
			return new C(c, al(arena));
		return new C(c);
	}
	static int arena_of(const C& c)
	{
		if constexpr (AP >= 0)
			return c.get_allocator().arena;
		else
			return (void)c, 0;
	}
	static bool pocca() { return AP >= 0 && (AP & 1); }
	static bool pocma() { return AP >= 0 && (AP & 2); }
	static bool pocs() { return AP >= 0 && (AP & 4); }
};
}
