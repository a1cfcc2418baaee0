// Configurations of radix_set / radix_map
#pragma once
#include "hash_cfg.hpp"
namespace assoc {
// random printable/wide/any element arrays of type Ch
template<class S>
struct SeqKT
{
	using T = S;
	using Ref = S;
	using Ch = typename S::value_type;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n)
	{
		S s;
		if (shape % 6 == 5 || std::is_floating_point<Ch>::value) {
			// few distinct symbols, including extremes, variable length
			static const Ch sym[] = { Ch(0), Ch(1), Ch(-1), std::numeric_limits<Ch>::max(), std::numeric_limits<Ch>::lowest(), Ch(2) };
			size_t l = r.below(r.coin() ? 5 : 24);
			unsigned k = 1 + static_cast<unsigned>(r.below(6));
			for (size_t j = 0; j < l; ++j)
				s.push_back(sym[r.below(k)]);
			if (std::is_floating_point<Ch>::value && r.coin())
				s.push_back(static_cast<Ch>(static_cast<int64_t>(r.below(2000)) - 1000) / 7);
			return s;
		}
		std::string b = gen_str(r, shape, i);
		for (char c : b) {
			uint64_t v = static_cast<unsigned char>(c);
			if (shape % 6 == 1)
				v = r.next();
			s.push_back(static_cast<Ch>(v));
		}
		return s;
	}
	static T make(const Ref& r) { return r; }
	static Ref ref(const T& k) { return k; }
	static const T& view(const Ref& r) { return r; }
};
template<>
struct KT<std::wstring> : SeqKT<std::wstring>
{
};
template<>
struct KT<std::u16string> : SeqKT<std::u16string>
{
};
template<>
struct KT<std::u32string> : SeqKT<std::u32string>
{
};
template<class Ch>
struct KT<std::vector<Ch>> : SeqKT<std::vector<Ch>>
{
};
template<class... Ts>
struct KT<std::tuple<Ts...>>
{
	using T = std::tuple<Ts...>;
	using Ref = T;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n)
	{
		// few values in most of the fields
		return T{ KT<Ts>::gen(r, r.coin() ? shape : 0, r.pct(70) ? r.below(3) : i, r.pct(70) ? 3 : n)... };
	}
	static T make(const Ref& r) { return r; }
	static Ref ref(const T& k) { return k; }
	static T view(const Ref& r) { return r; }
};
template<class T_>
struct KT<T_*>
{
	using T = T_*;
	using Ref = T_*;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n)
	{
		return reinterpret_cast<T_*>(static_cast<uintptr_t>(gen_int<int64_t>(r, shape, i, n)) & ~uintptr_t(alignof(T_) - 1));
	}
	static T make(const Ref& r) { return r; }
	static Ref ref(const T& k) { return k; }
	static T view(const Ref& r) { return r; }
};
// object whose key is one of its fields
struct Rec
{
	int64_t tag = 0;
	std::string name;
	friend bool operator<(const Rec& a, const Rec& b) { return a.name < b.name; }
	friend bool operator==(const Rec& a, const Rec& b) { return a.name == b.name; }
	friend bool operator!=(const Rec& a, const Rec& b) { return a.name != b.name; }
};
struct RecKey
{
	const std::string& operator()(const Rec& r) const { return r.name; }
	const std::string& operator()(const std::string& r) const { return r; }
};
template<>
struct KT<Rec>
{
	using T = Rec;
	using Ref = std::string;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t) { return gen_str(r, shape, i); }
	static T make(const Ref& r) { return T{ 7, r }; }
	static Ref ref(const T& k) { return k.name; }
	static const std::string& view(const Ref& r) { return r; }
};

template<class Key_, class M_, int AP = -1, bool Copyable_ = true, class Extract = seq::default_key>
struct RadixCfg : CfgBase
{
	using Key = Key_;
	using Mapped = M_;
	using Val = typename ValueOf<Key, M_>::type;
	using Al = typename AllocOf<Val, AP>::type;
	template<class M>
	static auto pick()
	{
		if constexpr (std::is_void<M>::value)
			return std::common_type<seq::radix_set<Key, Extract, Al>>{};
		else
			return std::common_type<seq::radix_map<Key, M, Extract, Al>>{};
	}
	using C = typename decltype(pick<M_>())::type;
	static constexpr Kind K = RADIX;
	static constexpr bool Stable = true;
	static constexpr bool Stamp = !std::is_void<M_>::value;
	static constexpr bool Prefix = IsStrKey<Key>::value || std::is_same<Key, std::wstring>::value;
	static constexpr bool Transp = IsStrKey<Key>::value || std::is_same<Key, Rec>::value;
	static constexpr bool Alloc = AP >= 0;
	static constexpr bool Copyable = Copyable_;
	static constexpr bool HasShrink = std::is_void<M_>::value;
	static Al al(int arena)
	{
		if constexpr (AP >= 0)
			return Al(arena);
		else
			return (void)arena, Al();
	}
	static C* create(int arena, bool) { return new C(al(arena)); }
	template<class R>
	static C* create_range(int arena, bool, R& v)
	{
		return new C(v.begin(), v.end(), al(arena));
	}
	static C* copy(const C& c, int arena, bool with)
	{
		if (with)
			return new C(c, al(arena));
		return new C(c);
	}
	static int arena_of(const C& c)
	{
		if constexpr (AP >= 0)
			return c.get_allocator().arena;
		else
			return (void)c, 0;
	}
	static bool pocca() { return AP >= 0 && (AP & 1); }
	static bool pocma() { return AP >= 0 && (AP & 2); }
	static bool pocs() { return AP >= 0 && (AP & 4); }
};
}
