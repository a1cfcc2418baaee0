// C16: associative containers of real key and mapped types against their models
#include "reals.hpp"
#include "hash_cfg.hpp"
#include "radix_cfg.hpp"
#include <seq/concurrent_map.hpp>
using namespace assoc;
namespace assoc {
// type erased keys: the same string is held as std::string, tstring, ...
template<>
struct KT<HAny>
{
	using T = HAny;
	using Ref = std::string;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t) { return gen_str(r, shape, i); }
	static T make(const Ref& s)
	{
		static unsigned n = 0;
		return ++n % 2 ? T(s) : T(TStr(s.data(), s.size()));
	}
	static Ref ref(const T& k)
	{
		if (auto* p = seq::any_cast<std::string>(&k))
			return *p;
		if (auto* p = seq::any_cast<TStr>(&k))
			return Ref(p->data(), p->size());
		return "<damaged key>";
	}
	static T view(const Ref& s) { return T(s); }
};
struct Deref
{
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		return *a < *b;
	}
};
template<>
struct KT<std::unique_ptr<int64_t>>
{
	using T = std::unique_ptr<int64_t>;
	using Ref = int64_t;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t n) { return gen_int<int>(r, shape, i, n); }
	static T make(const Ref& s) { return T(new int64_t(s)); }
	static Ref ref(const T& k) { return k ? *k : INT64_MIN; }
	static T view(const Ref& s) { return make(s); }
};
template<>
struct KT<std::shared_ptr<std::string>>
{
	using T = std::shared_ptr<std::string>;
	using Ref = std::string;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t) { return gen_str(r, shape, i); }
	static T make(const Ref& s) { return std::make_shared<std::string>(s); }
	static Ref ref(const T& k) { return k ? *k : Ref("<null>"); }
	static T view(const Ref& s) { return make(s); }
};
using PairK = std::pair<TStr, std::string>;
template<>
struct KT<PairK>
{
	using T = PairK;
	using Ref = std::pair<std::string, std::string>;
	static Ref gen(Rng& r, unsigned shape, size_t i, size_t) { return Ref(gen_str(r, shape, i % 3), gen_str(r, shape, i)); }
	static T make(const Ref& s) { return T(TStr(s.first.data(), s.first.size()), s.second); }
	static Ref ref(const T& k) { return Ref(std::string(k.first.data(), k.first.size()), k.second); }
	static T view(const Ref& s) { return make(s); }
};
template<class Base>
struct NoEq : Base // the mapped type has no operator==
{
	static constexpr bool HasEq = false;
};
template<class Base>
struct Lit : Base
{
	static constexpr bool Literals = true;
};
}
template<class Key, class M, int Q = -1, bool Cp = true>
using O = HashCfg<0, Key, M, Q, -1, Cp>;
template<class Key, class M, int Q = -1, bool Cp = true>
using H = HashCfg<1, Key, M, Q, -1, Cp>;
template<class Key, class M, bool Cp = true>
using R = RadixCfg<Key, M, -1, Cp>;
template<int W, class Key, class M, class Cmp = std::less<>, bool St = true, bool Cp = true>
using F = FlatCfg<W, Key, M, Cmp, St, -1, Cp>;
#define RUN(ident, name, ...) static Reg ident("C16/" name, 80, 8000, &run<__VA_ARGS__, 120, 50>);
#if PART == 0
RUN(a1, "ordered_set/tstring-literals", Lit<O<TStr, void>>)
RUN(a2, "ordered_map/string-literals", Lit<O<std::string, TStr>>)
RUN(a3, "ordered_map/tiny40-unique_ptr", O<TStr40, std::unique_ptr<std::string>, -1, false>)
RUN(a4, "ordered_set/any", O<HAny, void>)
#elif PART == 1
RUN(b1, "ordered_map/string-devector", NoEq<O<std::string, DevT>>)
RUN(b2, "ordered_map/tstring-ordered_map", O<TStr, OrdM>)
RUN(b3, "ordered_map/pair-any", O<PairK, HAny>)
#elif PART == 2
RUN(c1, "radix_hash_set/tstring-literals", Lit<H<TStr, void>>)
RUN(c2, "radix_hash_map/string-literals", Lit<H<std::string, TStr>>)
RUN(c3, "radix_hash_map/tiny40-unique_ptr", H<TStr40, std::unique_ptr<std::string>, -1, false>)
RUN(c4, "radix_hash_set/any", H<HAny, void>)
#elif PART == 3
RUN(d5, "radix_hash_map/pair-any", H<PairK, HAny>)
RUN(d1, "radix_hash_map/string-tiered_vector", NoEq<H<std::string, TvS>>)
RUN(d2, "radix_hash_map/tstring-radix_hash_map", H<TStr, RhM>)
RUN(d3, "radix_hash_map/tstring-constant-any", NoEq<H<TStr, Any, 1>>)
#elif PART == 4
RUN(e1, "radix_set/tstring-literals", Lit<R<TStr, void>>)
RUN(e2, "radix_map/string-literals", Lit<R<std::string, TStr>>)
RUN(e3, "radix_map/tiny40-unique_ptr", R<TStr40, std::unique_ptr<std::string>, false>)
#elif PART == 5
RUN(f1, "radix_map/int-any", NoEq<R<int, Any>>)
RUN(f2, "radix_map/tstring-radix_map", R<TStr, RadM>)
RUN(f3, "radix_map/string-self-reference", NoEq<R<std::string, SelfRef>>)
RUN(f4, "radix_map/string-sequence", NoEq<R<std::string, SeqT>>)
#elif PART == 6
RUN(g1, "flat_set/tstring-literals", Lit<F<0, TStr, void>>)
RUN(g2, "flat_map/string-literals", Lit<F<2, std::string, TStr>>)
RUN(g3, "flat_map/tiny40-unique_ptr", F<2, TStr40, std::unique_ptr<std::string>, std::less<>, false, false>)
RUN(g4, "flat_multimap/any-shared_ptr", F<3, HAny, std::shared_ptr<std::string>, Less>)
#elif PART == 7
RUN(h5, "flat_map/pair-any", F<2, PairK, HAny>)
RUN(h1, "flat_map/tstring-flat_map", F<2, TStr, FlatM>)
RUN(h2, "flat_multimap/string-devector", NoEq<F<3, std::string, DevT>>)
RUN(h3, "flat_multiset/unique_ptr", F<1, std::unique_ptr<int64_t>, void, Deref, true, false>)
RUN(h4, "flat_multiset/shared_ptr", F<1, std::shared_ptr<std::string>, void, Deref>)
#endif
