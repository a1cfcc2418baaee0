// C16: linear containers of real element types against the vector model
#include "reals.hpp"
#include "lin.hpp"
using namespace lin;
#define L3(ident, name, T)                                                                                                                                                                             \
	static Reg ident##d("C16/devector/" name, 100, 10000, &run_case<seq::devector<T>, DEV, ALIAS>);                                                                                                \
	static Reg ident##t("C16/tiered_vector/" name, 100, 10000, &run_case<seq::tiered_vector<T>, TV, ALIAS>);                                                                                       \
	static Reg ident##s("C16/sequence/" name, 100, 10000, &run_case<seq::sequence<T>, SEQ, ALIAS>);
using TupleT = std::tuple<TStr, SelfRef>;
using PairS = std::pair<SelfRef, TStr>;
using PairT = std::pair<TStr, int64_t>;
#if PART == 0
L3(a, "tstring", TStr)
L3(b, "pair-self-reference", PairS)
#elif PART == 1
L3(c, "wtstring", WStr)
L3(d, "unique_ptr", std::unique_ptr<std::string>)
#elif PART == 2
L3(e, "shared_ptr", std::shared_ptr<std::string>)
L3(f, "hold_any", HAny)
#elif PART == 3
L3(g, "any-custom", Any)
L3(h, "self-reference", SelfRef)
#elif PART == 4
L3(i, "pair", PairT)
L3(j, "devector", DevT)
#elif PART == 5
L3(k, "tiered_vector", TvS)
L3(l, "sequence", SeqT)
#elif PART == 6
L3(m, "flat_map", FlatM)
L3(n, "ordered_set", OrdS)
#elif PART == 7
L3(o, "radix_set", RadS)
L3(p, "radix_hash_map", RhM)
#elif PART == 8
L3(q, "devector-devector", DevDev)
L3(r, "ordered_map", OrdM)
#elif PART == 9
L3(s, "radix_map", RadM)
L3(t, "tuple", TupleT)
#endif
