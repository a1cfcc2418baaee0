// Single threaded model tester of concurrent_set / concurrent_map (C13, and C14/C15 for them)
#pragma once
#include "hash_cfg.hpp"
#include <execution>
#include <seq/concurrent_map.hpp>

namespace conc {
using namespace mon;
using assoc::KT;
using assoc::MT;
using assoc::HashOf;
using assoc::make_eq;
using assoc::make_hash;
using assoc::Tagged;
using assoc::TS;

template<class Key_, class M_, int Q, unsigned Shards, int AP = -1, bool Copyable_ = true>
struct Cfg
{
	using Key = Key_;
	using Mapped = M_;
	using Val = typename assoc::ValueOf<Key, M_>::type;
	using Al = typename assoc::AllocOf<Val, AP>::type;
	using H = typename HashOf<Q, Key>::H;
	using Eq = typename HashOf<Q, Key>::Eq;
	static auto pick()
	{
		if constexpr (std::is_void<M_>::value)
			return std::common_type<seq::concurrent_set<Key, H, Eq, Al, Shards>>{};
		else
			return std::common_type<seq::concurrent_map<Key, M_, H, Eq, Al, Shards>>{};
	}
	using C = typename decltype(pick())::type;
	static constexpr bool Transp = !std::is_same<Key, Tagged>::value && (Q >= 0 || std::is_same<Key, std::string>::value || std::is_same<Key, TS>::value);
	static constexpr bool Copyable = Copyable_;
	static constexpr bool Stateful = Q == 5;
	static constexpr int APv = AP;
	static Al al(int arena)
	{
		if constexpr (AP >= 0)
			return Al(arena);
		else
			return (void)arena, Al();
	}
	static int arena_of(const C& c)
	{
		if constexpr (AP >= 0)
			return c.get_allocator().arena;
		else
			return (void)c, 0;
	}
	static H hash(uint64_t seed) { return make_hash<H>(seed); }
};

template<class Cf>
struct Tester
{
	using C = typename Cf::C;
	using Key = typename Cf::Key;
	using Mapped = typename Cf::Mapped;
	using V = typename C::value_type;
	using KTr = KT<Key>;
	using Ref = typename KTr::Ref;
	static constexpr bool Map = !std::is_void<Mapped>::value;
	static constexpr bool Copyable = Cf::Copyable;
	static constexpr bool Stamp = Map || std::is_same<Key, Tagged>::value;
	using Model = std::map<int, int64_t>;

	Ctx& ctx;
	Rng& r;
	unsigned maxn, steps;
	unsigned fmask;
	std::vector<Ref> pool;
	int64_t next_stamp = 1;
	uint64_t next_seed = 1;
	static constexpr int NC = 3;
	struct Slot
	{
		std::unique_ptr<C> c;
		Model m;
		int arena = 0;
		uint64_t seed = 0;
	};
	Slot s[NC];

	Tester(Ctx& c, unsigned mx, unsigned st, unsigned fm)
	  : ctx(c)
	  , r(c.rng)
	  , maxn(mx)
	  , steps(st)
	  , fmask(fm)
	{
	}
	Key key(int code) { return KTr::make(pool[code]); }
	V value(int code, int64_t st)
	{
		if constexpr (Map)
			return V(key(code), MT<Mapped>::make(st));
		else if constexpr (std::is_same<Key, Tagged>::value)
			return Tagged{ pool[code], st };
		else
			return key(code);
	}
	template<class El>
	static const Key& ekey(const El& e)
	{
		if constexpr (Map)
			return e.first;
		else
			return e;
	}
	template<class El>
	int64_t estamp(const El& e)
	{
		if constexpr (Map)
			return MT<Mapped>::get(e.second);
		else if constexpr (std::is_same<Key, Tagged>::value)
			return e.tag;
		else
			return 0;
	}
	template<class El>
	void set_stamp(El& e, int64_t st)
	{
		if constexpr (Map)
			e.second = MT<Mapped>::make(st);
	}
	int64_t stamp() { return Stamp ? next_stamp++ : 0; }
	int code_of(const Ref& x)
	{
		auto it = std::lower_bound(pool.begin(), pool.end(), x);
		if (it == pool.end() || x < *it)
			return -1;
		return static_cast<int>(it - pool.begin());
	}
	template<class El>
	int ecode(const El& e)
	{
		int c = code_of(KTr::ref(ekey(e)));
		ctx.check(c >= 0, "alien-key", "element key was never inserted");
		return c;
	}
	void make_pool()
	{
		unsigned shape = static_cast<unsigned>(r.below(6));
		size_t n = maxn * (1 + r.below(3)) / 2 + 4;
		if (r.pct(20))
			n = 4 + r.below(30);
		for (size_t i = 0; i < n; ++i)
			pool.push_back(KTr::gen(r, shape, i, n));
		std::sort(pool.begin(), pool.end());
		pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
	}
	int rcode(const Slot& x)
	{
		if (!x.m.empty() && r.pct(40)) {
			auto it = x.m.lower_bound(static_cast<int>(r.below(pool.size())));
			if (it == x.m.end())
				it = x.m.begin();
			return it->first;
		}
		return static_cast<int>(r.below(pool.size()));
	}
	// element seen through a functor
	template<class El>
	void seen(Slot& x, const El& e, int code, const char* what)
	{
		int c = ecode(e);
		ctx.check(c == code, what, "functor got key code %d instead of %d", c, code);
		auto it = x.m.find(code);
		ctx.check(it != x.m.end(), what, "functor called for the absent code %d", code);
		if (Stamp)
			ctx.check(estamp(e) == it->second, what, "functor got value %lld expected %lld", (long long)estamp(e), (long long)it->second);
		MON_COUNT("functor_calls_checked", 1);
	}
	template<class K>
	void lookup_with(Slot& x, const K& k, int code)
	{
		C& c = *x.c;
		const C& cc = c;
		size_t cnt = x.m.count(code);
		ctx.check(cc.contains(k) == (cnt > 0), "contains", "contains %d expected %zu", (int)cc.contains(k), cnt);
		ctx.check(cc.count(k) == cnt, "count", "count %zu expected %zu", (size_t)cc.count(k), cnt);
		size_t calls = 0;
		size_t n = c.visit(k, [&](auto& v) { ++calls; seen(x, v, code, "visit"); });
		ctx.check(n == cnt && calls == cnt, "visit", "returned %zu, %zu calls, expected %zu", n, calls, cnt);
		calls = 0;
		n = cc.visit(k, [&](const auto& v) { ++calls; seen(x, v, code, "visit-const"); });
		ctx.check(n == cnt && calls == cnt, "visit-const", "returned %zu, %zu calls, expected %zu", n, calls, cnt);
		calls = 0;
		n = c.cvisit(k, [&](const auto& v) { ++calls; seen(x, v, code, "cvisit"); });
		ctx.check(n == cnt && calls == cnt, "cvisit", "returned %zu, %zu calls, expected %zu", n, calls, cnt);
		MON_COUNT("lookups", 1);
	}
	void lookup(Slot& x, int code)
	{
		{
			Key k = key(code);
			lookup_with(x, k, code);
		}
		if constexpr (Cf::Transp) {
			auto v = KTr::view(pool[code]);
			lookup_with(x, v, code);
			MON_COUNT("heterogeneous_lookups", 1);
		}
	}
	Model observe(C& c, unsigned how)
	{
		Model o;
		auto f = [&](const auto& v) {
			int cd = ecode(v);
			ctx.check(o.emplace(cd, estamp(v)).second, "visited-twice", "code %d", cd);
		};
		const C& cc = c;
		bool ret = true;
		switch (how % 3) {
			case 0:
				ret = c.visit_all(f);
				break;
			case 1:
				ret = cc.visit_all(f);
				break;
			default:
				ret = c.cvisit_all(f);
				break;
		}
		ctx.check(ret, "visit_all-return", "false for a functor returning nothing");
		return o;
	}
	void verify(Slot& x)
	{
		C& c = *x.c;
		ctx.check(c.size() == x.m.size(), "size", "size %zu expected %zu", c.size(), x.m.size());
		ctx.check(c.empty() == x.m.empty(), "empty", "empty %d", (int)c.empty());
		Model o = observe(c, static_cast<unsigned>(r.below(3)));
		ctx.check(o.size() == x.m.size(), "visit_all", "visited %zu of %zu", o.size(), x.m.size());
		for (auto& p : x.m) {
			auto it = o.find(p.first);
			ctx.check(it != o.end(), "visit_all", "code %d not visited", p.first);
			if (Stamp)
				ctx.check(it->second == p.second, "value", "code %d holds %lld expected %lld", p.first, (long long)it->second, (long long)p.second);
		}
		for (size_t i = 0; i < pool.size(); ++i) {
			Key k = key(static_cast<int>(i));
			ctx.check(c.contains(k) == (x.m.count(static_cast<int>(i)) > 0), "contains-sweep", "code %zu: %d", i, (int)c.contains(k));
		}
		MON_COUNT("full_verifications", 1);
		uint64_t h = x.m.size();
		if (!x.m.empty())
			h = mix(mix(h, x.m.begin()->first), x.m.rbegin()->first);
		ctx.state(h);
	}
	// after an injected exception: adopt the content provided it is a consistent subset of before and after
	void adopt(Slot& x, const Model& before, const Model& after)
	{
		C& c = *x.c;
		Model o = observe(c, 0);
		ctx.check(c.size() == o.size(), "size-after-throw", "size %zu but %zu visited", c.size(), o.size());
		for (auto& p : o) {
			auto b = before.find(p.first), a = after.find(p.first);
			bool ok = (b != before.end() && b->second == p.second) || (a != after.end() && a->second == p.second);
			ctx.check(ok || !Stamp, "value-after-throw", "code %d holds %lld", p.first, (long long)p.second);
			ctx.check(b != before.end() || a != after.end(), "content-after-throw", "code %d", p.first);
		}
		x.m = o;
		x.arena = Cf::arena_of(c);
		verify(x);
	}
	C* create(int arena, uint64_t seed)
	{
		switch (r.below(3)) {
			case 0:
				return new C(0, Cf::hash(seed), make_eq<typename Cf::Eq>(), Cf::al(arena));
			default:
				return new C(r.below(200), Cf::hash(seed), make_eq<typename Cf::Eq>(), Cf::al(arena));
		}
	}
	void fresh(int i)
	{
		Slot& x = s[i];
		x.m.clear();
		x.arena = static_cast<int>(r.below(4));
		x.seed = Cf::Stateful ? next_seed++ % 7 : 0;
		x.c.reset(create(x.arena, x.seed));
	}
	void check_meta(Slot& x)
	{
		const C& c = *x.c;
		if constexpr (Cf::APv >= 0)
			ctx.check(c.get_allocator().arena == x.arena, "allocator", "arena %d expected %d", c.get_allocator().arena, x.arena);
		if constexpr (Cf::Stateful) {
			ctx.check(c.hash_function().seed == x.seed, "hash-state", "seed %llu expected %llu", (unsigned long long)c.hash_function().seed, (unsigned long long)x.seed);
			ctx.check(c.key_eq().on == 0x51, "eq-state", "equality functor lost its state");
		}
		float lf = c.load_factor();
		ctx.check(lf >= 0 && lf < 1e6f && c.max_load_factor() > 0, "load-factor", "%g", lf);
	}
	struct Stop
	{
	};

	bool insert_like(Slot& x, int code)
	{
		C& c = *x.c;
		bool present = x.m.count(code) > 0;
		int64_t st = stamp();
		size_t calls = 0;
		bool got = false, visitor = false, mut = false;
		int64_t st2 = 0;
		auto cf = [&](const auto& v) { ++calls; seen(x, v, code, "insert-visitor"); };
		auto mf = [&](auto& v) {
			++calls;
			seen(x, v, code, "insert-visitor");
			if (Map && mut)
				set_stamp(v, st2);
		};
		unsigned k = static_cast<unsigned>(r.below(Map ? 22 : 12));
		if constexpr (!Map)
			mut = false;
		else
			mut = r.coin();
		if (mut)
			st2 = stamp();
		ctx.op("insert", k, code, st);
		bool assign = false;
		switch (k) {
			case 0:
				got = c.insert(value(code, st));
				break;
			case 1:
				if constexpr (Copyable) {
					const V v = value(code, st);
					got = c.insert(v);
				}
				else
					got = c.insert(value(code, st));
				break;
			case 2:
				got = c.emplace(value(code, st));
				break;
			case 3:
				if constexpr (Map)
					got = c.emplace(key(code), MT<Mapped>::make(st));
				else
					got = c.emplace(value(code, st));
				break;
			case 4:
			case 5:
				visitor = true;
				got = c.insert_or_visit(value(code, st), mf);
				break;
			case 6:
			case 7:
				visitor = true;
				mut = false;
				got = c.insert_or_cvisit(value(code, st), cf);
				break;
			case 8:
			case 9:
				visitor = true;
				if constexpr (Map)
					got = c.emplace_or_visit(key(code), MT<Mapped>::make(st), mf);
				else
					got = c.emplace_or_visit(value(code, st), mf);
				break;
			case 10:
			case 11:
				visitor = true;
				mut = false;
				if constexpr (Map)
					got = c.emplace_or_cvisit(key(code), MT<Mapped>::make(st), cf);
				else
					got = c.emplace_or_cvisit(value(code, st), cf);
				break;
			default:
				if constexpr (Map) {
					Key kk = key(code);
					Mapped mm = MT<Mapped>::make(st);
					bool moves = false;
					switch (k) {
						case 12:
							got = c.try_emplace(kk, std::move(mm));
							moves = true;
							break;
						case 13:
							got = c.try_emplace(std::move(kk), std::move(mm));
							moves = true;
							break;
						case 14:
							visitor = true;
							got = c.try_emplace_or_visit(kk, std::move(mm), mf);
							moves = true;
							break;
						case 15:
							visitor = true;
							mut = false;
							got = c.try_emplace_or_cvisit(std::move(kk), std::move(mm), cf);
							moves = true;
							break;
						case 16:
							assign = true;
							got = c.insert_or_assign(kk, std::move(mm));
							break;
						case 17:
							assign = true;
							got = c.insert_or_assign(std::move(kk), std::move(mm));
							break;
						case 18:
							if constexpr (Cf::Transp && std::is_constructible<Key, decltype(KTr::view(pool[0]))>::value)
								got = c.try_emplace(KTr::view(pool[code]), std::move(mm));
							else
								got = c.try_emplace(kk, std::move(mm));
							moves = true;
							break;
						case 19:
							assign = true;
							if constexpr (Cf::Transp && std::is_constructible<Key, decltype(KTr::view(pool[0]))>::value)
								got = c.insert_or_assign(KTr::view(pool[code]), std::move(mm));
							else if constexpr (Copyable)
								got = c.insert_or_assign(kk, static_cast<const Mapped&>(mm));
							else
								got = c.insert_or_assign(kk, std::move(mm));
							break;
						case 20:
							visitor = true;
							if constexpr (Cf::Transp && std::is_constructible<Key, decltype(KTr::view(pool[0]))>::value)
								got = c.try_emplace_or_visit(KTr::view(pool[code]), std::move(mm), mf);
							else
								got = c.try_emplace_or_visit(std::move(kk), std::move(mm), mf);
							break;
						default:
							visitor = true;
							mut = false;
							if constexpr (Cf::Transp && std::is_constructible<Key, decltype(KTr::view(pool[0]))>::value)
								got = c.try_emplace_or_cvisit(KTr::view(pool[code]), std::move(mm), cf);
							else
								got = c.try_emplace_or_cvisit(kk, std::move(mm), cf);
							break;
					}
					if (moves && present) {
						// the arguments of a try_emplace on a present key stay untouched
						ctx.check(MT<Mapped>::get(mm) == st, "try_emplace-consumed", "argument changed although the key was present");
						MON_COUNT("try_emplace_on_present_key", 1);
					}
				}
				break;
		}
		ctx.check(got == !present, "insert-result", "variant %u returned %d, key present %d", k, (int)got, (int)present);
		ctx.check(calls == (visitor && present ? 1u : 0u), "insert-visitor-calls", "variant %u: %zu calls, key present %d", k, calls, (int)present);
		if (!present)
			x.m[code] = st;
		else if (assign)
			x.m[code] = st;
		else if (visitor && mut)
			x.m[code] = st2;
		return got;
	}
	void step(int which)
	{
		Slot& x = s[which];
		C& c = *x.c;
		const C& cc = c;
		unsigned k = static_cast<unsigned>(r.below(100));
		if (k < 30) {
			insert_like(x, rcode(x));
		}
		else if (k < 36) { // burst
			size_t n = r.below(maxn / 3 + 2);
			ctx.op("burst", n);
			for (size_t i = 0; i < n; ++i) {
				int cd = static_cast<int>(r.below(pool.size()));
				int64_t st = stamp();
				bool ok = c.emplace(value(cd, st));
				ctx.check(ok == !x.m.count(cd), "burst-result", "%d", (int)ok);
				x.m.emplace(cd, st);
			}
		}
		else if (k < 40) { // range insertion
			size_t n = r.below(40);
			unsigned how = static_cast<unsigned>(r.below(5));
			ctx.op("insert_range", n, how);
			std::vector<V> v;
			size_t expected_calls = 0, calls = 0;
			Model m = x.m;
			for (size_t i = 0; i < n; ++i) {
				int cd = rcode(x);
				int64_t st = stamp();
				v.push_back(value(cd, st));
				if (!m.emplace(cd, st).second)
					++expected_calls;
			}
			if constexpr (Copyable) {
				switch (how) {
					case 0:
						c.insert(v.begin(), v.end());
						break;
					case 1: {
						std::list<V> l(v.begin(), v.end());
						c.insert(l.begin(), l.end());
						break;
					}
					case 2:
						c.insert_or_visit(v.begin(), v.end(), [&](auto&) { ++calls; });
						ctx.check(calls == expected_calls, "range-visits", "%zu expected %zu", calls, expected_calls);
						break;
					case 3:
						c.insert_or_cvisit(v.begin(), v.end(), [&](const auto&) { ++calls; });
						ctx.check(calls == expected_calls, "range-visits", "%zu expected %zu", calls, expected_calls);
						break;
					default:
						c.insert(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
						break;
				}
			}
			else
				c.insert(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
			x.m = m;
		}
		else if (k < 55) { // erase key
			int cd = rcode(x);
			unsigned how = static_cast<unsigned>(r.below(4));
			ctx.op("erase", cd, how);
			size_t was = x.m.count(cd), got = 0, calls = 0;
			bool yes = r.coin();
			auto pred = [&](auto& v) {
				++calls;
				seen(x, v, cd, "erase_if-key");
				return yes;
			};
			Key kk = key(cd);
			if (how == 0)
				got = c.erase(kk), yes = true;
			else if (how == 1)
				got = c.erase_if(kk, pred);
			else if constexpr (Cf::Transp) {
				if (how == 2)
					got = c.erase(KTr::view(pool[cd])), yes = true;
				else
					got = c.erase_if(KTr::view(pool[cd]), pred);
			}
			else
				got = c.erase(kk), yes = true;
			if (how & 1)
				if (how == 1 || Cf::Transp)
					ctx.check(calls == was, "erase_if-calls", "%zu expected %zu", calls, was);
			ctx.check(got == (yes ? was : 0), "erase-result", "%zu expected %zu", got, yes ? was : size_t(0));
			if (yes)
				x.m.erase(cd);
		}
		else if (k < 60) { // erase_if
			unsigned mod = 1 + static_cast<unsigned>(r.below(5)), rem = static_cast<unsigned>(r.below(mod));
			unsigned how = static_cast<unsigned>(r.below(3));
			ctx.op("erase_if", mod, rem, how);
			std::map<int, int> calls;
			auto pred = [&](auto& v) {
				int cd = ecode(v);
				++calls[cd];
				return static_cast<unsigned>(cd) % mod == rem;
			};
			size_t got = 0, expect = 0;
			if (how == 0)
				got = c.erase_if(pred);
			else if (how == 1)
				got = erase_if(c, pred);
			else
				if (par)
					got = c.erase_if(std::execution::seq, pred);
				else
					got = c.erase_if(pred);
			ctx.check(calls.size() == x.m.size(), "erase_if-visits", "%zu elements seen, %zu present", calls.size(), x.m.size());
			for (auto& p : calls)
				ctx.check(p.second == 1, "erase_if-visits", "code %d tested %d times", p.first, p.second);
			for (auto it = x.m.begin(); it != x.m.end();)
				if (static_cast<unsigned>(it->first) % mod == rem)
					it = x.m.erase(it), ++expect;
				else
					++it;
			ctx.check(got == expect, "erase_if-result", "%zu expected %zu", got, expect);
		}
		else if (k < 65) { // early stop
			size_t stop = r.below(x.m.size() + 2), n = 0;
			unsigned how = static_cast<unsigned>(r.below(4));
			ctx.op("visit_until", stop, how);
			bool ret = true;
			auto f = [&](const auto&) { return ++n < stop; };
			if (how == 0)
				ret = c.visit_all(f);
			else if (how == 1)
				ret = cc.visit_all(f);
			else if (how == 2)
				ret = c.cvisit_all(f);
			else
				if (par)
					ret = c.visit_all(std::execution::seq, f);
				else
					ret = c.visit_all(f);
			bool stopped = stop <= x.m.size() && !x.m.empty();
			if (how != 3) {
				size_t expect = stopped ? std::max<size_t>(stop, 1) : x.m.size();
				ctx.check(n == expect, "visit-until", "%zu calls expected %zu (variant %u, size %zu, stop %zu)", n, expect, how, x.m.size(), stop);
			}
			ctx.check(ret == !stopped, "visit-until-return", "returned %d expected %d (variant %u)", (int)ret, (int)!stopped, how);
			MON_COUNT("early_stops", stopped);
		}
		else if (k < 68) { // modification of every element
			if constexpr (Map) {
				ctx.op("visit_all-modify");
				size_t n = 0;
				auto f = [&](auto& v) {
					int cd = ecode(v);
					seen(x, v, cd, "visit_all-modify");
					int64_t st = stamp();
					set_stamp(v, st);
					x.m[cd] = st;
					++n;
				};
				if (r.coin())
					c.visit_all(f);
				else
					if (par)
						c.visit_all(std::execution::seq, f);
					else
						c.visit_all(f);
				ctx.check(n == x.m.size(), "visit_all-modify", "%zu of %zu", n, x.m.size());
			}
		}
		else if (k < 74) {
			unsigned how = static_cast<unsigned>(r.below(5));
			size_t n = r.below(4) ? r.below(2 * maxn) : r.below(20);
			ctx.op("capacity", how, n);
			if (how == 0)
				c.reserve(n);
			else if (how == 1) {
				// boost: rehash(0) forces an unconditional rehash
				c.rehash(n);
			}
			else if (how == 2)
				c.max_load_factor(0.2f + static_cast<float>(r.below(20)) / 10.f);
			else if (how == 3) {
				c.reserve(x.m.size());
				c.rehash(0);
			}
			else
				c.reserve(0);
		}
		else if (k < 76) {
			ctx.op("clear");
			c.clear();
			x.m.clear();
		}
		else if (k < 86) { // whole container
			int o = static_cast<int>(r.below(NC));
			Slot& y = s[o];
			unsigned how = static_cast<unsigned>(r.below(9));
			ctx.op("whole", how, which, o);
			switch (how) {
				case 0:
					if constexpr (Copyable) {
						*x.c = *static_cast<const C*>(y.c.get());
						x.m = y.m;
						if (o != which) {
							x.seed = y.seed;
							if (Cf::APv >= 0 && (Cf::APv & 1))
								x.arena = y.arena;
						}
					}
					break;
				case 1:
					if (o == which)
						break;
					*x.c = std::move(*y.c);
					x.m = y.m;
					x.seed = y.seed;
					if (Cf::APv >= 0 && (Cf::APv & 2))
						x.arena = y.arena;
					// the source stays valid with an unspecified content
					y.c->clear();
					y.m.clear();
					y.seed = 0;
					y.arena = Cf::arena_of(*y.c);
					fresh(o);
					break;
				case 2:
					if (Cf::APv >= 0 && !(Cf::APv & 4) && y.arena != x.arena)
						break;
					x.c->swap(*y.c);
					std::swap(x.m, y.m);
					std::swap(x.seed, y.seed);
					if (Cf::APv >= 0 && (Cf::APv & 4))
						std::swap(x.arena, y.arena);
					break;
				case 3:
					if constexpr (Copyable) {
						if (o == which)
							break;
						int a = static_cast<int>(r.below(4));
						bool with = r.coin();
						const C& src = *y.c;
						x.c.reset(with ? new C(src, Cf::al(a)) : new C(src));
						x.m = y.m;
						x.seed = y.seed;
						x.arena = with ? a : (Cf::APv >= 0 && (Cf::APv & 8) ? 0 : y.arena);
					}
					break;
				case 4: {
					if (o == which)
						break;
					int a = static_cast<int>(r.below(4));
					bool with = r.coin();
					x.c.reset(with ? new C(std::move(*y.c), Cf::al(a)) : new C(std::move(*y.c)));
					x.m = y.m;
					x.seed = y.seed;
					x.arena = with ? a : y.arena;
					y.c->clear();
					ctx.check(y.c->size() == 0, "clear-moved-from", "size %zu", y.c->size());
					fresh(o);
					break;
				}
				case 5:
				case 6: {
					if (x.arena != y.arena && Cf::APv >= 0)
						break;
					size_t expect = 0;
					if (o != which)
						for (auto it = y.m.begin(); it != y.m.end();)
							if (x.m.emplace(*it).second)
								it = y.m.erase(it), ++expect;
							else
								++it;
					size_t got = 0;
					unsigned v = static_cast<unsigned>(r.below(3));
					if (v == 0)
						got = c.merge(*y.c);
					else if (v == 1)
						got = c.merge(std::move(*y.c));
					else
						if (par)
							got = c.merge(std::execution::seq, *y.c);
						else
							got = c.merge(*y.c);
					ctx.check(got == expect, "merge-result", "%zu expected %zu", got, expect);
					break;
				}
				case 7: {
					bool eq = x.m == y.m;
					if constexpr (!Stamp) {
						eq = x.m.size() == y.m.size();
						for (auto& p : x.m)
							eq = eq && y.m.count(p.first);
					}
					else if constexpr (!Map) { // the tag is not part of the comparison
						eq = x.m.size() == y.m.size();
						for (auto& p : x.m)
							eq = eq && y.m.count(p.first);
					}
					ctx.check((*x.c == *y.c) == eq, "equal", "%d expected %d", (int)(*x.c == *y.c), (int)eq);
					ctx.check((*x.c != *y.c) == !eq, "not-equal", "%d", (int)(*x.c != *y.c));
					MON_COUNT("comparisons_equal", eq);
					break;
				}
				default: {
					if constexpr (Copyable) {
						// equal content in another table with another history and capacity
						Slot z;
						z.seed = Cf::Stateful ? next_seed++ % 7 : 0;
						std::unique_ptr<C> d(create(x.arena, z.seed));
						std::vector<int> codes;
						for (auto& p : x.m)
							codes.push_back(p.first);
						for (size_t i = codes.size(); i > 1; --i)
							std::swap(codes[i - 1], codes[r.below(i)]);
						for (int cd : codes)
							d->insert(value(cd, x.m[cd]));
						ctx.check(*d == *x.c && *x.c == *d, "equal-content", "tables of the same content compare different");
						ctx.check(!(*d != *x.c), "equal-content", "operator!= true for the same content");
						if (!codes.empty()) {
							d->erase(key(codes[0]));
							ctx.check(*d != *x.c, "different-content", "tables of different size compare equal");
						}
						MON_COUNT("comparisons_equal", 1);
					}
					break;
				}
			}
			check_meta(s[o]);
		}
		else if (k < 89) { // constructors
			if constexpr (Copyable) {
				ctx.op("construct");
				std::vector<V> v;
				Model m;
				for (size_t n = r.below(30); n > 0; --n) {
					int cd = static_cast<int>(r.below(pool.size()));
					int64_t st = stamp();
					v.push_back(value(cd, st));
					m.emplace(cd, st);
				}
				fresh(which);
				unsigned how = static_cast<unsigned>(r.below(4));
				if (how == 0)
					x.c.reset(new C(v.begin(), v.end(), r.below(100), Cf::hash(x.seed), make_eq<typename Cf::Eq>(), Cf::al(x.arena)));
				else if (how == 1 || Cf::Stateful) {
					if (v.size() < 3)
						return;
					m.clear();
					std::initializer_list<V> il{ v[0], v[1], v[2] };
					for (int i = 0; i < 3; ++i)
						m.emplace(ecode(v[i]), estamp(v[i]));
					x.c.reset(new C(il, 0, Cf::hash(x.seed), make_eq<typename Cf::Eq>(), Cf::al(x.arena)));
				}
				else if (how == 2)
					x.c.reset(new C(v.begin(), v.end(), Cf::al(x.arena)));
				else
					x.c.reset(new C(v.begin(), v.end(), 10, Cf::hash(x.seed), Cf::al(x.arena)));
				x.m = m;
				verify(x);
			}
		}
		else if (k < 93) { // functors that throw
			ctx.op("throwing-functor");
			struct Boom
			{
			};
			int cd = rcode(x);
			Key kk = key(cd);
			bool thrown = false;
			unsigned how = static_cast<unsigned>(r.below(5));
			try {
				if (how == 0)
					c.visit(kk, [](auto&) { throw Boom(); });
				else if (how == 1)
					cc.visit(kk, [](const auto&) { throw Boom(); });
				else if (how == 2)
					c.visit_all([](auto&) -> void { throw Boom(); });
				else if (how == 3)
					c.erase_if(kk, [](auto&) -> bool { throw Boom(); });
				else
					c.erase_if([](auto&) -> bool { throw Boom(); });
			}
			catch (const Boom&) {
				thrown = true;
			}
			bool expect = how == 2 || how == 4 ? !x.m.empty() : x.m.count(cd) > 0;
			ctx.check(thrown == expect, "functor-exception", "propagated %d expected %d", (int)thrown, (int)expect);
			MON_COUNT("functor_exceptions", thrown);
			lookup(x, cd);
			verify(x);
		}
		else {
			int cd = rcode(x);
			ctx.op("lookup", cd);
			lookup(x, cd);
		}
	}
	bool par = true;
	void faulty(int which)
	{
		Model b[NC];
		for (int i = 0; i < NC; ++i)
			b[i] = s[i].m;
		// run the step on the model alone is not possible: arm and see
		uint64_t save = r.s;
		(void)save;
		par = false; // an exception leaving a parallel algorithm terminates, by design
		Fault::arm(1 + static_cast<int64_t>(r.below(r.pct(50) ? 6 : 60)), fmask);
		try {
			step(which);
			Fault::disarm();
			par = true;
		}
		catch (const Injected&) {
			Fault::disarm();
			par = true;
			MON_COUNT("injected_exceptions", 1);
			for (int i = 0; i < NC; ++i) {
				if (!s[i].c)
					fresh(i);
				if constexpr (Cf::Stateful)
					s[i].seed = s[i].c->hash_function().seed;
				// any value present before in some slot, or given during the step, may remain
				Model after = s[i].m;
				Model before = b[i];
				C& c = *s[i].c;
				Model o = observe(c, 0);
				ctx.check(c.size() == o.size(), "size-after-throw", "size %zu but %zu visited", c.size(), o.size());
				s[i].m = o;
				s[i].arena = Cf::arena_of(c);
				verify(s[i]);
			}
		}
	}
	void run()
	{
		make_pool();
		for (int i = 0; i < NC; ++i)
			fresh(i);
		for (unsigned i = 0; i < steps; ++i) {
			int w = r.pct(70) ? 0 : static_cast<int>(r.below(NC));
			if (fmask && r.pct(40))
				faulty(w);
			else
				step(w);
			if (i % 8 == 7 || r.pct(10))
				verify(s[w]);
			else
				ctx.check(s[w].c->size() == s[w].m.size(), "size", "size %zu expected %zu", s[w].c->size(), s[w].m.size());
		}
		for (int i = 0; i < NC; ++i) {
			verify(s[i]);
			check_meta(s[i]);
			s[i].c.reset();
		}
	}
};
template<class Cf, unsigned MaxN = 300, unsigned Steps = 60, unsigned FMask = 0>
void run(Ctx& c)
{
	Tester<Cf> t(c, MaxN, Steps, FMask);
	t.run();
}
}
