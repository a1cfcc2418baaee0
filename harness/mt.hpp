// Multi-threaded histories over concurrent_map / concurrent_set: recording, per-key linearizability checker,
// occupancy monitors, conservation at quiescence, progress watchdog (C10, C11, C12)
#pragma once
#include "fiber.hpp"
#include "interpose_begin.hpp"
#include <seq/concurrent_map.hpp>
#include "interpose_end.hpp"

namespace mt {
using namespace mon;

// ---- per-thread noise: delays at every user-supplied hook (hash, equality, allocation, element copy/move, callbacks)
struct Noise
{
	uint64_t s = 0;
	unsigned rate = 0; // out of 1024
	int64_t fault = -1; // allocation countdown
};
inline Noise& noise()
{
	static thread_local Noise n;
	static Noise per_fiber[64];
	return fiber::active() ? per_fiber[fiber::S().cur] : n;
}
inline void spin(unsigned n)
{
	for (volatile unsigned i = 0; i < n; i = i + 1)
		;
}
inline void point(unsigned weight = 1)
{
	if (fiber::active()) {
		fiber::S().point();
		return;
	}
	Noise& n = noise();
	if (!n.rate)
		return;
	n.s = n.s * 6364136223846793005ull + 1442695040888963407ull;
	unsigned v = static_cast<unsigned>(n.s >> 33) & 1023;
	if (v >= n.rate * weight)
		return;
	switch ((n.s >> 50) & 15) {
		case 0:
			usleep(30);
			break;
		case 1:
		case 2:
		case 3:
		case 4:
			std::this_thread::yield();
			break;
		case 5:
		case 6:
			spin(3000);
			break;
		default:
			spin(200);
	}
}
// before each atomic operation of the library
inline void atom_point()
{
	Noise& n = noise();
	if (!n.rate)
		return;
	n.s = n.s * 6364136223846793005ull + 1442695040888963407ull;
	if (!((n.s >> 40) & 15))
		point();
}
inline std::atomic<int64_t> g_cells{ 0 }, g_bytes{ 0 }, g_occ_seen{ 0 };
inline std::atomic<const char*> g_bad{ nullptr };
inline void bad(const char* what)
{
	const char* e = nullptr;
	g_bad.compare_exchange_strong(e, what);
}

// ---- payload: a unique stamp, an occupancy word, and plain data that only the holder of the element may touch
template<bool NothrowMove, bool Plain>
struct CellT
{
	int64_t stamp = 0;
	mutable std::atomic<uint32_t> occ{ 0 };
	int64_t shadow[3] = { 0, 0, 0 };
	uint32_t alive = 0xA11CE;

	CellT() { g_cells.fetch_add(1, std::memory_order_relaxed); }
	CellT(int64_t s)
	  : stamp(s)
	{
		shadow[0] = shadow[1] = shadow[2] = s;
		g_cells.fetch_add(1, std::memory_order_relaxed);
	}
	CellT(const CellT& o)
	  : stamp(o.stamp)
	{
		o.check_unmodified();
		memcpy(shadow, o.shadow, sizeof(shadow));
		g_cells.fetch_add(1, std::memory_order_relaxed);
		point();
	}
	CellT(CellT&& o) noexcept(NothrowMove)
	  : stamp(o.stamp)
	{
		o.check_idle("element moved while a callback uses it");
		memcpy(shadow, o.shadow, sizeof(shadow));
		o.stamp = -1;
		g_cells.fetch_add(1, std::memory_order_relaxed);
		point();
	}
	CellT& operator=(const CellT& o)
	{
		o.check_unmodified();
		check_idle("element overwritten while a callback uses it");
		stamp = o.stamp;
		memcpy(shadow, o.shadow, sizeof(shadow));
		return *this;
	}
	CellT& operator=(CellT&& o) noexcept(NothrowMove)
	{
		o.check_idle("element moved while a callback uses it");
		check_idle("element overwritten while a callback uses it");
		stamp = o.stamp;
		memcpy(shadow, o.shadow, sizeof(shadow));
		if (&o != this)
			o.stamp = -1;
		point();
		return *this;
	}
	~CellT()
	{
		if (alive != 0xA11CE)
			bad("destroyed twice");
		check_idle("element destroyed while a callback uses it");
		alive = 0xDEAD;
		g_cells.fetch_sub(1, std::memory_order_relaxed);
	}
	void check_idle(const char* w) const
	{
		if (alive != 0xA11CE)
			bad("dead element used");
		if (!Plain && occ.load(std::memory_order_relaxed))
			bad(w);
	}
	void check_unmodified() const
	{
		if (alive != 0xA11CE)
			bad("dead element copied");
		if (occ.load(std::memory_order_relaxed) >= 0x10000u)
			bad("element copied while an exclusive callback uses it");
	}
	bool consistent() const { return alive == 0xA11CE && shadow[0] == stamp && shadow[1] == stamp && shadow[2] == stamp; }
	void set(int64_t s)
	{
		shadow[0] = s;
		point(8);
		stamp = s;
		shadow[1] = s;
		point(8);
		shadow[2] = s;
	}
	bool operator==(const CellT& o) const { return stamp == o.stamp; }
};
// exclusive or shared presence in a callback
template<class Cell>
struct Inside
{
	const Cell& c;
	uint32_t w;
	Inside(const Cell& cell, bool exclusive)
	  : c(cell)
	  , w(exclusive ? 0x10000u : 1u)
	{
		uint32_t o = c.occ.fetch_add(w, std::memory_order_relaxed);
		if (exclusive ? o != 0 : o >= 0x10000u)
			bad(exclusive ? "exclusive callback runs with another callback on the same element" : "shared callback runs with an exclusive one on the same element");
		if (o)
			g_occ_seen.fetch_add(1, std::memory_order_relaxed);
		if (!c.consistent())
			bad("torn element seen in a callback");
		point(16);
	}
	~Inside()
	{
		if (!c.consistent())
			bad("torn element seen at the end of a callback");
		c.occ.fetch_sub(w, std::memory_order_relaxed);
	}
};

template<class T>
struct MtAlloc
{
	using value_type = T;
	MtAlloc() noexcept {}
	template<class U>
	MtAlloc(const MtAlloc<U>&) noexcept
	{
	}
	T* allocate(size_t n)
	{
		Noise& z = noise();
		point(8);
		if (z.fault >= 0 && z.fault-- == 0)
			throw std::bad_alloc();
		T* p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))));
		g_bytes.fetch_add(static_cast<int64_t>(n * sizeof(T)), std::memory_order_relaxed);
		return p;
	}
	void deallocate(T* p, size_t n) noexcept
	{
		g_bytes.fetch_sub(static_cast<int64_t>(n * sizeof(T)), std::memory_order_relaxed);
		::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
	}
	bool operator==(const MtAlloc&) const { return true; }
	bool operator!=(const MtAlloc&) const { return false; }
};

// hash qualities: 0 well mixed (avalanching), 1 constant, 2 library default for int, 3 few distinct buckets, 4 one shard but well mixed
template<int Q>
struct MtHash
{
	using is_avalanching = int;
	size_t operator()(int k) const
	{
		point();
		uint64_t h = mix(static_cast<uint64_t>(k), 99);
		if (Q == 1)
			return 42;
		if (Q == 3)
			return static_cast<size_t>(h & 0xFF00000000000003ull);
		if (Q == 4)
			return static_cast<size_t>(h & ~0x007F800000000000ull);
		return static_cast<size_t>(h);
	}
};
struct MtEq
{
	bool operator()(int a, int b) const
	{
		point();
		return a == b;
	}
};

enum Kind : uint8_t
{
	Ins,
	InsVisit,
	Assign,
	Visit,
	CVisit,
	Contains,
	Erase,
	EraseIf,
	Clear,
	VisitAll,
	EraseAllIf,
	NKinds
};
inline const char* kname(int k)
{
	static const char* n[] = { "insert", "insert_or_visit", "insert_or_assign", "visit", "cvisit", "contains", "erase", "erase_if", "clear", "visit_all", "erase_if(all)" };
	return n[k];
}
static constexpr int64_t Absent = INT64_MIN;
struct Ev
{
	uint64_t t0 = 0, t1 = 0;
	int key = 0;
	uint8_t kind = 0, thread = 0;
	bool res = false;     // returned true / found
	bool called = false;  // callback ran
	int64_t seen = 0, wrote = 0; // value read in the callback, value left (Absent: erased)
};
inline bool apply(const Ev& e, int64_t s, int64_t& out)
{
	out = s;
	bool abs = s == Absent;
	switch (e.kind) {
		case Ins:
			if (e.res != abs)
				return false;
			if (abs)
				out = e.wrote;
			return true;
		case InsVisit:
			if (e.res != abs || e.called == e.res)
				return false;
			if (abs)
				out = e.wrote;
			else {
				if (e.seen != s)
					return false;
				out = e.wrote;
			}
			return true;
		case Assign:
			if (e.res != abs)
				return false;
			out = e.wrote;
			return true;
		case Visit:
		case CVisit:
		case VisitAll:
			if (e.called == abs || e.res != e.called)
				return false;
			if (!abs) {
				if (e.seen != s)
					return false;
				out = e.wrote;
			}
			return true;
		case Contains:
			return e.res != abs;
		case Erase:
			if (e.res == abs)
				return false;
			out = Absent;
			return true;
		case EraseIf:
		case EraseAllIf:
			if (e.called == abs)
				return false;
			if (!abs) {
				if (e.seen != s || (e.wrote == Absent) != e.res)
					return false;
				out = e.wrote;
			}
			else if (e.res)
				return false;
			return true;
		case Clear:
			out = Absent;
			return true;
	}
	return false;
}
// Just-in-time linearization of the history of one key. Returns -1 when linearizable, or the index of the offending event.
inline int linearize(std::vector<Ev>& h, int64_t init, int64_t fin, size_t& configs, std::string& why)
{
	struct Pt
	{
		uint64_t t;
		int idx;
		bool end;
	};
	std::vector<Pt> pts;
	for (size_t i = 0; i < h.size(); ++i) {
		pts.push_back({ h[i].t0, static_cast<int>(i), false });
		pts.push_back({ h[i].t1, static_cast<int>(i), true });
	}
	std::sort(pts.begin(), pts.end(), [](const Pt& a, const Pt& b) { return a.t < b.t; });
	// a configuration: state and the set of open operations already linearized (at most one open operation per thread)
	std::vector<int> open(64, -1);
	std::set<std::pair<int64_t, uint64_t>> cur{ { init, 0 } };
	for (auto& p : pts) {
		Ev& e = h[static_cast<size_t>(p.idx)];
		uint64_t bit = 1ull << e.thread;
		if (!p.end) {
			open[e.thread] = p.idx;
			continue;
		}
		// expand every configuration until the returning operation is linearized
		std::set<std::pair<int64_t, uint64_t>> seen = cur, next;
		std::vector<std::pair<int64_t, uint64_t>> todo(cur.begin(), cur.end());
		while (!todo.empty()) {
			auto c = todo.back();
			todo.pop_back();
			if (c.second & bit) {
				next.insert({ c.first, c.second & ~bit });
				continue;
			}
			for (unsigned t = 0; t < 64; ++t) {
				if (open[t] < 0 || (c.second >> t & 1))
					continue;
				int64_t o;
				if (!apply(h[static_cast<size_t>(open[t])], c.first, o))
					continue;
				std::pair<int64_t, uint64_t> n{ o, c.second | 1ull << t };
				if (seen.insert(n).second)
					todo.push_back(n);
			}
		}
		configs += seen.size();
		open[e.thread] = -1;
		cur.swap(next);
		if (cur.empty())
			return p.idx;
	}
	for (auto& c : cur)
		if (c.first == fin)
			return -1;
	why = "no linearization ends in the final state of the key";
	return static_cast<int>(h.size()) - 1;
}

// ---------------------------------------------------------------------------------------------
struct Opt
{
	int keys = 6;        // contended keys
	int growth = 0;      // other keys inserted and erased per thread, to force rehashes
	unsigned threads = 4;
	unsigned ops = 40;
	unsigned wide = 8;   // percent of whole-table operations
	unsigned clears = 4; // percent of clear
	unsigned resize = 3; // percent of rehash/reserve
	unsigned faults = 0; // percent of operations run with an armed allocation failure
	bool fibers = false; // controlled schedule instead of real threads
};
struct Latch
{
	std::atomic<unsigned> n{ 0 };
	void wait(unsigned total)
	{
		n.fetch_add(1);
		while (n.load() < total)
			std::this_thread::yield();
	}
};

template<class Map_, class Cell_, bool IsMap>
struct World
{
	using Map = Map_;
	using Cell = Cell_;
	Ctx& ctx;
	Opt o;
	std::unique_ptr<Map> m;
	std::atomic<uint64_t> ticket{ 1 };
	std::vector<std::vector<Ev>> logs;
	std::vector<std::map<int, int>> grown; // growth keys each thread believes present
	std::vector<std::atomic<uint64_t>> beats;
	std::atomic<uint64_t> rehashes{ 0 }, failed{ 0 }, sizes{ 0 };
	World(Ctx& c, const Opt& op)
	  : ctx(c)
	  , o(op)
	  , logs(64)
	  , grown(64)
	  , beats(64)
	{
	}
	template<class V>
	static int key_of(V& v)
	{
		if constexpr (IsMap)
			return v.first;
		else
			return v.k;
	}
	template<class V>
	static Cell& cell_of(V& v)
	{
		if constexpr (IsMap)
			return const_cast<Cell&>(v.second);
		else
			return const_cast<Cell&>(v.cell);
	}
	static auto value(int k, int64_t s) { return typename Map::value_type(k, s); }
	uint64_t tick() { return ticket.fetch_add(1, std::memory_order_relaxed); }

	// every callback goes through one of these
	template<class V>
	void read(V& v, Ev& e, int key)
	{
		if (e.called)
			bad("callback ran twice for one operation");
		if (key_of(v) != key)
			bad("callback received another key");
		Cell& c = cell_of(v);
		Inside<Cell> in(c, false);
		e.called = true;
		e.seen = e.wrote = c.stamp;
	}
	template<class V>
	void write(V& v, Ev& e, int key, bool modify, int64_t s)
	{
		if (e.called)
			bad("callback ran twice for one operation");
		if (key_of(v) != key)
			bad("callback received another key");
		Cell& c = cell_of(v);
		Inside<Cell> in(c, true);
		e.called = true;
		e.seen = e.wrote = c.stamp;
		if (modify) {
			c.occ.fetch_add(0, std::memory_order_relaxed);
			c.set(s);
			e.wrote = s;
		}
	}

	void worker(unsigned t, uint64_t seed, unsigned rate, Latch& latch)
	{
		Rng r(seed);
		noise() = Noise{ seed, rate, -1 };
		auto& log = logs[t];
		log.reserve(o.ops * 3);
		Map& map = *m;
		const Map& cm = map;
		int64_t n = 0;
		if (!o.fibers)
			latch.wait(o.threads);
		for (unsigned i = 0; i < o.ops; ++i) {
			beats[t].fetch_add(1, std::memory_order_relaxed);
			if (o.fibers)
				fiber::S().progress();
			int64_t stamp = (static_cast<int64_t>(t) + 1) << 32 | ++n;
			int key = static_cast<int>(r.below(static_cast<size_t>(o.keys)));
			if (r.pct(30))
				key = key / 3; // skew
			bool armed = o.faults && r.pct(o.faults);
			if (armed)
				noise().fault = static_cast<int64_t>(r.below(3));
			Ev e;
			e.key = key;
			e.thread = static_cast<uint8_t>(t);
			bool logged = true;
			size_t mark = log.size();
			unsigned k = static_cast<unsigned>(r.below(100));
			unsigned lim = o.wide;
			e.t0 = tick();
			try {
				if (k < lim) { // whole table
					unsigned q = static_cast<unsigned>(r.below(100));
					if (q < o.clears * 10) {
						e.kind = Clear;
						map.clear();
						e.t1 = tick();
						for (int j = 0; j < o.keys; ++j) {
							Ev x = e;
							x.key = j;
							log.push_back(x);
						}
					}
					else if (q < 85) {
						unsigned how = static_cast<unsigned>(r.below(3)), mod = 2 + static_cast<unsigned>(r.below(3)), rem = static_cast<unsigned>(r.below(mod));
						std::vector<Ev> per(static_cast<size_t>(o.keys));
						std::set<int> others;
						e.kind = how == 2 ? EraseAllIf : VisitAll;
						for (int j = 0; j < o.keys; ++j) {
							per[static_cast<size_t>(j)] = e;
							per[static_cast<size_t>(j)].key = j;
						}
						auto seen_other = [&](int kk, Cell& c, bool ex) {
							if (!others.insert(kk).second)
								bad("a whole-table visit met a key twice");
							Inside<Cell> in(c, ex);
						};
						if (how == 0) {
							cm.visit_all([&](const auto& v) {
								int kk = key_of(v);
								if (kk < o.keys)
									read(v, per[static_cast<size_t>(kk)], kk);
								else
									seen_other(kk, cell_of(v), false);
							});
						}
						else if (how == 1) {
							map.visit_all([&](auto& v) {
								int kk = key_of(v);
								if (kk < o.keys)
									write(v, per[static_cast<size_t>(kk)], kk, static_cast<unsigned>(kk) % mod == rem, (static_cast<int64_t>(t) + 1) << 32 | ++n);
								else
									seen_other(kk, cell_of(v), true);
							});
						}
						else {
							map.erase_if([&](auto& v) {
								int kk = key_of(v);
								if (kk >= o.keys) {
									seen_other(kk, cell_of(v), true);
									return false;
								}
								Ev& x = per[static_cast<size_t>(kk)];
								write(v, x, kk, false, 0);
								if (static_cast<unsigned>(kk) % mod == rem) {
									x.wrote = Absent;
									x.res = true;
									return true;
								}
								return false;
							});
						}
						e.t1 = tick();
						for (auto& x : per) {
							x.t1 = e.t1;
							if (e.kind == VisitAll)
								x.res = x.called;
							log.push_back(x);
						}
					}
					else if (q < 92) { // size and load factor are always within what was ever inserted
						size_t s = map.size();
						float lf = map.load_factor();
						size_t limit = static_cast<size_t>(o.keys) + static_cast<size_t>(o.growth) * o.threads + o.threads;
						if (s > limit + o.threads * 4 || !(lf >= 0.f))
							bad("size or load factor out of range");
						sizes.fetch_add(1, std::memory_order_relaxed);
					}
					else { // a copy is a table of its own, with every key at most once
						Map copy(cm);
						e.kind = VisitAll;
						e.t1 = tick();
						std::vector<Ev> per(static_cast<size_t>(o.keys));
						for (int j = 0; j < o.keys; ++j) {
							per[static_cast<size_t>(j)] = e;
							per[static_cast<size_t>(j)].key = j;
						}
						size_t cnt = 0;
						copy.visit_all([&](const auto& v) {
							++cnt;
							int kk = key_of(v);
							if (kk < o.keys) {
								Ev& x = per[static_cast<size_t>(kk)];
								if (x.called)
									bad("a copy holds a key twice");
								x.called = x.res = true;
								x.seen = x.wrote = cell_of(v).stamp;
							}
						});
						if (cnt != copy.size())
							bad("a copy has a wrong size");
						for (auto& x : per)
							log.push_back(x);
					}
					logged = false;
				}
				else if (k < lim + o.resize) {
					unsigned q = static_cast<unsigned>(r.below(4));
					if (q == 0)
						map.rehash(1 + r.below(2000));
					else if (q == 1)
						map.reserve(r.below(3000));
					else if (q == 2)
						map.max_load_factor(0.3f + static_cast<float>(r.below(30)) / 10.f);
					else
						map.rehash(1);
					rehashes.fetch_add(1, std::memory_order_relaxed);
					logged = false;
				}
				else if (o.growth && k < lim + o.resize + 25) { // keys of this thread alone
					auto& g = grown[t];
					for (unsigned j = 0; j < 4; ++j) {
						int kk = 1000 + static_cast<int>(t) * 100000 + static_cast<int>(r.below(static_cast<size_t>(o.growth)));
						if (r.pct(70)) {
							bool res = map.insert(value(kk, kk));
							if (!o.clears || !o.wide)
								if (res == (g.count(kk) > 0))
									bad("key owned by one thread: wrong insert result");
							g[kk] = 1;
						}
						else if (r.coin()) {
							bool res = map.erase(kk) > 0;
							if (!o.clears || !o.wide)
								if (res != (g.count(kk) > 0))
									bad("key owned by one thread: wrong erase result");
							g.erase(kk);
						}
						else {
							bool res = map.contains(kk);
							if (!o.clears || !o.wide)
								if (res != (g.count(kk) > 0))
									bad("key owned by one thread: wrong lookup result");
							if (res && !g.count(kk))
								bad("key owned by one thread: found although erased");
						}
					}
					logged = false;
				}
				else {
					unsigned q = static_cast<unsigned>(r.below(100));
					bool mod = r.coin();
					if (q < 22) {
						e.kind = Ins;
						e.wrote = stamp;
						switch (r.below(3)) {
							case 0:
								e.res = map.insert(value(key, stamp));
								break;
							case 1:
								e.res = map.emplace(key, stamp);
								break;
							default:
								if constexpr (IsMap)
									e.res = map.try_emplace(key, stamp);
								else {
									auto v = value(key, stamp);
									e.res = map.insert(v);
								}
						}
					}
					else if (q < 38) {
						e.kind = InsVisit;
						unsigned how = static_cast<unsigned>(r.below(IsMap ? 4 : 3));
						auto f = [&](auto& v) { write(v, e, key, mod, stamp); };
						if (how == 0)
							e.res = map.insert_or_visit(value(key, stamp), f);
						else if (how == 1)
							e.res = map.emplace_or_visit(key, stamp, f);
						else if (how == 2) {
							e.res = map.insert_or_cvisit(value(key, stamp), [&](const auto& v) { read(v, e, key); });
						}
						else {
							if constexpr (IsMap)
								e.res = map.try_emplace_or_visit(key, stamp, f);
						}
						if (e.res)
							e.wrote = stamp;
					}
					else if (q < 46) {
						if constexpr (IsMap) {
							e.kind = Assign;
							e.wrote = stamp;
							e.res = map.insert_or_assign(key, Cell(stamp));
						}
						else {
							e.kind = Contains;
							e.res = map.contains(key);
						}
					}
					else if (q < 60) {
						e.kind = Visit;
						e.res = map.visit(key, [&](auto& v) { write(v, e, key, mod, stamp); }) > 0;
					}
					else if (q < 72) {
						e.kind = CVisit;
						if (mod)
							e.res = cm.visit(key, [&](const auto& v) { read(v, e, key); }) > 0;
						else
							e.res = cm.cvisit(key, [&](const auto& v) { read(v, e, key); }) > 0;
					}
					else if (q < 80) {
						e.kind = Contains;
						e.res = mod ? cm.contains(key) : cm.count(key) > 0;
					}
					else if (q < 92) {
						e.kind = Erase;
						e.res = map.erase(key) > 0;
					}
					else {
						e.kind = EraseIf;
						e.res = map.erase_if(key, [&](auto& v) {
							write(v, e, key, false, 0);
							if (mod)
								e.wrote = Absent;
							return mod;
						}) > 0;
					}
				}
			}
			catch (const std::bad_alloc&) {
				// no key operation that fails to allocate may have taken effect
				noise().fault = -1;
				failed.fetch_add(1, std::memory_order_relaxed);
				log.resize(mark);
				continue;
			}
			noise().fault = -1;
			if (logged) {
				e.t1 = tick();
				log.push_back(e);
			}
		}
		noise() = Noise();
		beats[t].fetch_add(1u << 30, std::memory_order_relaxed);
	}
	void run_threads()
	{
		Latch latch;
		fiber::g_atom_hook = nullptr;
		if (o.fibers) {
			std::vector<std::function<void()>> fns;
			for (unsigned t = 0; t < o.threads; ++t) {
				uint64_t seed = ctx.rng.next();
				beats[t] = 0;
				fns.push_back([this, t, seed, &latch]() { worker(t, seed, 0, latch); });
			}
			bool ok = fiber::S().run(fns, ctx.rng.next());
			if (const char* b = g_bad.load())
				ctx.fail("occupancy", "%s", b);
			if (!ok) {
				std::string d;
				for (unsigned t = 0; t < o.threads; ++t)
					d += " " + std::to_string(beats[t].load() & 0x3FFFFFFF) + (beats[t].load() >> 30 ? "(done)" : fiber::S().f[t]->blocked ? "(blocked)" : "");
				ctx.fail("no-progress", "no operation can finish; operations started per fiber:%s", d.c_str());
			}
			MON_COUNT("scheduling_points", fiber::S().points);
			MON_COUNT("context_switches", fiber::S().switches);
			ctx.state(fiber::S().digest);
			return;
		}
		fiber::g_atom_hook = &atom_point;
		std::vector<std::thread> th;
		unsigned rate = static_cast<unsigned>(ctx.rng.below(3) == 0 ? 0 : ctx.rng.below(60));
		std::atomic<unsigned> done{ 0 };
		for (unsigned t = 0; t < o.threads; ++t) {
			uint64_t seed = ctx.rng.next();
			beats[t] = 0;
			th.emplace_back([this, t, seed, rate, &latch, &done]() {
				worker(t, seed, rate, latch);
				done.fetch_add(1);
			});
		}
		uint64_t last = ~0ull, wait = 0;
		while (done.load() < o.threads) {
			usleep(wait < 20 ? 50 : 500);
			++wait;
			uint64_t s = 0;
			for (unsigned t = 0; t < o.threads; ++t)
				s += beats[t].load(std::memory_order_relaxed);
			if (s != last) {
				last = s;
				wait = 0;
			}
			else if (wait > 90000) { // at least 45 seconds without any thread finishing one operation
				std::string d;
				for (unsigned t = 0; t < o.threads; ++t)
					d += " " + std::to_string(beats[t].load() & 0x3FFFFFFF) + (beats[t].load() >> 30 ? "(done)" : "");
				ctx.fail("no-progress", "no operation finished for 45 s; operations started per thread:%s", d.c_str());
			}
			if ((wait & 255) == 255)
				__atomic_fetch_add(&G().crumb->beat, 1, __ATOMIC_RELAXED);
		}
		for (auto& x : th)
			x.join();
		if (const char* b = g_bad.load())
			ctx.fail("occupancy", "%s", b);
	}
	// quiescent: content by a full visit, by lookups, by size, and the registry must agree
	std::map<int, int64_t> quiescent()
	{
		std::map<int, int64_t> content;
		size_t n = 0;
		m->cvisit_all([&](const auto& v) {
			++n;
			ctx.check(content.emplace(key_of(v), cell_of(v).stamp).second, "duplicate-key", "key %d is stored twice", key_of(v));
			ctx.check(cell_of(v).consistent(), "torn-value", "key %d", key_of(v));
		});
		ctx.check(n == m->size(), "size-at-quiescence", "size %zu, %zu elements visited", (size_t)m->size(), n);
		int64_t cells = g_cells.load();
		ctx.check(cells == static_cast<int64_t>(n), "live-elements", "%lld live elements, %zu stored", (long long)cells, n);
		for (auto& p : content) {
			int64_t s = 0;
			size_t c = m->cvisit(p.first, [&](const auto& v) { s = cell_of(v).stamp; });
			ctx.check(c == 1 && s == p.second, "lookup-at-quiescence", "key %d: %zu %lld, visited with %lld", p.first, c, (long long)s, (long long)p.second);
		}
		for (int k = 0; k < o.keys; ++k)
			ctx.check(m->contains(k) == (content.count(k) > 0), "lookup-at-quiescence", "key %d", k);
		return content;
	}
	void run(bool plain)
	{
		g_bad = nullptr;
		g_cells = 0;
		g_bytes = 0;
		g_occ_seen = 0;
		m.reset(new Map());
		std::map<int, int64_t> init;
		if (ctx.rng.coin())
			for (int k = 0; k < o.keys; ++k)
				if (ctx.rng.coin()) {
					m->insert(value(k, 7 + k));
					init[k] = 7 + k;
				}
		if (ctx.rng.pct(20))
			m->reserve(ctx.rng.below(5000));
		if (ctx.rng.pct(15)) { // a table that has locks but no bucket
			m->reserve(3000);
			m->clear();
			init.clear();
		}
		run_threads();
		auto fin = quiescent();
		// growth keys: each belongs to one thread, whose own view is the truth unless the table was cleared
		if (o.growth) {
			bool cleared = o.clears && o.wide;
			for (unsigned t = 0; t < o.threads; ++t)
				for (auto& p : grown[t])
					if (!cleared)
						ctx.check(fin.count(p.first), "lost-element", "key %d inserted by thread %u is gone", p.first, t);
			for (auto& p : fin)
				if (p.first >= 1000)
					ctx.check(grown[static_cast<size_t>((p.first - 1000) / 100000)].count(p.first), "resurrected-element", "key %d erased by its only writer is still stored", p.first);
			MON_COUNT("growth_keys_checked", fin.size());
		}
		// history
		std::vector<Ev> all;
		for (unsigned t = 0; t < o.threads; ++t)
			all.insert(all.end(), logs[t].begin(), logs[t].end());
		std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.t0 < b.t0 || (a.t0 == b.t0 && a.key < b.key); });
		uint64_t overlaps = 0, maxt1 = 0;
		for (auto& e : all) {
			ctx.op(kname(e.kind), (int)e.thread, e.key, e.res);
			if (G().trace)
				fprintf(stderr, "      [%llu,%llu] seen %lld wrote %lld called %d\n", (unsigned long long)e.t0, (unsigned long long)e.t1, (long long)e.seen, (long long)e.wrote, (int)e.called);
			overlaps += e.t0 < maxt1;
			maxt1 = std::max(maxt1, e.t1);
		}
		MON_COUNT("events_recorded", all.size());
		MON_COUNT("events_overlapping_another", overlaps);
		MON_COUNT("callbacks_meeting_another_in_element", static_cast<uint64_t>(g_occ_seen.load()));
		MON_COUNT("resize_operations", rehashes.load());
		MON_COUNT("allocation_failures_survived", failed.load());
		ctx.state(ctx.dig);
		if (!plain) {
			size_t configs = 0;
			for (int k = 0; k < o.keys; ++k) {
				std::vector<Ev> h;
				for (auto& e : all)
					if (e.key == k)
						h.push_back(e);
				std::string why;
				int b = linearize(h, init.count(k) ? init[k] : Absent, fin.count(k) ? fin[k] : Absent, configs, why);
				MON_COUNT("key_histories_judged", 1);
				if (b >= 0) {
					Ev& e = h[static_cast<size_t>(b)];
					std::string ctxs;
					for (size_t i = 0; i < h.size() && ctxs.size() < 700; ++i)
						if (h[i].t1 + 60 >= e.t0 && h[i].t0 <= e.t1) {
							char bb[160];
							snprintf(bb, sizeof(bb), " {T%d %s [%llu,%llu] res=%d called=%d seen=%lld wrote=%lld}", h[i].thread, kname(h[i].kind), (unsigned long long)h[i].t0, (unsigned long long)h[i].t1, h[i].res, h[i].called,
								 (long long)h[i].seen, (long long)h[i].wrote);
							ctxs += bb;
						}
					ctx.fail("not-linearizable", "key %d: no order explains thread %d %s [%llu,%llu] %s; around it:%s", k, e.thread, kname(e.kind), (unsigned long long)e.t0, (unsigned long long)e.t1, why.c_str(), ctxs.c_str());
				}
			}
			MON_COUNT("checker_configurations", configs);
		}
		m.reset();
		ctx.check(g_cells.load() == 0, "elements-after-destruction", "%lld elements outlive the table", (long long)g_cells.load());
		ctx.check(g_bytes.load() == 0, "memory-after-destruction", "%lld bytes outlive the table", (long long)g_bytes.load());
		if (const char* b = g_bad.load())
			ctx.fail("occupancy", "%s", b);
	}
};

template<class Cell>
struct SetVal
{
	int k;
	mutable Cell cell;
	SetVal(int kk = 0, int64_t s = 0)
	  : k(kk)
	  , cell(s)
	{
	}
	bool operator==(const SetVal& o) const { return k == o.k; }
};
template<int Q>
struct SetHash
{
	using is_avalanching = int;
	using is_transparent = int;
	size_t operator()(int k) const { return MtHash<Q>()(k); }
	template<class C>
	size_t operator()(const SetVal<C>& v) const
	{
		return MtHash<Q>()(v.k);
	}
};
struct SetEqual
{
	using is_transparent = int;
	template<class C>
	static int key(const SetVal<C>& v)
	{
		return v.k;
	}
	static int key(int k) { return k; }
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		point();
		return key(a) == key(b);
	}
};
template<unsigned Shards, int Q, bool NothrowMove = true, bool Plain = false>
using MapW = World<seq::concurrent_map<int, CellT<NothrowMove, Plain>, MtHash<Q>, MtEq, MtAlloc<std::pair<int, CellT<NothrowMove, Plain>>>, Shards>, CellT<NothrowMove, Plain>, true>;
template<unsigned Shards, int Q, bool NothrowMove = true, bool Plain = false>
using SetW = World<seq::concurrent_set<SetVal<CellT<NothrowMove, Plain>>, SetHash<Q>, SetEqual, MtAlloc<SetVal<CellT<NothrowMove, Plain>>>, Shards>, CellT<NothrowMove, Plain>, false>;
}
