// Common monitoring runtime: deterministic cases, breadcrumbs, violation reports, coverage counters,
// instrumented element types and a ledger allocator.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define MON_ASAN 1
#endif
#ifdef __SANITIZE_THREAD__
#define MON_TSAN 1
#endif
#ifdef MON_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif

namespace mon {

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 1)
	  : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull)
	{
		next();
	}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform in [0,n), 0 if n == 0
	size_t below(size_t n) { return n ? static_cast<size_t>((static_cast<unsigned __int128>(next()) * n) >> 64) : 0; }
	// uniform in [a,b]
	int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<size_t>(b - a) + 1)); }
	bool pct(unsigned p) { return below(100) < p; }
	bool coin() { return next() >> 63; }
	using result_type = uint64_t;
	static constexpr uint64_t min() { return 0; }
	static constexpr uint64_t max() { return ~0ull; }
	uint64_t operator()() { return next(); }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t z = (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)));
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline uint64_t hstr(const char* s)
{
	uint64_t h = 14695981039346656037ull;
	for (; *s; ++s)
		h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
	return h;
}

// ---------------------------------------------------------------------------------------------
// Shared breadcrumb page, read by the driver when the process dies or stalls
struct Crumb
{
	char family[128];
	uint64_t case_id;
	uint64_t step;
	uint64_t beat;
	char op[128];
};
struct Globals
{
	Crumb* crumb = nullptr;
	bool trace = false;
	int tier = 0;
	uint64_t seed = 1;
	uint64_t evaluations = 0;
	uint64_t ops = 0;
	static constexpr size_t Bits = size_t(1) << 20;
	uint64_t* cases = nullptr;  // bitmap of distinct non trivial case digests
	uint64_t* states = nullptr; // bitmap of distinct abstract states observed
	struct Counter
	{
		const char* name;
		std::atomic<uint64_t> n;
	};
	Counter counters[256];
	std::atomic<size_t> ncounters{ 0 };
	char samples[4][512];
	size_t nsamples = 0;
};
inline Globals& G()
{
	static Globals g;
	return g;
}
inline std::atomic<uint64_t>& counter(const char* name)
{
	Globals& g = G();
	size_t n = g.ncounters.load();
	for (size_t i = 0; i < n; ++i)
		if (g.counters[i].name == name || !strcmp(g.counters[i].name, name))
			return g.counters[i].n;
	static std::mutex m;
	std::lock_guard<std::mutex> l(m);
	n = g.ncounters.load();
	for (size_t i = 0; i < n; ++i)
		if (!strcmp(g.counters[i].name, name))
			return g.counters[i].n;
	if (n == 256)
		abort();
	g.counters[n].name = name;
	g.counters[n].n = 0;
	g.ncounters = n + 1;
	return g.counters[n].n;
}
#define MON_COUNT(name, k)                                                                                                                                                                             \
	do {                                                                                                                                                                                           \
		static std::atomic<uint64_t>& mon_c__ = ::mon::counter(name);                                                                                                                          \
		mon_c__.fetch_add(k, std::memory_order_relaxed);                                                                                                                                       \
	} while (0)

inline void set_bit(uint64_t* map, uint64_t h)
{
	h &= Globals::Bits - 1;
	if (map)
		__atomic_fetch_or(&map[h >> 6], 1ull << (h & 63), __ATOMIC_RELAXED);
}

struct Ctx
{
	Rng rng;
	const char* family;
	uint64_t id;
	uint64_t dig = 0;
	uint64_t nops = 0;

	Ctx(const char* f, uint64_t i)
	  : rng(mix(mix(G().seed, hstr(f)), i))
	  , family(f)
	  , id(i)
	{
	}
	int tier() const { return G().tier; }
	bool tracing() const { return G().trace; }
	void vtrace(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		if (!G().trace)
			return;
		va_list ap;
		va_start(ap, fmt);
		fputs("  TRACE ", stderr);
		vfprintf(stderr, fmt, ap);
		fputc('\n', stderr);
		va_end(ap);
	}
	static uint64_t ih(bool v) { return v; }
	template<class T>
	static typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value, uint64_t>::type ih(T v)
	{
		return static_cast<uint64_t>(v);
	}
	static uint64_t ih(const std::string& s) { return hstr(s.c_str()); }
	static uint64_t ih(double d)
	{
		uint64_t u;
		memcpy(&u, &d, 8);
		return u;
	}
	static void pr(const std::string& s)
	{
		fputs(" \"", stderr);
		for (unsigned char ch : s.substr(0, 200)) {
			if (ch < 32 || ch > 126 || ch == '"' || ch == '\\')
				fprintf(stderr, "\\x%02x", ch);
			else
				fputc(ch, stderr);
		}
		fputc('"', stderr);
	}
	static void pr(double d) { fprintf(stderr, " %.17g", d); }
	template<class T>
	static typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type pr(T v)
	{
		fprintf(stderr, " %lld", static_cast<long long>(v));
	}
	// record one operation of the history
	template<class... A>
	void op(const char* name, const A&... a)
	{
		++nops;
		uint64_t h = reinterpret_cast<uintptr_t>(name) * 31;
		h = hstr(name);
		int dummy[] = { 0, (h = mix(h, ih(a)), 0)... };
		(void)dummy;
		dig = mix(dig, h);
		Crumb* cr = G().crumb;
		cr->step = nops;
		strncpy(cr->op, name, sizeof(cr->op) - 1);
		if (G().trace) {
			fprintf(stderr, "  OP %llu %s", (unsigned long long)nops, name);
			int d2[] = { 0, (pr(a), 0)... };
			(void)d2;
			fputc('\n', stderr);
		}
	}
	void state(uint64_t h) { set_bit(G().states, mix(h, 77)); }
	[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
	{
		va_list ap;
		va_start(ap, fmt);
		char buf[1024];
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		fflush(stdout);
		fprintf(stderr, "\nMON-VIOLATION family=%s key=%s case=%llu step=%llu after=%s :: %s\n", family, key, (unsigned long long)id, (unsigned long long)G().crumb->step, G().crumb->op, buf);
		fflush(stderr);
		_exit(77);
	}
	void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)))
	{
		if (__builtin_expect(ok, 1))
			return;
		va_list ap;
		va_start(ap, fmt);
		char buf[1024];
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		fail(key, "%s", buf);
	}
	// optional sample text for the evidence file
	void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		Globals& g = G();
		if (g.nsamples >= 4)
			return;
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(g.samples[g.nsamples++], 512, fmt, ap);
		va_end(ap);
	}
};

using CaseFn = std::function<void(Ctx&)>;
struct Family
{
	const char* name;
	uint64_t nquick, nthorough;
	void (*fn)(Ctx&);
	unsigned flags;
};
enum
{
	NoLeakCheck = 1, // threads or intentionally static data: skip heap balance
};
inline std::vector<Family>& families()
{
	static std::vector<Family> f;
	return f;
}
struct Reg
{
	Reg(const char* name, uint64_t nq, uint64_t nt, void (*fn)(Ctx&), unsigned flags = 0) { families().push_back({ name, nq, nt, fn, flags }); }
};
#define FAMILY(ident, name, nq, nt, ...)                                                                                                                                                               \
	static void ident(mon::Ctx&);                                                                                                                                                                  \
	static mon::Reg mon_reg_##ident(name, nq, nt, ident, ##__VA_ARGS__);                                                                                                                           \
	static void ident(mon::Ctx& c)

// ---------------------------------------------------------------------------------------------
// Fault injection: throws at the n-th opportunity
struct Injected : std::exception
{
	const char* what() const noexcept override { return "injected"; }
};
struct Fault
{
	static int64_t& countdown()
	{
		static int64_t c = -1;
		return c;
	}
	static uint64_t& points()
	{
		static uint64_t c = 0;
		return c;
	}
	// which operations may throw
	static unsigned& mask()
	{
		static unsigned m = 0;
		return m;
	}
	enum
	{
		Ctor = 1,
		Copy = 2,
		Move = 4,
		Assign = 8,
		MoveAssign = 16,
		Compare = 32,
		Hash = 64,
		AllocF = 128,
		User = 256,
	};
	static void point(unsigned kind)
	{
		if (!(mask() & kind))
			return;
		++points();
		if (countdown() > 0 && --countdown() == 0) {
			countdown() = -1;
			throw Injected();
		}
	}
	static void arm(int64_t n, unsigned m)
	{
		countdown() = n;
		mask() = m;
		points() = 0;
	}
	static void disarm()
	{
		countdown() = -1;
		mask() = 0;
	}
};

// ---------------------------------------------------------------------------------------------
// Element registry
struct Live
{
	static constexpr size_t Cap = 1 << 22;
	static std::vector<uint8_t>& flags()
	{
		static std::vector<uint8_t> f;
		return f;
	}
	static int64_t& count()
	{
		static int64_t c = 0;
		return c;
	}
	static std::vector<uint32_t>& freed()
	{
		static std::vector<uint32_t> f;
		return f;
	}
	// counts of element operations (complexity monitors)
	struct Counts
	{
		uint64_t ctor = 0, copy = 0, move = 0, cassign = 0, massign = 0, dtor = 0, cmp = 0, hash = 0;
	};
	static Counts& counts()
	{
		static Counts c;
		return c;
	}
	static uint32_t acquire()
	{
		auto& f = flags();
		if (f.size() == 0)
			f.push_back(0);
		f.push_back(1);
		++count();
		return static_cast<uint32_t>(f.size() - 1);
	}
	static void reset()
	{
		flags().clear();
		flags().shrink_to_fit();
		count() = 0;
		counts() = Counts();
	}
};
[[noreturn]] inline void element_violation(const char* what, const void* p, uint32_t id, int64_t v)
{
	Crumb* cr = G().crumb;
	fprintf(stderr, "\nMON-VIOLATION family=%s key=element-%s case=%llu step=%llu after=%s :: element at %p id %u value %lld\n", cr->family, what, (unsigned long long)cr->case_id, (unsigned long long)cr->step, cr->op, p, id, (long long)v);
	fflush(stderr);
#ifdef MON_ASAN
	extern void print_stack();
	print_stack();
#endif
	_exit(77);
}

enum : int64_t
{
	MovedFrom = INT64_MIN + 5
};

// Tracked element. Reloc: may be relocated by byte copy. NoThrowMove: move operations are noexcept.
template<bool Reloc, bool NoThrowMove = true, bool Copyable = true>
struct Trk
{
	uint32_t id;
	uint32_t magic;
	int64_t v;
	const void* self;

	static constexpr uint32_t Magic = 0xA11CE5u;

	void check() const
	{
		if (magic != Magic)
			element_violation("destroyed-or-garbage", this, id, v);
		if (id >= Live::flags().size() || !Live::flags()[id])
			element_violation("dead-id", this, id, v);
		if (!Reloc && self != this)
			element_violation("byte-moved", this, id, v);
	}
	void init(int64_t x)
	{
		id = Live::acquire();
		magic = Magic;
		v = x;
		self = this;
	}
	Trk()
	{
		Fault::point(Fault::Ctor);
		++Live::counts().ctor;
		init(0);
	}
	Trk(int64_t x)
	{
		Fault::point(Fault::Ctor);
		++Live::counts().ctor;
		init(x);
	}
	Trk(const Trk& o)
	{
		static_assert(Copyable, "");
		o.check();
		Fault::point(Fault::Copy);
		++Live::counts().copy;
		if (o.v == MovedFrom)
			element_violation("copy-of-moved-from", &o, o.id, o.v);
		init(o.v);
	}
	Trk(Trk&& o) noexcept(NoThrowMove)
	{
		o.check();
		if (!NoThrowMove)
			Fault::point(Fault::Move);
		++Live::counts().move;
		int64_t x = o.v;
		o.v = MovedFrom;
		init(x);
	}
	Trk& operator=(const Trk& o)
	{
		static_assert(Copyable, "");
		check();
		o.check();
		Fault::point(Fault::Assign);
		++Live::counts().cassign;
		if (o.v == MovedFrom)
			element_violation("copy-of-moved-from", &o, o.id, o.v);
		v = o.v;
		return *this;
	}
	Trk& operator=(Trk&& o) noexcept(NoThrowMove)
	{
		check();
		o.check();
		if (!NoThrowMove)
			Fault::point(Fault::MoveAssign);
		++Live::counts().massign;
		if (&o != this) {
			v = o.v;
			o.v = MovedFrom;
		}
		return *this;
	}
	~Trk()
	{
		check();
		++Live::counts().dtor;
		Live::flags()[id] = 0;
		--Live::count();
		magic = 0xDEADDEADu;
	}
	int64_t get() const
	{
		check();
		if (v == MovedFrom)
			element_violation("moved-from-read", this, id, v);
		return v;
	}
	friend bool operator==(const Trk& a, const Trk& b)
	{
		int64_t x = a.get(), y = b.get();
		Fault::point(Fault::Compare);
		++Live::counts().cmp;
		return x == y;
	}
	friend bool operator!=(const Trk& a, const Trk& b) { return !(a == b); }
	friend bool operator<(const Trk& a, const Trk& b)
	{
		int64_t x = a.get(), y = b.get();
		Fault::point(Fault::Compare);
		++Live::counts().cmp;
		return x < y;
	}
	friend bool operator>(const Trk& a, const Trk& b) { return b < a; }
	friend bool operator<=(const Trk& a, const Trk& b) { return !(b < a); }
	friend bool operator>=(const Trk& a, const Trk& b) { return !(a < b); }
};
// Move only variant
template<bool Reloc>
struct TrkMO : Trk<Reloc, true, true>
{
	using B = Trk<Reloc, true, true>;
	TrkMO() = default;
	TrkMO(int64_t x)
	  : B(x)
	{
	}
	TrkMO(TrkMO&&) = default;
	TrkMO& operator=(TrkMO&&) = default;
	TrkMO(const TrkMO&) = delete;
	TrkMO& operator=(const TrkMO&) = delete;
};
using TNoReloc = Trk<false, true>;
using TReloc = Trk<true, true>;
using TThrow = Trk<false, false>;   // throwing moves
using TRelocThrow = Trk<true, false>;

// uniform value access
inline int64_t val(int64_t v) { return v; }
inline int64_t val(int v) { return v; }
inline int64_t val(unsigned v) { return v; }
inline int64_t val(uint64_t v) { return static_cast<int64_t>(v); }
template<bool A, bool B, bool C>
int64_t val(const Trk<A, B, C>& t)
{
	return t.get();
}
inline std::string key_string(int64_t x);
inline int64_t val(const std::string& s)
{
	// strings made by key_string
	size_t p = s.rfind('#');
	return p == std::string::npos ? INT64_MIN : strtoll(s.c_str() + p + 1, nullptr, 10);
}
// strings of variable length (around SSO limits) denoting x
inline std::string key_string(int64_t x)
{
	static const unsigned lens[] = { 0, 3, 9, 12, 20, 30, 45 };
	uint64_t h = mix(static_cast<uint64_t>(x), 12345);
	return std::string(lens[h % 7], static_cast<char>('a' + (h >> 8) % 3)) + "#" + std::to_string(x);
}

template<class T>
struct Make
{
	static T make(int64_t x) { return T(x); }
};
template<>
struct Make<std::string>
{
	static std::string make(int64_t x) { return key_string(x); }
};
template<>
struct Make<int>
{
	static int make(int64_t x) { return static_cast<int>(x); }
};
template<>
struct Make<std::unique_ptr<int64_t>>
{
	static std::unique_ptr<int64_t> make(int64_t x) { return std::unique_ptr<int64_t>(new int64_t(x)); }
};
inline int64_t val(const std::unique_ptr<int64_t>& p) { return *p; }

// ---------------------------------------------------------------------------------------------
// Ledger allocator
struct Arena
{
	int64_t bytes = 0;
	int64_t peak = 0;
	int64_t blocks = 0;
	int64_t total = 0; // cumulated bytes
	int64_t biggest = 0;
};
struct Ledger
{
	static constexpr int Max = 64;
	static std::array<Arena, Max>& arenas()
	{
		static std::array<Arena, Max> a;
		return a;
	}
	static int64_t live()
	{
		int64_t n = 0;
		for (auto& a : arenas())
			n += a.blocks;
		return n;
	}
	static void reset()
	{
		for (auto& a : arenas())
			a = Arena();
	}
	[[noreturn]] static void bad(const char* what, const void* p, int64_t a, int64_t b)
	{
		Crumb* cr = G().crumb;
		fprintf(stderr, "\nMON-VIOLATION family=%s key=alloc-%s case=%llu step=%llu after=%s :: block %p recorded %lld used %lld\n", cr->family, what, (unsigned long long)cr->case_id, (unsigned long long)cr->step, cr->op, p, (long long)a, (long long)b);
		fflush(stderr);
#ifdef MON_ASAN
		extern void print_stack();
		print_stack();
#endif
		_exit(77);
	}
};
struct BlockHdr
{
	uint64_t magic;
	int64_t arena;
	int64_t bytes;
	uint64_t align;
};
inline std::mutex& ledger_mutex()
{
	static std::mutex m;
	return m;
}
inline void* ledger_alloc(size_t bytes, size_t al, int arena)
{
	Fault::point(Fault::AllocF);
	size_t hdr = std::max(sizeof(BlockHdr), al);
	size_t a = std::max(al, size_t(16));
	char* p = static_cast<char*>(::operator new(bytes + hdr, std::align_val_t(a)));
	BlockHdr h{ 0xB10CB10CB10Cull, arena, static_cast<int64_t>(bytes), al };
	memcpy(p + hdr - sizeof(BlockHdr), &h, sizeof(h));
#ifdef MON_ASAN
	__asan_poison_memory_region(p, hdr);
#endif
	{
		std::lock_guard<std::mutex> l(ledger_mutex());
		Arena& ar = Ledger::arenas()[arena];
		ar.bytes += bytes;
		ar.total += bytes;
		ar.biggest = std::max(ar.biggest, static_cast<int64_t>(bytes));
		ar.peak = std::max(ar.peak, ar.bytes);
		++ar.blocks;
	}
	return p + hdr;
}
inline void ledger_free(void* q, size_t bytes, size_t al, int arena)
{
	size_t hdr = std::max(sizeof(BlockHdr), al);
	size_t a = std::max(al, size_t(16));
	char* p = static_cast<char*>(q) - hdr;
#ifdef MON_ASAN
	__asan_unpoison_memory_region(p, hdr);
#endif
	BlockHdr h;
	memcpy(&h, p + hdr - sizeof(BlockHdr), sizeof(h));
	if (h.magic != 0xB10CB10CB10Cull)
		Ledger::bad("bad-free", q, 0, 0);
	if (h.arena != arena)
		Ledger::bad("wrong-allocator", q, h.arena, arena);
	if (h.bytes != static_cast<int64_t>(bytes))
		Ledger::bad("wrong-size", q, h.bytes, bytes);
	h.magic = 0;
	memcpy(p + hdr - sizeof(BlockHdr), &h, sizeof(h));
	{
		std::lock_guard<std::mutex> l(ledger_mutex());
		Arena& ar = Ledger::arenas()[arena];
		ar.bytes -= bytes;
		--ar.blocks;
	}
	::operator delete(p, std::align_val_t(a));
}
// Prop: bit 0 POCCA, bit 1 POCMA, bit 2 POCS
template<class T, unsigned Prop = 0>
struct LAlloc
{
	using value_type = T;
	using propagate_on_container_copy_assignment = std::integral_constant<bool, (Prop & 1) != 0>;
	using propagate_on_container_move_assignment = std::integral_constant<bool, (Prop & 2) != 0>;
	using propagate_on_container_swap = std::integral_constant<bool, (Prop & 4) != 0>;
	using is_always_equal = std::false_type;
	template<class U>
	struct rebind
	{
		using other = LAlloc<U, Prop>;
	};
	int arena = 0;
	LAlloc() noexcept = default;
	explicit LAlloc(int a) noexcept
	  : arena(a)
	{
	}
	LAlloc(const LAlloc&) noexcept = default;
	LAlloc& operator=(const LAlloc&) noexcept = default;
	template<class U>
	LAlloc(const LAlloc<U, Prop>& o) noexcept
	  : arena(o.arena)
	{
	}
	T* allocate(size_t n) { return static_cast<T*>(ledger_alloc(n * sizeof(T), alignof(T), arena)); }
	void deallocate(T* p, size_t n) { ledger_free(p, n * sizeof(T), alignof(T), arena); }
	LAlloc select_on_container_copy_construction() const { return LAlloc((Prop & 8) ? 0 : arena); }
	template<class U>
	bool operator==(const LAlloc<U, Prop>& o) const noexcept
	{
		return arena == o.arena;
	}
	template<class U>
	bool operator!=(const LAlloc<U, Prop>& o) const noexcept
	{
		return arena != o.arena;
	}
};

// End-of-case balance of registry and ledger
inline void balance(Ctx& c, int64_t live0 = 0, int64_t blocks0 = 0)
{
	c.check(Live::count() == live0, "element-leak", "live elements %lld expected %lld", (long long)Live::count(), (long long)live0);
	c.check(Ledger::live() == blocks0, "alloc-leak", "live blocks %lld expected %lld", (long long)Ledger::live(), (long long)blocks0);
}

} // namespace mon

// The library's own trait: which tracked types it may relocate by byte copy
namespace seq {
	template<class T>
	struct is_relocatable;
	template<bool B, bool C>
	struct is_relocatable<mon::Trk<true, B, C>>
	{
		static constexpr bool value = true;
	};
	template<bool R>
	struct is_relocatable<mon::TrkMO<R>>
	{
		static constexpr bool value = R;
	};
}
