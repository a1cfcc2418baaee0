// C30: bit level helpers against naive loops.
#include "mon.hpp"
#include <seq/bits.hpp>
#include <seq/tagged_pointer.hpp>
#include <seq/type_traits.hpp>
#include <memory>
#include <set>
using namespace mon;

static uint64_t rnd_word(Rng& r)
{
	switch (r.below(7)) {
		case 0: return uint64_t(1) << r.below(64);
		case 1: return (uint64_t(1) << r.below(64)) - 1;
		case 2: return ~uint64_t(0) << r.below(64);
		case 3: return (uint64_t(1) << r.below(64)) | (uint64_t(1) << r.below(64));
		case 4: { // around powers of ten
			uint64_t p = 1;
			for (size_t k = r.below(20); k; --k)
				p *= 10;
			return p + r.below(3) - 1;
		}
		case 5: return r.next() >> r.below(64);
		default: return r.next();
	}
}
static unsigned n_pop(uint64_t x)
{
	unsigned n = 0;
	for (int i = 0; i < 64; ++i)
		n += (x >> i) & 1;
	return n;
}
static unsigned n_low(uint64_t x)
{
	for (unsigned i = 0; i < 64; ++i)
		if ((x >> i) & 1)
			return i;
	return 64;
}
static unsigned n_high(uint64_t x)
{
	for (unsigned i = 64; i-- > 0;)
		if ((x >> i) & 1)
			return i;
	return 64;
}
template<class T>
static T n_reverse(T v)
{
	using U = typename std::make_unsigned<T>::type;
	U u = static_cast<U>(v), r = 0;
	for (size_t i = 0; i < sizeof(T) * 8; ++i)
		if ((u >> i) & 1)
			r = static_cast<U>(r | (U(1) << (sizeof(T) * 8 - 1 - i)));
	return static_cast<T>(r);
}
template<size_t N>
static unsigned n_consecutive(uint64_t x)
{
	for (unsigned i = 0; i + N <= 64; ++i) {
		bool ok = true;
		for (unsigned j = 0; j < N; ++j)
			ok = ok && ((x >> (i + j)) & 1);
		if (ok)
			return i;
	}
	return static_cast<unsigned>(-1);
}
#define EQ(expr, ref)                                                                                                                                                                                  \
	do {                                                                                                                                                                                           \
		auto a__ = (expr);                                                                                                                                                                     \
		auto b__ = (ref);                                                                                                                                                                      \
		c.check(a__ == b__, #expr, "%s is %llu instead of %llu for x=0x%llx", #expr, (unsigned long long)a__, (unsigned long long)b__, (unsigned long long)x);                                \
		MON_COUNT("comparisons", 1);                                                                                                                                                           \
	} while (0)
template<class T>
static void digits(Ctx& c, uint64_t x)
{
	T v = static_cast<T>(x);
	unsigned d = 1;
	for (uint64_t t = v; t >= 10; t /= 10)
		++d;
	EQ(seq::count_digits_base_10(v), d);
}
template<class T>
static void sign(Ctx& c, uint64_t x)
{
	using U = typename std::make_unsigned<T>::type;
	T v = static_cast<T>(x);
	U n = static_cast<U>(U(0) - static_cast<U>(v));
	EQ(static_cast<U>(seq::negate_if_signed(v)), std::is_signed<T>::value ? n : static_cast<U>(v));
	EQ(static_cast<U>(seq::abs(v)), v < 0 ? n : static_cast<U>(v));
}
static void words_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 16; ++k) {
		const uint64_t x = rnd_word(r);
		const uint32_t w = static_cast<uint32_t>(x >> (r.coin() ? 32 : 0));
		const uint16_t h = static_cast<uint16_t>(x);
		const uint8_t b = static_cast<uint8_t>(x);
		c.op("word", x);
		EQ(seq::popcnt64(x), n_pop(x));
		EQ(seq::popcnt32(w), n_pop(w));
		EQ(seq::popcnt16(h), n_pop(h));
		EQ(seq::popcnt8(b), n_pop(b));
		EQ(seq::detail::popcount64(x), n_pop(x)); // portable versions
		EQ(seq::detail::popcount32(w), n_pop(w));
		if (x) {
			EQ(seq::bit_scan_forward_64(x), n_low(x));
			EQ(seq::bit_scan_reverse_64(x), n_high(x));
			EQ(seq::bit_scan_forward(x), n_low(x));
			EQ(seq::bit_scan_reverse(x), n_high(x));
		}
		if (w) {
			EQ(seq::bit_scan_forward_32(w), n_low(w));
			EQ(seq::bit_scan_reverse_32(w), n_high(w));
		}
		if (b) {
			EQ(seq::bit_scan_forward_8(b), n_low(b));
			EQ(seq::bit_scan_reverse_8(b), n_high(b));
		}
		unsigned n = static_cast<unsigned>(r.below(64)), pos = 64, seen = 0;
		for (unsigned i = 0; i < 64; ++i)
			if (((x >> i) & 1) && seen++ == n) {
				pos = i;
				break;
			}
		EQ(seq::nth_bit_set(x, n), pos);
		EQ(seq::detail::generic_nth_bit_set(x, n), pos);
		EQ(seq::consecutive_N_bits<1>(x), n_consecutive<1>(x));
		EQ(seq::consecutive_N_bits<2>(x), n_consecutive<2>(x));
		EQ(seq::consecutive_N_bits<3>(x), n_consecutive<3>(x));
		EQ(seq::consecutive_N_bits<7>(x), n_consecutive<7>(x));
		EQ(seq::consecutive_N_bits<32>(x), n_consecutive<32>(x));
		EQ(seq::consecutive_N_bits<64>(x), n_consecutive<64>(x));
		uint64_t sw = 0;
		for (int i = 0; i < 8; ++i)
			sw |= ((x >> (8 * i)) & 0xff) << (56 - 8 * i);
		EQ(seq::byte_swap_64(x), sw);
		EQ(seq::byte_swap_32(w), static_cast<uint32_t>((w >> 24) | ((w >> 8) & 0xff00) | ((w << 8) & 0xff0000) | (w << 24)));
		EQ(seq::byte_swap_16(h), static_cast<uint16_t>((h >> 8) | (h << 8)));
		EQ(seq::reverse_bits(x), n_reverse(x));
		EQ(seq::reverse_bits(w), n_reverse(w));
		EQ(seq::reverse_bits(h), n_reverse(h));
		EQ(seq::reverse_bits(b), n_reverse(b));
		EQ(seq::reverse_bits(static_cast<int64_t>(x)), n_reverse(static_cast<int64_t>(x)));
		EQ(seq::reverse_bits(static_cast<int>(w)), n_reverse(static_cast<int>(w)));
		EQ(seq::reverse_bits(static_cast<short>(h)), n_reverse(static_cast<short>(h)));
		EQ(seq::reverse_bits(static_cast<signed char>(b)), n_reverse(static_cast<signed char>(b)));
		digits<uint64_t>(c, x);
		digits<unsigned long long>(c, x);
		digits<uint32_t>(c, w);
		digits<uint16_t>(c, h);
		digits<uint8_t>(c, b);
		sign<int64_t>(c, x);
		sign<int>(c, w);
		sign<short>(c, h);
		sign<signed char>(c, b);
		sign<uint64_t>(c, x);
		sign<unsigned>(c, w);
		// 64x64 -> 128 by pieces of 16 bits
		const uint64_t y = rnd_word(r);
		uint64_t limb[8] = {};
		for (int i = 0; i < 4; ++i)
			for (int j = 0; j < 4; ++j) {
				uint64_t p = ((x >> (16 * i)) & 0xffff) * ((y >> (16 * j)) & 0xffff);
				limb[i + j] += p & 0xffff;
				limb[i + j + 1] += p >> 16;
			}
		for (int i = 0; i < 7; ++i) {
			limb[i + 1] += limb[i] >> 16;
			limb[i] &= 0xffff;
		}
		uint64_t lo = 0, hi = 0;
		seq::umul128(x, y, &lo, &hi);
		EQ(lo, limb[0] | limb[1] << 16 | limb[2] << 32 | limb[3] << 48);
		EQ(hi, limb[4] | limb[5] << 16 | limb[6] << 32 | limb[7] << 48);
		c.state(mix(n_pop(x), mix(n_low(x), n_high(x))));
	}
}
// All 8 and 16 bits inputs
static void small_case(Ctx& c)
{
	uint64_t base = (c.id & 255) << 8;
	for (uint64_t x = base; x < base + 256; ++x) {
		const uint16_t h = static_cast<uint16_t>(x);
		const uint8_t b = static_cast<uint8_t>(x);
		EQ(seq::popcnt16(h), n_pop(h));
		EQ(seq::popcnt8(b), n_pop(b));
		EQ(seq::reverse_bits(h), n_reverse(h));
		EQ(seq::reverse_bits(b), n_reverse(b));
		EQ(seq::byte_swap_16(h), static_cast<uint16_t>((h >> 8) | (h << 8)));
		digits<uint16_t>(c, x);
		digits<uint8_t>(c, x);
		digits<uint32_t>(c, x);
		sign<short>(c, x);
		sign<signed char>(c, x);
		if (b) {
			EQ(seq::bit_scan_forward_8(b), n_low(b));
			EQ(seq::bit_scan_reverse_8(b), n_high(b));
		}
		if (h) {
			EQ(seq::bit_scan_forward_32(h), n_low(h));
			EQ(seq::bit_scan_reverse_32(h), n_high(h));
		}
		c.op("exhaustive", x);
		c.state(x);
	}
}
// Unaligned reads and writes of exactly the named bytes
static void memory_case(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 8; ++k) {
		const uint64_t x = rnd_word(r);
		size_t off = r.below(9);
		c.op("memory", x, off);
		auto rd = [&](size_t n, auto fn, bool big, const char* name) {
			std::unique_ptr<unsigned char[]> b(new unsigned char[off + n]); // ends with the value
			for (size_t i = 0; i < off + n; ++i)
				b[i] = static_cast<unsigned char>(r.next());
			uint64_t ref = 0;
			for (size_t i = 0; i < n; ++i)
				ref |= static_cast<uint64_t>(b[off + i]) << (8 * (big ? n - 1 - i : i));
			uint64_t got = fn(b.get() + off);
			c.check(got == ref, name, "%s at offset %zu: 0x%llx instead of 0x%llx", name, off, (unsigned long long)got, (unsigned long long)ref);
			MON_COUNT("reads", 1);
		};
		rd(2, [](void* p) { return seq::read_LE_16(p); }, false, "read_LE_16");
		rd(4, [](void* p) { return seq::read_LE_32(p); }, false, "read_LE_32");
		rd(8, [](void* p) { return seq::read_LE_64(p); }, false, "read_LE_64");
		rd(2, [](void* p) { return seq::read_BE_16(p); }, true, "read_BE_16");
		rd(4, [](void* p) { return seq::read_BE_32(p); }, true, "read_BE_32");
		rd(8, [](void* p) { return seq::read_BE_64(p); }, true, "read_BE_64");
		rd(8, [](void* p) { return seq::read_LE_size_t(p); }, false, "read_LE_size_t");
		rd(8, [](void* p) { return seq::read_BE_size_t(p); }, true, "read_BE_size_t");
		rd(2, [](void* p) { return seq::read_16(p); }, false, "read_16"); // little endian host
		rd(4, [](void* p) { return seq::read_32(p); }, false, "read_32");
		rd(8, [](void* p) { return seq::read_64(p); }, false, "read_64");
		rd(8, [](void* p) { return seq::read_size_t(p); }, false, "read_size_t");
		rd(8, [](void* p) { return uint64_t(seq::read_ptr_t(p)); }, false, "read_ptr_t");
		auto wr = [&](size_t n, auto fn, bool big, const char* name) {
			std::unique_ptr<unsigned char[]> b(new unsigned char[off + n]), e(new unsigned char[off + n]);
			for (size_t i = 0; i < off + n; ++i)
				e[i] = b[i] = static_cast<unsigned char>(r.next());
			for (size_t i = 0; i < n; ++i)
				e[off + i] = static_cast<unsigned char>(x >> (8 * (big ? n - 1 - i : i)));
			fn(b.get() + off);
			c.check(memcmp(b.get(), e.get(), off + n) == 0, name, "%s at offset %zu wrote other bytes for 0x%llx", name, off, (unsigned long long)x);
			MON_COUNT("writes", 1);
		};
		wr(2, [&](void* p) { seq::write_LE_16(p, static_cast<uint16_t>(x)); }, false, "write_LE_16");
		wr(4, [&](void* p) { seq::write_LE_32(p, static_cast<uint32_t>(x)); }, false, "write_LE_32");
		wr(8, [&](void* p) { seq::write_LE_64(p, x); }, false, "write_LE_64");
		wr(8, [&](void* p) { seq::write_BE_64(p, x); }, true, "write_BE_64");
		wr(8, [&](void* p) { seq::write_size_t(p, x); }, false, "write_size_t");
		// aligned allocations
		size_t al = size_t(16) << r.below(6), sz = r.below(300);
		auto mem = [&](void* p, const char* name) {
			c.check(p != nullptr && reinterpret_cast<uintptr_t>(p) % al == 0, name, "%s(%zu, %zu) returned %p", name, sz, al, p);
			memset(p, 7, sz);
			MON_COUNT("aligned_blocks", 1);
		};
		void* p = seq::aligned_malloc(sz, al);
		mem(p, "aligned_malloc");
		void* q = seq::detail::handmade_aligned_malloc(sz, al);
		mem(q, "handmade_aligned_malloc");
		seq::aligned_free(p);
		seq::detail::handmade_aligned_free(q);
		c.check(seq::detail::handmade_aligned_malloc(SIZE_MAX - r.below(20), al) == nullptr, "handmade_aligned_malloc", "a block of nearly SIZE_MAX bytes was allocated");
		seq::aligned_free(nullptr);
		seq::detail::handmade_aligned_free(nullptr);
		c.state(mix(off, mix(al, sz)));
	}
}
template<class T, seq::TagPointerType Ty, size_t Al>
static void tagged(Ctx& c, T* a, T* b, const char* name)
{
	Rng& r = c.rng;
	using P = seq::tagged_pointer<T, Ty, Al>;
	const uintptr_t nt = uintptr_t(1) << P::tag_bits;
	c.check(P::mask_low == nt - 1 && P::mask_high == ~(nt - 1), "masks", "%s: masks", name);
	uintptr_t tag = r.below(nt);
	T* ptr = r.coin() ? a : nullptr;
	P p(ptr, tag);
	auto ok = [&](const char* w) {
		const P& cp = p;
		c.check(p.ptr() == ptr && cp.ptr() == ptr && p.tag() == tag && cp.tag() == tag, "tagged_pointer", "%s after %s: pointer or tag changed", name, w);
		c.check(p.split().first == ptr && p.split().second == tag && static_cast<T*>(p) == ptr, "tagged_pointer", "%s after %s: split or conversion", name, w);
		c.check(p.full() == (reinterpret_cast<uintptr_t>(ptr) | tag), "tagged_pointer", "%s after %s: full()", name, w);
		c.op(name, hstr(w), tag, ptr != nullptr);
		c.state(mix(hstr(name), mix(tag, ptr != nullptr)));
		MON_COUNT("tagged_pointer_steps", 1);
	};
	ok("construction");
	P d;
	c.check(d.ptr() == nullptr && d.tag() == 0, "tagged_pointer", "%s: default value", name);
	for (int k = 0; k < 6; ++k) {
		switch (r.below(5)) {
			case 0:
				tag = r.below(nt);
				p.set_tag(tag);
				ok("set_tag");
				break;
			case 1:
				ptr = r.coin() ? b : r.coin() ? a : nullptr;
				p.set_ptr(ptr);
				ok("set_ptr");
				break;
			case 2:
				ptr = r.coin() ? b : nullptr;
				tag = r.below(nt);
				p.set(ptr, tag);
				ok("set");
				break;
			case 3: {
				P o(p);
				p = P();
				p.set_full(o.full());
				ok("set_full");
				break;
			}
			default:
				p = P(ptr, tag);
				ok("assignment");
		}
	}
}
static void tagged_case(Ctx& c)
{
	static int i[4];
	static int64_t l[2];
	static short s[2];
	static char ch[2];
	alignas(64) static char big[2][64];
	tagged<int, seq::StackPointer, 0>(c, i, i + 1, "int*");
	tagged<int64_t, seq::StackPointer, 0>(c, l, l + 1, "int64_t*");
	tagged<short, seq::StackPointer, 0>(c, s, s + 1, "short*");
	tagged<char, seq::StackPointer, 0>(c, ch, ch + 1, "char*");
	tagged<char, seq::CustomAlignment, 64>(c, big[0], big[1], "char* aligned 64");
	std::unique_ptr<int> h1(new int), h2(new int);
	tagged<int, seq::HeapPointer, 0>(c, h1.get(), h2.get(), "heap int*");
	tagged<void, seq::HeapPointer, 0>(c, h1.get(), h2.get(), "heap void*");
	tagged<void, seq::CustomAlignment, 64>(c, big[0], big[1], "void* aligned 64");
}
static void static_case(Ctx& c)
{
	const uint64_t x = 0;
	EQ(seq::static_bit_scan_reverse<1>::value, 0u);
	EQ(seq::static_bit_scan_reverse<2>::value, 1u);
	EQ(seq::static_bit_scan_reverse<3>::value, 1u);
	EQ(seq::static_bit_scan_reverse<4>::value, 2u);
	EQ(seq::static_bit_scan_reverse<255>::value, 7u);
	EQ(seq::static_bit_scan_reverse<256>::value, 8u);
	EQ(seq::static_bit_scan_reverse<(1ull << 63)>::value, 63u);
	EQ(seq::static_bit_scan_reverse<(1ull << 63) - 1>::value, 62u);
	// pseudo random numbers: deterministic per seed, no short cycle, all bits move
	seq::fast_rand a(c.id + 1), b(c.id + 1);
	std::set<unsigned> seen;
	unsigned ones = 0, zeros = 0;
	for (int k = 0; k < 1000; ++k) {
		unsigned v = a();
		c.check(v == b(), "fast_rand", "two generators of the same seed differ");
		seen.insert(v);
		ones |= v;
		zeros |= ~v;
	}
	c.check(seen.size() > 900 && ones == ~0u && zeros == ~0u, "fast_rand", "only %zu distinct numbers of 1000 for seed %llu", seen.size(), (unsigned long long)c.id + 1);
	c.op("static", c.id);
	c.op("static", ones);
	c.op("static", zeros);
	c.op("static", seen.size());
}
static Reg a0("C30/words", 20000, 600000, &words_case);
static Reg a1("C30/small", 256, 256, &small_case);
static Reg a2("C30/memory", 8000, 200000, &memory_case);
static Reg a3("C30/tagged", 6000, 100000, &tagged_case);
static Reg a4("C30/static", 100, 3000, &static_case);
