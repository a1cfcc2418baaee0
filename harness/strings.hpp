// C18: tiny_string / tstring_view against std::basic_string / std::basic_string_view.
// The same generic lambda is applied to the model and to the subject: the outcome (value, out_of_range,
// length_error) and the resulting content must agree.
#pragma once
#include "mon.hpp"
#include <seq/tiny_string.hpp>
#include <deque>
#include <list>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
namespace strs {
using namespace mon;

template<class A>
struct IsL : std::false_type
{
};
template<class T, unsigned P>
struct IsL<LAlloc<T, P>> : std::true_type
{
	static constexpr unsigned prop = P;
};

// single pass iterator over a shared cursor
template<class C>
struct InIt
{
	using iterator_category = std::input_iterator_tag;
	using value_type = C;
	using difference_type = std::ptrdiff_t;
	using pointer = const C*;
	using reference = C;
	const C* const* cur = nullptr;
	const C* stop = nullptr;
	bool end = true;
	InIt() {}
	InIt(const C** p, const C* e)
	  : cur(p)
	  , stop(e)
	  , end(false)
	{
	}
	bool done() const { return end || *cur == stop; }
	C operator*() const { return **cur; }
	InIt& operator++()
	{
		++*const_cast<const C**>(cur);
		return *this;
	}
	InIt operator++(int)
	{
		InIt t = *this;
		++*this;
		return t;
	}
	bool operator==(const InIt& o) const { return done() == o.done(); }
	bool operator!=(const InIt& o) const { return done() != o.done(); }
};

template<class C>
std::string show(const std::basic_string<C>& s)
{
	std::string r;
	char b[16];
	for (C c : s) {
		long long v = static_cast<long long>(c);
		if (v > 32 && v < 127)
			r += static_cast<char>(v);
		else {
			snprintf(b, sizeof b, "<%llx>", static_cast<unsigned long long>(v) & 0xffffffffull);
			r += b;
		}
		if (r.size() > 200)
			return r + "...";
	}
	return r;
}

template<class C>
C rchar(Rng& r)
{
	switch (r.below(12)) {
		case 0: return static_cast<C>(0);
		case 1: return static_cast<C>(0x7f);
		case 2: return static_cast<C>(0x80);
		case 3: return sizeof(C) == 1 ? static_cast<C>(0xff) : static_cast<C>(0xfffe);
		case 4: return static_cast<C>(sizeof(C) == 1 ? 'e' : 'e' + 256);
		default: return static_cast<C>('a' + r.below(3));
	}
}
inline size_t rlen(Rng& r, size_t sso)
{
	switch (r.below(10)) {
		case 0: return 0;
		case 1: return 1;
		case 2: return sso - 1 + r.below(4);
		case 3: return 2 * sso - 1 + r.below(4);
		case 4: return r.below(200);
		case 5: {
			size_t p = size_t(1) << r.range(3, 8);
			return p - 2 + r.below(5);
		}
		default: return r.below(24);
	}
}
template<class C>
std::basic_string<C> rstr(Rng& r, size_t n, bool nul = true)
{
	std::basic_string<C> s(n, C('a'));
	bool mono = r.pct(20);
	for (auto& c : s) {
		c = mono ? C('a') : rchar<C>(r);
		if (!nul && c == 0)
			c = C('b');
	}
	return s;
}
// a heap block of exactly n characters
template<class C>
struct Buf
{
	std::unique_ptr<C[]> p;
	size_t n;
	Buf(const std::basic_string<C>& s, bool zero = false)
	  : p(new C[s.size() + zero])
	  , n(s.size())
	{
		for (size_t i = 0; i < n; ++i)
			p[i] = s[i];
		if (zero)
			p[n] = 0;
	}
};

enum Out
{
	OK,
	RANGE,
	LENGTH,
	ALLOC,
	OTHER
};
template<class R>
struct Res
{
	Out o = OK;
	R v{};
};
template<class F, class X, class Y>
auto call(F& f, X& x, Y& y) -> Res<long long>
{
	Res<long long> r;
	try {
		if constexpr (std::is_void_v<decltype(f(x, y))>)
			f(x, y);
		else
			r.v = static_cast<long long>(f(x, y));
	}
	catch (const std::out_of_range&) {
		r.o = RANGE;
	}
	catch (const std::length_error&) {
		r.o = LENGTH;
	}
	catch (const std::bad_alloc&) {
		r.o = ALLOC;
	}
	catch (const Injected&) {
		r.o = ALLOC;
	}
	return r;
}
inline int sg(int v) { return v < 0 ? -1 : v > 0; }

// ---- const queries, results appended to a vector; used for strings and views
struct Q
{
	std::vector<long long> v;
	template<class F>
	void add(F f)
	{
		try {
			v.push_back(static_cast<long long>(f()));
		}
		catch (const std::out_of_range&) {
			v.push_back(-7777);
		}
	}
};
static const char* const QN[] = { "find(str)", "find(str,pos)", "rfind(str)", "rfind(str,pos)", "find(ptr)", "find(ptr,pos)", "rfind(ptr)", "rfind(ptr,pos)", "find_first_of(ptr)", "find_first_of(ptr,pos)",
				  "find_last_of(ptr)", "find_last_of(ptr,pos)", "find_first_not_of(ptr)", "find_first_not_of(ptr,pos)", "find_last_not_of(ptr)", "find_last_not_of(ptr,pos)", "find(ptr,pos,n)", "rfind(ptr,pos,n)",
				  "find_first_of(ptr,pos,n)", "find_last_of(ptr,pos,n)", "find_first_not_of(ptr,pos,n)", "find_last_not_of(ptr,pos,n)", "find(c,pos)", "rfind(c,pos)", "find_first_of(c,pos)", "find_last_of(c,pos)",
				  "find_first_not_of(c,pos)", "find_last_not_of(c,pos)", "find(c)", "rfind(c)", "find_last_not_of(c)", "compare(str)", "compare(pos,len,str)", "compare(ptr)", "compare(pos,len,ptr)",
				  "compare(pos,len,ptr,n)", "at(pos)", "copy", "substr", "substr(pos)" };
// str: any string type; z: null terminated; buf,n: counted
template<class X, class S, class C>
void queries(Q& q, const X& x, const S& str, const C* z, const C* buf, size_t n, size_t pos, size_t len, C ch)
{
	q.add([&] { return x.find(str); });
	q.add([&] { return x.find(str, pos); });
	q.add([&] { return x.rfind(str); });
	q.add([&] { return x.rfind(str, pos); });
	q.add([&] { return x.find(z); });
	q.add([&] { return x.find(z, pos); });
	q.add([&] { return x.rfind(z); });
	q.add([&] { return x.rfind(z, pos); });
	q.add([&] { return x.find_first_of(z); });
	q.add([&] { return x.find_first_of(z, pos); });
	q.add([&] { return x.find_last_of(z); });
	q.add([&] { return x.find_last_of(z, pos); });
	q.add([&] { return x.find_first_not_of(z); });
	q.add([&] { return x.find_first_not_of(z, pos); });
	q.add([&] { return x.find_last_not_of(z); });
	q.add([&] { return x.find_last_not_of(z, pos); });
	q.add([&] { return x.find(buf, pos, n); });
	q.add([&] { return x.rfind(buf, pos, n); });
	q.add([&] { return x.find_first_of(buf, pos, n); });
	q.add([&] { return x.find_last_of(buf, pos, n); });
	q.add([&] { return x.find_first_not_of(buf, pos, n); });
	q.add([&] { return x.find_last_not_of(buf, pos, n); });
	q.add([&] { return x.find(ch, pos); });
	q.add([&] { return x.rfind(ch, pos); });
	q.add([&] { return x.find_first_of(ch, pos); });
	q.add([&] { return x.find_last_of(ch, pos); });
	q.add([&] { return x.find_first_not_of(ch, pos); });
	q.add([&] { return x.find_last_not_of(ch, pos); });
	q.add([&] { return x.find(ch); });
	q.add([&] { return x.rfind(ch); });
	q.add([&] { return x.find_last_not_of(ch); });
	q.add([&] { return sg(x.compare(str)); });
	q.add([&] { return sg(x.compare(pos, len, str)); });
	q.add([&] { return sg(x.compare(z)); });
	q.add([&] { return sg(x.compare(pos, len, z)); });
	q.add([&] { return sg(x.compare(pos, len, buf, n)); });
	q.add([&] { return x.at(pos); });
	q.add([&] {
		// copy writes exactly the characters it reports
		size_t room = pos <= x.size() ? std::min(len, x.size() - pos) : 0;
		std::unique_ptr<C[]> b(new C[room + 1]);
		b[room] = C('#');
		size_t r = x.copy(b.get(), len, pos);
		uint64_t h = r;
		for (size_t i = 0; i <= room; ++i)
			h = mix(h, static_cast<uint64_t>(b[i]));
		return h;
	});
	q.add([&] {
		auto s = x.substr(pos, len);
		uint64_t h = s.size();
		for (auto c : s)
			h = mix(h, static_cast<uint64_t>(c));
		return h;
	});
	q.add([&] {
		auto s = x.substr(pos);
		uint64_t h = s.size();
		for (auto c : s)
			h = mix(h, static_cast<uint64_t>(c));
		return h;
	});
}
// find_*_of with a string object, for the kinds where the library provides them
template<class X, class S>
void queries_of(Q& q, const X& x, const S& str, size_t pos)
{
	q.add([&] { return x.find_first_of(str); });
	q.add([&] { return x.find_first_of(str, pos); });
	q.add([&] { return x.find_last_of(str); });
	q.add([&] { return x.find_last_of(str, pos); });
	q.add([&] { return x.find_first_not_of(str); });
	q.add([&] { return x.find_first_not_of(str, pos); });
	q.add([&] { return x.find_last_not_of(str); });
	q.add([&] { return x.find_last_not_of(str, pos); });
}
template<class C>
size_t naive_count(const std::basic_string<C>& s, const std::basic_string<C>& n, size_t start)
{
	size_t r = 0;
	while ((start = s.find(n, start)) != s.npos) {
		++r;
		start += n.size();
	}
	return r;
}
template<class C>
size_t naive_replace(std::basic_string<C>& s, const std::basic_string<C>& f, const std::basic_string<C>& t, size_t start)
{
	size_t r = 0;
	while ((start = s.find(f, start)) != s.npos) {
		s.replace(start, f.size(), t);
		start += t.size();
		++r;
	}
	return r;
}

inline void cmpq(Ctx& c, const Q& a, const Q& b, const char* kind, size_t off)
{
	c.check(a.v.size() == b.v.size(), "query-count", "%zu %zu", a.v.size(), b.v.size());
	for (size_t i = 0; i < a.v.size(); ++i)
		c.check(a.v[i] == b.v[i], "query", "%s with %s: expected %lld got %lld", off ? "find_*_of(str)" : QN[i], kind, a.v[i], b.v[i]);
	MON_COUNT("string queries compared", a.v.size());
}

enum Flags
{
	Faults = 1
};

template<class C, class A, size_t S>
struct Hist
{
	using M = std::basic_string<C>;
	using T = seq::tiny_string<C, std::char_traits<C>, A, S>;
	using T2 = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, (S == 0 ? 15 : 0)>;
	using V = std::basic_string_view<C>;
	using TV = seq::tiny_string<C, std::char_traits<C>, seq::view_allocator<C>, 0>;
	static constexpr size_t SSO = T::max_static_size;
	static constexpr int N = 3;
	static constexpr bool L = IsL<A>::value;

	Ctx& c;
	Rng& r;
	unsigned flags;
	M m[N];
	int arena[N] = { 0, 0, 0 };
	alignas(T) unsigned char raw[N][sizeof(T)];
	bool live[N] = { false, false, false };

	Hist(Ctx& cc, unsigned f)
	  : c(cc)
	  , r(cc.rng)
	  , flags(f)
	{
	}
	T& t(int i) { return *reinterpret_cast<T*>(raw[i]); }
	void kill(int i)
	{
		if (live[i])
			t(i).~T();
		live[i] = false;
	}
	~Hist()
	{
		for (int i = 0; i < N; ++i)
			kill(i);
	}
	A al(int a)
	{
		if constexpr (L)
			return A(a);
		else
			return (void)a, A();
	}
	template<class F>
	void make(const char* name, int i, int ar, F f)
	{
		kill(i);
		memset(raw[i], r.coin() ? 0xa5 : 0x61, sizeof(T));
		c.op(name, i, ar);
		f(raw[i]);
		live[i] = true;
		arena[i] = ar;
		verify(i);
	}
	void verify(int i)
	{
		const T& x = t(i);
		const M& y = m[i];
		c.check(x.size() == y.size() && x.length() == y.size(), "size", "expected %zu got %zu", y.size(), x.size());
		c.check(x.empty() == y.empty(), "empty", "");
		for (size_t k = 0; k < y.size(); ++k)
			c.check(x.data()[k] == y[k], "content", "position %zu of %zu: expected %s got %s", k, y.size(), show(M(y, k, 40)).c_str(), show(M(x.data() + k, std::min<size_t>(40, x.size() - k))).c_str());
		c.check(x.c_str() == x.data() && x.c_str()[x.size()] == C(0), "null-terminated", "size %zu", x.size());
		c.check(x.capacity() >= x.size(), "capacity", "capacity %zu size %zu", x.capacity(), x.size());
		c.check(size_t(x.end() - x.begin()) == y.size() && x.begin() == x.data() && x.cend() == x.end(), "iterators", "");
		if constexpr (L)
			c.check(x.get_allocator().arena == arena[i], "allocator", "allocator %d expected %d", x.get_allocator().arena, arena[i]);
		c.state(mix(mix(y.size(), x.capacity() / 8), size_t(reinterpret_cast<const unsigned char*>(x.data()) - raw[i]) < sizeof(T)));
		MON_COUNT("string states compared", 1);
	}
	// f(x,y): x is the string operated on, y another one of the same kind (or the same)
	template<class F>
	void both(const char* name, int i, int j, F f)
	{
		c.op(name, i, j, m[i].size(), m[j].size());
		M before = (flags & Faults) ? m[i] : M();
		M beforej = (flags & Faults) ? m[j] : M();
		auto a = call(f, m[i], m[j]);
		if (flags & Faults)
			if (r.pct(50))
				Fault::arm(1 + int64_t(r.below(3)), ~0u);
		auto b = call(f, t(i), t(j));
		bool fired = false;
		if (flags & Faults) {
			fired = b.o == ALLOC;
			Fault::disarm();
		}
		if (fired) {
			MON_COUNT("string allocation failures survived", 1);
			m[i] = before;
			m[j] = beforej;
			verify(i);
			if (i != j)
				verify(j);
			return;
		}
		c.check(a.o == b.o, "outcome", "expected outcome %d got %d (0 ok 1 out_of_range 2 length_error 3 bad_alloc)", a.o, b.o);
		c.check(a.v == b.v, "result", "expected %lld got %lld", a.v, b.v);
		verify(i);
		if (i != j)
			verify(j);
	}
	size_t rpos(size_t n)
	{
		switch (r.below(14)) {
			case 0: return 0;
			case 1: return n;
			case 2: return n + 1 + r.below(3);
			case 3: return r.coin() ? size_t(-1) : size_t(-2);
			default: return r.below(n + 1);
		}
	}
	size_t rcount(size_t n)
	{
		switch (r.below(10)) {
			case 0: return 0;
			case 1: return size_t(-1);
			case 2: return n;
			case 3: return size_t(-1) - r.below(5);
			case 4: return n + r.below(20);
			default: return r.below(n + 1);
		}
	}
	M arg(bool nul = true) { return rstr<C>(r, r.pct(60) ? r.below(12) : rlen(r, SSO), nul); }

	// ---- constructions
	void construct(int i)
	{
		int ar = L ? int(r.below(3)) : 0;
		int d = ar;
		M s = arg();
		switch (r.below(17)) {
			case 0:
				m[i] = M();
				make("ctor()", i, 0, [&](void* p) { new (p) T(); });
				break;
			case 1:
				m[i] = M();
				make("ctor(al)", i, d, [&](void* p) { new (p) T(al(ar)); });
				break;
			case 2: {
				s = arg(false);
				Buf<C> b(s, true);
				m[i] = s;
				make("ctor(z)", i, d, [&](void* p) { new (p) T(b.p.get(), al(ar)); });
				break;
			}
			case 3: {
				Buf<C> b(s);
				m[i] = s;
				make("ctor(ptr,n)", i, d, [&](void* p) { new (p) T(b.p.get(), b.n, al(ar)); });
				break;
			}
			case 4: {
				C ch = rchar<C>(r);
				size_t n = rlen(r, SSO);
				m[i] = M(n, ch);
				make("ctor(n,c)", i, d, [&](void* p) { new (p) T(n, ch, al(ar)); });
				break;
			}
			case 5:
				m[i] = s;
				make("ctor(std)", i, d, [&](void* p) { new (p) T(s, al(ar)); });
				break;
			case 6:
				m[i] = s;
				make("ctor(view)", i, d, [&](void* p) { new (p) T(V(s), al(ar)); });
				break;
			case 7: {
				int j = other(i);
				m[i] = m[j];
				int na = arena[j];
				if constexpr (L)
					na = t(j).get_allocator().select_on_container_copy_construction().arena;
				make("ctor(copy)", i, na, [&](void* p) { new (p) T(t(j)); });
				verify(j);
				break;
			}
			case 8: {
				int j = other(i);
				m[i] = m[j];
				make("ctor(copy,al)", i, d, [&](void* p) { new (p) T(t(j), al(ar)); });
				verify(j);
				break;
			}
			case 9: {
				T2 o(s);
				m[i] = s;
				make("ctor(other capacity)", i, 0, [&](void* p) { new (p) T(o); });
				break;
			}
			case 10: {
				int j = other(i);
				size_t pos = rpos(m[j].size()), len = rcount(m[j].size());
				if (pos > m[j].size()) {
					c.op("ctor(other,pos,len) bad", j, pos, len);
					bool thrown = false;
					try {
						T x(t(j), pos, len, al(ar));
					}
					catch (const std::out_of_range&) {
						thrown = true;
					}
					c.check(thrown, "outcome", "constructor from position %zu of %zu did not throw out_of_range", pos, m[j].size());
					break;
				}
				m[i] = M(m[j], pos, len);
				make("ctor(other,pos,len)", i, d, [&](void* p) { new (p) T(t(j), pos, len, al(ar)); });
				break;
			}
			case 11: {
				int j = other(i);
				size_t pos = r.below(m[j].size() + 1);
				m[i] = M(m[j], pos);
				make("ctor(other,pos)", i, d, [&](void* p) { new (p) T(t(j), pos, al(ar)); });
				break;
			}
			case 12: {
				int j = other(i);
				m[i] = m[j];
				int na = arena[j];
				make("ctor(move)", i, na, [&](void* p) { new (p) T(std::move(t(j))); });
				settle_moved(j);
				break;
			}
			case 13: {
				int j = other(i);
				m[i] = m[j];
				make("ctor(move,al)", i, d, [&](void* p) { new (p) T(std::move(t(j)), al(ar)); });
				settle_moved(j);
				break;
			}
			case 14: {
				std::list<C> l(s.begin(), s.end());
				m[i] = s;
				make("ctor(list)", i, d, [&](void* p) { new (p) T(l.begin(), l.end(), al(ar)); });
				break;
			}
			case 15: {
				std::deque<C> l(s.begin(), s.end());
				m[i] = s;
				if (r.coin())
					make("ctor(deque)", i, d, [&](void* p) { new (p) T(l.begin(), l.end(), al(ar)); });
				else {
					const C* cur = s.data();
					make("ctor(input)", i, d, [&](void* p) { new (p) T(InIt<C>(&cur, s.data() + s.size()), InIt<C>(), al(ar)); });
				}
				break;
			}
			default:
				m[i] = M({ C('x'), C(0), C('z') });
				make("ctor(il)", i, d, [&](void* p) { new (p) T({ C('x'), C(0), C('z') }, al(ar)); });
				break;
		}
	}
	int other(int i)
	{
		int j = (i + 1 + int(r.below(N - 1))) % N;
		if (!live[j]) {
			m[j] = M(3, C('q'));
			make("ctor(aux)", j, 0, [&](void* p) { new (p) T(3, C('q'), al(0)); });
		}
		return j;
	}
	// a moved-from string: any valid content; adopt it
	void settle_moved(int j)
	{
		const T& x = t(j);
		c.check(x.size() < 100000, "moved-from", "size %zu", x.size());
		m[j] = M(x.data(), x.size());
		verify(j);
	}

	void assign(int i)
	{
		int j = r.pct(25) ? i : other(i);
		M s = arg();
		size_t pos = rpos(m[j].size()), len = rcount(m[j].size());
		C ch = rchar<C>(r);
		size_t n = rlen(r, SSO);
		int ar = arena[i];
		unsigned prop = 0;
		if constexpr (L)
			prop = IsL<A>::prop;
		switch (r.below(19)) {
			case 0:
				arena[i] = (prop & 1) ? arena[j] : ar;
				both_a("op=(copy)", i, j, ar, [&](auto& x, auto& y) { x = y; });
				break;
			case 1:
				arena[i] = (prop & 1) ? arena[j] : ar;
				both_a("assign(copy)", i, j, ar, [&](auto& x, auto& y) { x.assign(y); });
				break;
			case 2:
			case 3: {
				if (i == j)
					break;
				bool op = r.coin();
				c.op(op ? "op=(move)" : "assign(move)", i, j, m[i].size(), m[j].size());
				// with different allocators that do not propagate a move has to copy, and may fail
				if (op)
					t(i) = std::move(t(j));
				else
					t(i).assign(std::move(t(j)));
				m[i] = m[j];
				if (prop & 2)
					arena[i] = arena[j];
				verify_after_move(i, j);
				break;
			}
			case 4: both("assign(str,pos,len)", i, j, [&](auto& x, auto& y) { x.assign(y, pos, len); }); break;
			case 5: both("assign(std)", i, j, [&](auto& x, auto&) { x.assign(s); }); break;
			case 6: both("assign(view)", i, j, [&](auto& x, auto&) { x.assign(V(s)); }); break;
			case 7: {
				Buf<C> b(s);
				both("assign(ptr,n)", i, j, [&](auto& x, auto&) { x.assign(b.p.get(), b.n); });
				break;
			}
			case 8: {
				s = arg(false);
				Buf<C> b(s, true);
				bool op = r.coin();
				both("assign(z)", i, j, [&](auto& x, auto&) {
					if (op)
						x = static_cast<const C*>(b.p.get());
					else
						x.assign(b.p.get());
				});
				break;
			}
			case 9: both("assign(n,c)", i, j, [&](auto& x, auto&) { x.assign(n, ch); }); break;
			case 10: both("assign(il)", i, j, [&](auto& x, auto&) { x.assign({ C('u'), C('v'), C(0), C('w') }); }); break;
			case 11: both("op=(il)", i, j, [&](auto& x, auto&) { x = { C('u'), C('v') }; }); break;
			case 12: both("op=(c)", i, j, [&](auto& x, auto&) { x = ch; }); break;
			case 13: {
				size_t p = r.below(m[i].size() + 1), k = r.below(m[i].size() - p + 1);
				both("assign(own ptr)", i, j, [&](auto& x, auto&) { x.assign(x.data() + p, k); });
				break;
			}
			case 14: {
				size_t p = r.below(m[i].size() + 1), k = r.below(m[i].size() - p + 1);
				both("assign(own it)", i, j, [&](auto& x, auto&) { x.assign(x.begin() + p, x.begin() + p + k); });
				break;
			}
			case 15: {
				bool rv = r.coin();
				both("assign(own reverse)", i, j, [&](auto& x, auto&) {
					if (rv)
						x.assign(x.rbegin(), x.rend());
					else
						x.assign(x.crbegin(), x.crend());
				});
				break;
			}
			case 16: {
				std::list<C> l(s.begin(), s.end());
				both("assign(list)", i, j, [&](auto& x, auto&) { x.assign(l.begin(), l.end()); });
				break;
			}
			case 17: {
				std::deque<C> l(s.begin(), s.end());
				both("assign(deque)", i, j, [&](auto& x, auto&) { x.assign(l.begin(), l.end()); });
				break;
			}
			default: {
				const C* b = s.data();
				const C* cur = b;
				both("assign(input)", i, j, [&](auto& x, auto&) {
					cur = b;
					x.assign(InIt<C>(&cur, b + s.size()), InIt<C>());
				});
				T2 o(s);
				if (r.coin()) {
					c.op("assign(other capacity)", i, s.size());
					if (r.coin())
						t(i) = o;
					else
						t(i).assign(o);
					m[i] = s;
					verify(i);
				}
			}
		}
	}
	template<class F>
	void both_a(const char* name, int i, int j, int oldar, F f)
	{
		int na = arena[i];
		c.op(name, i, j, m[i].size(), m[j].size());
		M before = m[i];
		auto a = call(f, m[i], m[j]);
		if ((flags & Faults) && r.pct(50))
			Fault::arm(1 + int64_t(r.below(3)), ~0u);
		auto b = call(f, t(i), t(j));
		Fault::disarm();
		if ((flags & Faults) && b.o == ALLOC) {
			// content unchanged; the allocator may or may not have been replaced
			m[i] = before;
			(void)oldar;
			if constexpr (L)
				arena[i] = t(i).get_allocator().arena;
			verify(i);
			return;
		}
		arena[i] = na;
		c.check(a.o == b.o, "outcome", "expected outcome %d got %d", a.o, b.o);
		verify(i);
		if (i != j)
			verify(j);
	}
	void verify_after_move(int i, int j)
	{
		verify(i);
		if constexpr (L)
			arena[j] = t(j).get_allocator().arena; // the allocator of a moved-from string is its own business
		settle_moved(j);
	}

	void append(int i)
	{
		int j = r.pct(30) ? i : other(i);
		M s = arg();
		size_t pos = rpos(m[j].size()), len = rcount(m[j].size());
		size_t spos = rpos(s.size()), slen = rcount(s.size());
		C ch = rchar<C>(r);
		size_t n = r.pct(70) ? r.below(6) : rlen(r, SSO);
		bool op = r.coin();
		switch (r.below(18)) {
			case 0:
				both("append(str)", i, j, [&](auto& x, auto& y) {
					if (op)
						x += y;
					else
						x.append(y);
				});
				break;
			case 1: both("append(str,pos,len)", i, j, [&](auto& x, auto& y) { x.append(y, pos, len); }); break;
			case 2:
				both("append(std)", i, j, [&](auto& x, auto&) {
					if (op)
						x += s;
					else
						x.append(s);
				});
				break;
			case 3: both("append(std,pos,len)", i, j, [&](auto& x, auto&) { x.append(s, spos, slen); }); break;
			case 4:
				both("append(view)", i, j, [&](auto& x, auto&) {
					if (op)
						x += V(s);
					else
						x.append(V(s));
				});
				break;
			case 5: both("append(view,pos,len)", i, j, [&](auto& x, auto&) { x.append(V(s), spos, slen); }); break;
			case 6: {
				s = arg(false);
				Buf<C> b(s, true);
				both("append(z)", i, j, [&](auto& x, auto&) {
					if (op)
						x += static_cast<const C*>(b.p.get());
					else
						x.append(b.p.get());
				});
				break;
			}
			case 7: {
				Buf<C> b(s);
				both("append(ptr,n)", i, j, [&](auto& x, auto&) { x.append(b.p.get(), b.n); });
				break;
			}
			case 8: both("append(n,c)", i, j, [&](auto& x, auto&) { x.append(n, ch); }); break;
			case 9:
				both("push_back", i, j, [&](auto& x, auto&) {
					for (size_t k = 0; k <= ((flags & Faults) ? 0 : n); ++k)
						if (op)
							x += ch;
						else
							x.push_back(ch);
				});
				break;
			case 10:
				both("append(il)", i, j, [&](auto& x, auto&) {
					if (op)
						x += { C('1'), C('2'), C(0) };
					else
						x.append({ C('1'), C('2'), C(0) });
				});
				break;
			case 11: {
				size_t p = r.below(m[i].size() + 1), k = r.below(m[i].size() - p + 1);
				both("append(own ptr)", i, j, [&](auto& x, auto&) { x.append(x.data() + p, k); });
				break;
			}
			case 12: {
				size_t p = r.below(m[i].size() + 1), k = r.below(m[i].size() - p + 1);
				both("append(own it)", i, j, [&](auto& x, auto&) {
					if (op)
						x.append(x.begin() + p, x.begin() + p + k);
					else
						x.append(x.cbegin() + p, x.cbegin() + p + k);
				});
				break;
			}
			case 13: both("append(own reverse)", i, j, [&](auto& x, auto&) { x.append(x.rbegin(), x.rend()); }); break;
			case 14: {
				std::list<C> l(s.begin(), s.end());
				both("append(list)", i, j, [&](auto& x, auto&) { x.append(l.begin(), l.end()); });
				break;
			}
			case 15: {
				std::deque<C> l(s.begin(), s.end());
				both("append(deque)", i, j, [&](auto& x, auto&) { x.append(l.begin(), l.end()); });
				break;
			}
			case 16: {
				const C* b = s.data();
				const C* cur = b;
				both("append(input)", i, j, [&](auto& x, auto&) {
					cur = b;
					x.append(InIt<C>(&cur, b + s.size()), InIt<C>());
				});
				break;
			}
			default: {
				T2 o(s);
				c.op("append(other capacity)", i, s.size());
				if (op)
					t(i) += o;
				else
					t(i).append(o);
				m[i] += s;
				verify(i);
				break;
			}
		}
	}
	void insert(int i)
	{
		int j = r.pct(30) ? i : other(i);
		M s = arg();
		size_t at = rpos(m[i].size()), pos = rpos(m[j].size()), len = rcount(m[j].size());
		size_t ip = r.below(m[i].size() + 1);
		C ch = rchar<C>(r);
		size_t n = r.pct(70) ? r.below(6) : rlen(r, SSO);
		size_t p = r.below(m[i].size() + 1), k = r.below(m[i].size() - p + 1);
		switch (r.below(17)) {
			case 0: both("insert(pos,str)", i, j, [&](auto& x, auto& y) { x.insert(at, y); }); break;
			case 1: both("insert(pos,str,sp,sl)", i, j, [&](auto& x, auto& y) { x.insert(at, y, pos, len); }); break;
			case 2: both("insert(pos,std)", i, j, [&](auto& x, auto&) { x.insert(at, s); }); break;
			case 3: both("insert(pos,view)", i, j, [&](auto& x, auto&) { x.insert(at, V(s)); }); break;
			case 4: {
				s = arg(false);
				Buf<C> b(s, true);
				both("insert(pos,z)", i, j, [&](auto& x, auto&) { x.insert(at, b.p.get()); });
				break;
			}
			case 5: {
				Buf<C> b(s);
				both("insert(pos,ptr,n)", i, j, [&](auto& x, auto&) { x.insert(at, b.p.get(), b.n); });
				break;
			}
			case 6: both("insert(pos,n,c)", i, j, [&](auto& x, auto&) { x.insert(at, n, ch); }); break;
			case 7: both("insert(it,n,c)", i, j, [&](auto& x, auto&) { return x.insert(x.cbegin() + ip, n, ch) - x.begin(); }); break;
			case 8: both("insert(it,c)", i, j, [&](auto& x, auto&) { return x.insert(x.cbegin() + ip, ch) - x.begin(); }); break;
			case 9: both("insert(it,il)", i, j, [&](auto& x, auto&) { return x.insert(x.cbegin() + ip, { C('7'), C(0), C('8') }) - x.begin(); }); break;
			case 10: both("insert(pos,own ptr)", i, j, [&](auto& x, auto&) { x.insert(at, x.data() + p, k); }); break;
			case 11: both("insert(it,own it)", i, j, [&](auto& x, auto&) { return x.insert(x.cbegin() + ip, x.begin() + p, x.begin() + p + k) - x.begin(); }); break;
			case 12: both("insert(it,own reverse)", i, j, [&](auto& x, auto&) { return x.insert(x.cbegin() + ip, x.rbegin(), x.rend()) - x.begin(); }); break;
			case 13: {
				std::list<C> l(s.begin(), s.end());
				both("insert(it,list)", i, j, [&](auto& x, auto&) { return x.insert(x.cbegin() + ip, l.begin(), l.end()) - x.begin(); });
				break;
			}
			case 14: {
				std::deque<C> l(s.begin(), s.end());
				both("insert(it,deque)", i, j, [&](auto& x, auto&) { return x.insert(x.cbegin() + ip, l.begin(), l.end()) - x.begin(); });
				break;
			}
			case 15: {
				const C* b = s.data();
				const C* cur = b;
				both("insert(it,input)", i, j, [&](auto& x, auto&) {
					cur = b;
					return x.insert(x.cbegin() + ip, InIt<C>(&cur, b + s.size()), InIt<C>()) - x.begin();
				});
				break;
			}
			default: {
				T2 o(s);
				c.op("insert(pos,other capacity)", i, ip, s.size());
				t(i).insert(ip, o);
				m[i].insert(ip, s);
				verify(i);
				break;
			}
		}
	}
	void erase(int i)
	{
		size_t at = rpos(m[i].size()), len = rcount(m[i].size());
		size_t p = r.below(m[i].size() + 1), k = r.below(m[i].size() - p + 1);
		switch (r.below(5)) {
			case 0: both("erase(pos,len)", i, i, [&](auto& x, auto&) { x.erase(at, len); }); break;
			case 1: both("erase(pos)", i, i, [&](auto& x, auto&) { x.erase(at); }); break;
			case 2:
				if (!m[i].empty()) {
					p = r.below(m[i].size());
					both("erase(it)", i, i, [&](auto& x, auto&) { return x.erase(x.cbegin() + p) - x.begin(); });
				}
				break;
			case 3: both("erase(it,it)", i, i, [&](auto& x, auto&) { return x.erase(x.cbegin() + p, x.cbegin() + p + k) - x.begin(); }); break;
			default:
				both("pop_back", i, i, [&](auto& x, auto&) {
					for (size_t q = 0; q < 3 && !x.empty(); ++q)
						x.pop_back();
				});
		}
	}
	void replace(int i)
	{
		int j = r.pct(30) ? i : other(i);
		M s = arg();
		size_t at = rpos(m[i].size()), al_ = rcount(m[i].size());
		size_t sp = rpos(m[j].size()), sl = rcount(m[j].size());
		size_t ssp = rpos(s.size()), ssl = rcount(s.size());
		size_t ip = r.below(m[i].size() + 1), ik = r.below(m[i].size() - ip + 1);
		C ch = rchar<C>(r);
		size_t n = r.pct(70) ? r.below(6) : rlen(r, SSO);
		size_t p = r.below(m[i].size() + 1), k = r.below(m[i].size() - p + 1);
		auto b1 = [&](auto& x) { return x.cbegin() + ip; };
		auto b2 = [&](auto& x) { return x.cbegin() + ip + ik; };
		switch (r.below(22)) {
			case 0: both("replace(pos,len,str)", i, j, [&](auto& x, auto& y) { x.replace(at, al_, y); }); break;
			case 1: both("replace(it,it,str)", i, j, [&](auto& x, auto& y) { x.replace(b1(x), b2(x), y); }); break;
			case 2: both("replace(pos,len,str,sp,sl)", i, j, [&](auto& x, auto& y) { x.replace(at, al_, y, sp, sl); }); break;
			case 3: both("replace(pos,len,std)", i, j, [&](auto& x, auto&) { x.replace(at, al_, s); }); break;
			case 4: both("replace(it,it,std)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), s); }); break;
			case 5: both("replace(pos,len,std,sp,sl)", i, j, [&](auto& x, auto&) { x.replace(at, al_, s, ssp, ssl); }); break;
			case 6: both("replace(pos,len,view)", i, j, [&](auto& x, auto&) { x.replace(at, al_, V(s)); }); break;
			case 7: both("replace(it,it,view)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), V(s)); }); break;
			case 8: both("replace(pos,len,view,sp,sl)", i, j, [&](auto& x, auto&) { x.replace(at, al_, V(s), ssp, ssl); }); break;
			case 9: {
				s = arg(false);
				Buf<C> b(s, true);
				both("replace(pos,len,z)", i, j, [&](auto& x, auto&) { x.replace(at, al_, b.p.get()); });
				break;
			}
			case 10: {
				s = arg(false);
				Buf<C> b(s, true);
				both("replace(it,it,z)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), static_cast<const C*>(b.p.get())); });
				break;
			}
			case 11: {
				Buf<C> b(s);
				both("replace(pos,len,ptr,n)", i, j, [&](auto& x, auto&) { x.replace(at, al_, b.p.get(), b.n); });
				break;
			}
			case 12: {
				Buf<C> b(s);
				both("replace(it,it,ptr,n)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), b.p.get(), b.n); });
				break;
			}
			case 13: both("replace(pos,len,n,c)", i, j, [&](auto& x, auto&) { x.replace(at, al_, n, ch); }); break;
			case 14: both("replace(it,it,n,c)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), n, ch); }); break;
			case 15: both("replace(it,it,il)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), { C('5'), C(0), C('6'), C('7') }); }); break;
			case 16: both("replace(pos,len,own ptr)", i, j, [&](auto& x, auto&) { x.replace(at, al_, x.data() + p, k); }); break;
			case 17: both("replace(it,it,own it)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), x.begin() + p, x.begin() + p + k); }); break;
			case 18: {
				std::list<C> l(s.begin(), s.end());
				both("replace(it,it,list)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), l.begin(), l.end()); });
				break;
			}
			case 19: {
				std::deque<C> l(s.begin(), s.end());
				both("replace(it,it,deque)", i, j, [&](auto& x, auto&) { x.replace(b1(x), b2(x), l.begin(), l.end()); });
				break;
			}
			case 20: {
				const C* b = s.data();
				const C* cur = b;
				both("replace(it,it,input)", i, j, [&](auto& x, auto&) {
					cur = b;
					x.replace(b1(x), b2(x), InIt<C>(&cur, b + s.size()), InIt<C>());
				});
				break;
			}
			default: {
				// seq extension: replace every occurrence
				M f = rstr<C>(r, 1 + r.below(3)), to = rstr<C>(r, r.below(5));
				size_t start = r.below(m[i].size() + 1);
				c.op("replace(from,to)", i, f.size(), to.size(), start);
				size_t e = naive_replace(m[i], f, to, start);
				size_t g = r.coin() ? t(i).replace(V(f), V(to), start) : t(i).replace(T2(f), T2(to), start);
				c.check(e == g, "replace-all", "expected %zu replacements got %zu", e, g);
				verify(i);
			}
		}
	}
	void resize(int i)
	{
		size_t n = rlen(r, SSO);
		C ch = rchar<C>(r);
		switch (r.below(8)) {
			case 0: both("resize(n)", i, i, [&](auto& x, auto&) { x.resize(n); }); break;
			case 1: both("resize(n,c)", i, i, [&](auto& x, auto&) { x.resize(n, ch); }); break;
			case 2: {
				c.op("resize_front", i, n);
				t(i).resize_front(n, ch);
				if (n <= m[i].size())
					m[i].erase(0, m[i].size() - n);
				else
					m[i].insert(0, n - m[i].size(), ch);
				verify(i);
				break;
			}
			case 3:
				both("reserve", i, i, [&](auto& x, auto&) { x.reserve(n); });
				if (!(flags & Faults))
					c.check(t(i).capacity() >= n, "reserve", "capacity %zu after reserve(%zu)", t(i).capacity(), n);
				break;
			case 4: both("shrink_to_fit", i, i, [&](auto& x, auto&) { x.shrink_to_fit(); }); break;
			case 5: both("clear", i, i, [&](auto& x, auto&) { x.clear(); }); break;
			case 6: {
				size_t huge = r.coin() ? size_t(-1) - r.below(20) : (size_t(1) << 63) + r.below(100);
				switch (r.below(4)) {
					case 0: both("resize(huge)", i, i, [&](auto& x, auto&) { x.resize(huge); }); break;
					case 1: both("reserve(huge)", i, i, [&](auto& x, auto&) { x.reserve(huge); }); break;
					case 2: both("append(huge,c)", i, i, [&](auto& x, auto&) { x.append(huge, ch); }); break;
					default: both("assign(huge,c)", i, i, [&](auto& x, auto&) { x.assign(huge, ch); }); break;
				}
				break;
			}
			default: {
				int j = other(i);
				unsigned prop = 0;
				if constexpr (L)
					prop = IsL<A>::prop;
				if (L && !(prop & 4) && arena[i] != arena[j])
					break; // undefined for std containers too
				c.op("swap", i, j);
				switch (r.below(3)) {
					case 0: t(i).swap(t(j)); break;
					case 1: seq::swap(t(i), t(j)); break;
					default: {
						if (L)
							t(i).swap(t(j));
						else
							std::swap(t(i), t(j));
					}
				}
				m[i].swap(m[j]);
				if (prop & 4)
					std::swap(arena[i], arena[j]);
				verify(i);
				verify(j);
			}
		}
	}
	void access(int i)
	{
		const T& x = t(i);
		M& y = m[i];
		if (!y.empty()) {
			size_t k = r.below(y.size());
			c.op("access", i, k);
			c.check(x[k] == y[k] && x.at(k) == y[k] && t(i)[k] == y[k] && t(i).at(k) == y[k], "access", "at %zu", k);
			c.check(x.front() == y.front() && x.back() == y.back(), "access", "front/back");
			c.check(*(x.rbegin() + long(k)) == *(y.rbegin() + long(k)) && *(x.crbegin() + long(k)) == *(y.rbegin() + long(k)), "reverse", "at %zu", k);
			C ch = rchar<C>(r);
			switch (r.below(5)) {
				case 0: t(i)[k] = ch, y[k] = ch; break;
				case 1: t(i).at(k) = ch, y[k] = ch; break;
				case 2: t(i).front() = ch, y.front() = ch; break;
				case 3: t(i).back() = ch, y.back() = ch; break;
				default: t(i).data()[k] = ch, y[k] = ch;
			}
			verify(i);
		}
		M back = x;
		c.check(back == y, "to-std", "conversion to std::basic_string");
		auto h = std::hash<T>{}(x);
		c.check(h == std::hash<T>{}(V(y)), "hash", "hash differs from the hash of the equal view");
	}
	void query(int i)
	{
		M s;
		const M& h = m[i];
		// a needle which is likely to be present or nearly so
		if (!h.empty() && r.pct(60)) {
			size_t p = r.below(h.size());
			s = h.substr(p, r.pct(80) ? r.below(6) : r.below(60));
			if (!s.empty() && r.pct(20))
				s[r.below(s.size())] = rchar<C>(r);
		}
		else
			s = rstr<C>(r, r.below(5));
		M zs = s;
		for (auto& ch : zs)
			if (ch == 0)
				ch = C('b');
		Buf<C> z(zs, true), b(s);
		size_t pos = rpos(h.size()), len = rcount(h.size());
		C ch = h.empty() || r.coin() ? rchar<C>(r) : h[r.below(h.size())];
		c.op("query", i, h.size(), s.size(), pos, len);
		Q e, eo;
		queries(e, h, s, z.p.get(), b.p.get(), b.n, pos, len, ch);
		queries_of(eo, h, s, pos);
		const T& x = t(i);
		{
			Q q, qo;
			T y(s.data(), s.size());
			queries(q, x, y, z.p.get(), b.p.get(), b.n, pos, len, ch);
			queries_of(qo, x, y, pos);
			cmpq(c, e, q, "tiny_string", 0);
			cmpq(c, eo, qo, "tiny_string", 1);
		}
		{
			Q q, qo;
			T2 y(s);
			queries(q, x, y, z.p.get(), b.p.get(), b.n, pos, len, ch);
			queries_of(qo, x, y, pos);
			cmpq(c, e, q, "other capacity", 0);
			cmpq(c, eo, qo, "other capacity", 1);
		}
		{
			Q q;
			queries(q, x, s, z.p.get(), b.p.get(), b.n, pos, len, ch);
			cmpq(c, e, q, "std::basic_string", 0);
		}
		{
			Q q;
			V y(b.p.get(), b.n);
			queries(q, x, y, z.p.get(), b.p.get(), b.n, pos, len, ch);
			cmpq(c, e, q, "std::basic_string_view", 0);
		}
		{
			Q q, qo;
			TV y(b.p.get(), b.n);
			queries(q, x, y, z.p.get(), b.p.get(), b.n, pos, len, ch);
			queries_of(qo, x, y, pos);
			cmpq(c, e, q, "tstring_view", 0);
			cmpq(c, eo, qo, "tstring_view", 1);
		}
		if (!s.empty()) {
			size_t start = r.pct(80) ? r.below(h.size() + 1) : rpos(h.size());
			size_t n = naive_count(h, s, start);
			c.check(x.count(b.p.get(), b.n, start) == n && x.count(s, start) == n && x.count(V(s), start) == n && x.count(T2(s), start) == n, "count", "expected %zu got %zu", n, x.count(s, start));
			c.check(x.count(z.p.get(), start) == naive_count(h, zs, start), "count", "null terminated");
		}
		c.check(x.count(ch) == size_t(std::count(h.begin(), h.end(), ch)), "count", "character");
	}
	void concat(int i)
	{
		int j = other(i);
		M s = arg(), zs = arg(false);
		Buf<C> z(zs, true);
		C ch = rchar<C>(r);
		c.op("concat", i, j, s.size());
		auto eq = [&](const auto& x, const M& y, const char* what) { c.check(x.size() == y.size() && M(x.data(), x.size()) == y && x.c_str()[x.size()] == 0, "concat", "%s: expected %s got %s", what, show(y).c_str(), show(M(x.data(), x.size())).c_str()); };
		const T& x = t(i);
		const T& y = t(j);
		T2 o(s);
		TV tv(s.data(), s.size());
		eq(x + y, m[i] + m[j], "str+str");
		if constexpr (!L) {
			eq(x + o, m[i] + s, "str+other");
			eq(o + x, s + m[i], "other+str");
		}
		eq(x + tv, m[i] + s, "str+tview");
		eq(tv + x, s + m[i], "tview+str");
		eq(x + s, m[i] + s, "str+std");
		eq(s + x, s + m[i], "std+str");
		eq(x + V(s), m[i] + s, "str+view");
		eq(V(s) + x, s + m[i], "view+str");
		eq(x + static_cast<const C*>(z.p.get()), m[i] + zs, "str+z");
		eq(static_cast<const C*>(z.p.get()) + x, zs + m[i], "z+str");
		eq(x + ch, m[i] + ch, "str+c");
		eq(ch + x, ch + m[i], "c+str");
	}
	template<class CC = C>
	void stream(int i)
	{
		if constexpr (std::is_same_v<CC, char> || std::is_same_v<CC, wchar_t>) {
			std::basic_ostringstream<CC> o1, o2;
			int w = int(r.below(40));
			bool left = r.coin();
			for (auto* o : { &o1, &o2 }) {
				o->width(w);
				if (left)
					o->setf(std::ios_base::left, std::ios_base::adjustfield);
				o->fill(CC('*'));
			}
			c.op("stream", i, w, left);
			o1 << m[i] << CC('|');
			o2 << t(i) << CC('|');
			c.check(o1.str() == o2.str(), "ostream", "expected %s got %s", show(o1.str()).c_str(), show(o2.str()).c_str());
			std::basic_string<CC> text;
			for (size_t k = r.below(60); k; --k)
				text += r.pct(15) ? CC(" \t\n"[r.below(3)]) : CC('a' + r.below(26));
			std::basic_istringstream<CC> i1(text), i2(text);
			for (int k = 0; k < 8; ++k) {
				if (r.pct(40)) {
					int ww = int(r.below(30));
					i1.width(ww);
					i2.width(ww);
				}
				i1 >> m[i];
				i2 >> t(i);
				c.check(i1.rdstate() == i2.rdstate() && i1.width() == i2.width(), "istream", "state %d expected %d", int(i2.rdstate()), int(i1.rdstate()));
				verify(i);
			}
		}
	}
	void run(int steps)
	{
		for (int i = 0; i < N; ++i)
			construct(i), live[i] ? void() : (void)other((i + 1) % N);
		for (int i = 0; i < N; ++i)
			if (!live[i]) {
				m[i] = M();
				make("ctor()", i, 0, [&](void* p) { new (p) T(al(0)); });
			}
		for (int k = 0; k < steps; ++k) {
			int i = int(r.below(N));
			unsigned w = r.below(100);
			if (w < 6)
				construct(i);
			else if (w < 18)
				assign(i);
			else if (w < 33)
				append(i);
			else if (w < 48)
				insert(i);
			else if (w < 58)
				erase(i);
			else if (w < 73)
				replace(i);
			else if (w < 83)
				resize(i);
			else if (w < 87)
				access(i);
			else if (w < 95)
				query(i);
			else if (w < 98)
				concat(i);
			else
				stream(i);
			if (m[i].size() > 600)
				both("truncate", i, i, [&](auto& x, auto&) { x.resize(20); });
		}
	}
};

template<class C, class A, size_t S, unsigned F = 0>
void run(Ctx& c)
{
	{
		Hist<C, A, S> h(c, F);
		h.run(40);
	}
	balance(c);
}

// tstring_view against std::basic_string_view
template<class C>
void run_view(Ctx& c)
{
	using M = std::basic_string_view<C>;
	using TV = seq::tiny_string<C, std::char_traits<C>, seq::view_allocator<C>, 0>;
	using TS = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 0>;
	Rng& r = c.rng;
	std::basic_string<C> hs = rstr<C>(r, rlen(r, 16));
	Buf<C> hb(hs);
	M h(hb.p.get(), hb.n);
	TV x(hb.p.get(), hb.n);
	if (r.coin())
		x = h;
	for (int k = 0; k < 20; ++k) {
		std::basic_string<C> s;
		if (!h.empty() && r.pct(60)) {
			s = std::basic_string<C>(h.substr(r.below(h.size()), r.below(8)));
			if (!s.empty() && r.pct(20))
				s[r.below(s.size())] = rchar<C>(r);
		}
		else
			s = rstr<C>(r, r.below(5));
		std::basic_string<C> zs = s;
		for (auto& ch : zs)
			if (ch == 0)
				ch = C('b');
		Buf<C> z(zs, true), b(s);
		size_t pos = r.pct(80) ? r.below(h.size() + 1) : r.coin() ? h.size() + 1 + r.below(3) : size_t(-1) - r.below(3);
		size_t len = r.pct(80) ? r.below(h.size() + 1) : size_t(-1) - r.below(3);
		C ch = h.empty() || r.coin() ? rchar<C>(r) : h[r.below(h.size())];
		c.op("query", h.size(), s.size(), pos, len);
		Q e, eo, q, qo, q2, q3;
		queries(e, h, M(s), z.p.get(), b.p.get(), b.n, pos, len, ch);
		queries_of(eo, h, M(s), pos);
		queries(q, x, M(b.p.get(), b.n), z.p.get(), b.p.get(), b.n, pos, len, ch);
		cmpq(c, e, q, "view/std view", 0);
		queries(q2, x, s, z.p.get(), b.p.get(), b.n, pos, len, ch);
		cmpq(c, e, q2, "view/std string", 0);
		queries_of(qo, x, TV(b.p.get(), b.n), pos);
		cmpq(c, eo, qo, "view/view", 1);
		Q q4;
		queries_of(q4, x, TS(b.p.get(), b.n), pos);
		cmpq(c, eo, q4, "view/tiny", 1);
		if (!s.empty()) {
			size_t start = r.below(h.size() + 1);
			c.check(x.count(b.p.get(), b.n, start) == naive_count(hs, s, start), "count", "view");
		}
		c.check(x.size() == h.size() && x.empty() == h.empty() && size_t(x.end() - x.begin()) == h.size(), "view", "size");
		if (!h.empty()) {
			size_t i = r.below(h.size());
			c.check(x[i] == h[i] && x.front() == h.front() && x.back() == h.back() && *(x.rbegin() + long(i)) == *(h.rbegin() + long(i)), "view", "access %zu", i);
		}
		c.state(mix(h.size(), mix(s.size(), pos < 1000 ? pos : 1000)));
	}
	MON_COUNT("string view cases", 1);
}
}
