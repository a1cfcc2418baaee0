// Reference-model monitor for the linear containers: devector, tiered_vector, sequence.
// Every operation is applied to the real container and to a std::vector<int64_t>; results, returned positions
// and contents are compared. With faults armed, an injected exception must leave a valid container.
#pragma once
#include "mon.hpp"

namespace lin {
using namespace mon;

enum Kind
{
	DEV,
	TV,
	SEQ
};
enum Opt : unsigned
{
	FAULTS = 1,  // inject exceptions
	ALIAS = 2,   // arguments that alias own elements
	ALLOCS = 4,  // containers with unequal allocators
	DEEP = 8,    // check content after every operation
	STRONG = 16, // judge the strong guarantee where documented
};

struct Pause
{
	unsigned m;
	Pause()
	  : m(Fault::mask())
	{
		Fault::mask() = 0;
	}
	~Pause() { Fault::mask() = m; }
};
template<class T>
T mk(int64_t x)
{
	Pause p;
	return Make<T>::make(x);
}

// forward-only and input-only iterators over a vector
template<class T, class Cat>
struct WeakIt
{
	using iterator_category = Cat;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T*;
	using reference = const T&;
	const T* p = nullptr;
	reference operator*() const { return *p; }
	pointer operator->() const { return p; }
	WeakIt& operator++()
	{
		++p;
		return *this;
	}
	WeakIt operator++(int)
	{
		WeakIt r = *this;
		++p;
		return r;
	}
	WeakIt& operator--()
	{
		--p;
		return *this;
	}
	WeakIt operator--(int)
	{
		WeakIt r = *this;
		--p;
		return r;
	}
	bool operator==(const WeakIt& o) const { return p == o.p; }
	bool operator!=(const WeakIt& o) const { return p != o.p; }
};

template<class V, Kind K, unsigned Opts>
struct Tester
{
	using T = typename V::value_type;
	using A = typename V::allocator_type;
	using It = typename V::iterator;
	using CIt = typename V::const_iterator;
	using M = std::vector<int64_t>;
	static constexpr bool copyable = std::is_copy_constructible<T>::value;
	static constexpr bool nothrow = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;

	Ctx& c;
	Rng& r;
	struct Obj
	{
		V* v;
		M m;
	};
	Obj o[3];
	int64_t next_val = 1;
	size_t target = 100;
	bool dup_values = false;
	bool strong_ok = false; // current operation documents the strong guarantee

	static A make_alloc(int i)
	{
		if constexpr (std::is_constructible<A, int>::value)
			return A(i);
		else
			return A();
	}
	Tester(Ctx& ctx)
	  : c(ctx)
	  , r(ctx.rng)
	{
		size_t k = r.below(10);
		target = k < 3 ? r.below(17) : k < 6 ? 20 + r.below(150) : k < 9 ? 150 + r.below(1200) : 1500 + r.below(K == TV ? 6000 : 3000);
		if (Opts & FAULTS)
			target = std::min<size_t>(target, 20 + r.below(300));
		dup_values = r.coin();
		for (int i = 0; i < 3; ++i)
			o[i].v = new V(make_alloc((Opts & ALLOCS) ? i + 1 : 1));
	}
	~Tester()
	{
		for (auto& x : o)
			delete x.v;
	}
	int64_t fresh() { return dup_values ? static_cast<int64_t>(r.below(1 + target / 4)) + 1 : next_val++; }
	std::vector<int64_t> fresh_n(size_t n)
	{
		std::vector<int64_t> x(n);
		for (auto& e : x)
			e = fresh();
		return x;
	}
	std::vector<T> mkv(const std::vector<int64_t>& x)
	{
		Pause p;
		std::vector<T> out;
		out.reserve(x.size());
		for (auto e : x)
			out.push_back(Make<T>::make(e));
		return out;
	}
	// number of elements for bulk operations, around block boundaries
	size_t bulk()
	{
		switch (r.below(6)) {
			case 0: return r.below(4);
			case 1: return r.below(20);
			case 2: return 60 + r.below(10);
			case 3: return r.below(200);
			case 4: return 120 + r.below(16);
			default: return r.below(target + 1);
		}
	}
	size_t room(const M& m, size_t n)
	{
		size_t cap = target * 2 + 8;
		return m.size() >= cap ? 0 : std::min(n, cap - m.size());
	}

	// ---- positions
	It at_it(V& v, size_t pos)
	{
		if constexpr (K == SEQ) {
			if (r.coin())
				return v.iterator_at(pos);
			It it = v.begin();
			if (pos <= v.size() / 2)
				for (size_t i = 0; i < pos; ++i)
					++it;
			else {
				it = v.end();
				for (size_t i = v.size(); i > pos; --i)
					--it;
			}
			return it;
		}
		else if constexpr (K == TV) {
			switch (r.below(3)) {
				case 0: return v.iterator_at(pos);
				case 1: return v.begin() + static_cast<std::ptrdiff_t>(pos);
				default: return v.end() - static_cast<std::ptrdiff_t>(v.size() - pos);
			}
		}
		else
			return v.begin() + static_cast<std::ptrdiff_t>(pos);
	}
	template<class I>
	size_t index_of(V& v, I it)
	{
		if constexpr (K == SEQ) {
			size_t n = 0;
			for (CIt i = v.cbegin(); i != v.cend(); ++i, ++n)
				if (i == CIt(it))
					return n;
			if (CIt(it) == v.cend())
				return n;
			return static_cast<size_t>(-1);
		}
		else
			return static_cast<size_t>(CIt(it) - v.cbegin());
	}

	// ---- content checks
	void quick(V& v, const M& m)
	{
		c.check(v.size() == m.size(), "size", "size %zu expected %zu", v.size(), m.size());
		c.check(v.empty() == m.empty(), "empty", "empty() is wrong at size %zu", m.size());
		if (m.empty()) {
			c.check(v.begin() == v.end(), "begin-end", "begin != end on empty container");
			return;
		}
		const V& cv = v;
		c.check(val(v.front()) == m.front() && val(cv.front()) == m.front(), "front", "front %lld expected %lld", (long long)val(v.front()), (long long)m.front());
		c.check(val(v.back()) == m.back() && val(cv.back()) == m.back(), "back", "back %lld expected %lld", (long long)val(v.back()), (long long)m.back());
		for (int k = 0; k < 2; ++k) {
			size_t i = r.below(m.size());
			if constexpr (K != SEQ) {
				c.check(val(v[i]) == m[i] && val(cv[i]) == m[i] && val(v.at(i)) == m[i] && val(cv.at(i)) == m[i], "index", "v[%zu]=%lld expected %lld", i, (long long)val(v[i]), (long long)m[i]);
				c.check(val(*(cv.end() - static_cast<std::ptrdiff_t>(m.size() - i))) == m[i] && val(*(v.begin() + static_cast<std::ptrdiff_t>(i))) == m[i], "iter-arith", "iterator arithmetic to %zu", i);
			}
			else
				c.check(val(*v.iterator_at(i)) == m[i] && val(*cv.iterator_at(i)) == m[i], "iterator_at", "iterator_at(%zu)", i);
		}
	}
	void deep(V& v, const M& m)
	{
		quick(v, m);
		const V& cv = v;
		size_t i = 0;
		for (auto it = v.begin(); it != v.end(); ++it, ++i) {
			c.check(i < m.size(), "iter-over", "forward iteration passes %zu elements", m.size());
			c.check(val(*it) == m[i], "content", "element %zu of %zu is %lld expected %lld", i, m.size(), (long long)val(*it), (long long)m[i]);
		}
		c.check(i == m.size(), "iter-count", "forward iteration sees %zu of %zu", i, m.size());
		i = 0;
		for (auto it = cv.begin(); it != cv.end(); it++, ++i) {
			c.check(i < m.size(), "citer-over", "const iteration passes %zu elements", m.size());
			c.check(val(*it) == m[i], "const-content", "const element %zu", i);
		}
		c.check(i == m.size(), "citer-count", "const iteration sees %zu of %zu", i, m.size());
		i = m.size();
		for (auto it = v.rbegin(); it != v.rend(); ++it) {
			c.check(i > 0, "riter-over", "reverse iteration passes %zu elements", m.size());
			--i;
			c.check(val(*it) == m[i], "reverse-content", "reverse element %zu is %lld expected %lld", i, (long long)val(*it), (long long)m[i]);
		}
		c.check(i == 0, "riter-count", "reverse iteration misses %zu elements", i);
		i = m.size();
		for (auto it = cv.end(); it != cv.begin();) {
			it--;
			c.check(i > 0, "riter-over", "backward iteration passes begin");
			--i;
			c.check(val(*it) == m[i], "backward-content", "backward element %zu", i);
		}
		c.check(i == 0, "biter-count", "backward iteration misses %zu elements", i);
		if constexpr (K == TV) {
			M seen;
			size_t a = r.below(m.size() + 1), b = a + r.below(m.size() - a + 1);
			cv.for_each(a, b, [&](const T& x) { seen.push_back(val(x)); });
			c.check(seen == M(m.begin() + a, m.begin() + b), "for_each", "for_each(%zu,%zu) of %zu differs", a, b, m.size());
		}
		if constexpr (K != SEQ)
			ra_laws(v, m);
		else
			seq_laws(v, m);
		MON_COUNT("deep_content_checks", 1);
	}
	void ra_laws(V& v, const M& m)
	{
		size_t n = m.size();
		const V& cv = v;
		for (int k = 0; k < 3; ++k) {
			size_t i = r.below(n + 1), j = r.below(n + 1);
			auto a = v.begin() + static_cast<std::ptrdiff_t>(i);
			auto b = cv.end() - static_cast<std::ptrdiff_t>(n - j);
			CIt ca = a;
			std::ptrdiff_t d = static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i);
			c.check(b - ca == d && ca - b == -d, "iter-diff", "difference of positions %zu and %zu of %zu is %td", i, j, n, b - ca);
			c.check((ca < b) == (i < j) && (ca > b) == (i > j) && (ca <= b) == (i <= j) && (ca >= b) == (i >= j) && (ca == b) == (i == j) && (ca != b) == (i != j), "iter-order", "ordering of positions %zu and %zu of %zu", i, j, n);
			auto e = a;
			e += d;
			c.check(CIt(e) == b, "iter-plus-assign", "a += %td", d);
			e -= d;
			c.check(e == a, "iter-minus-assign", "a -= %td", d);
			if (i < n && j < n) {
				c.check(val(a[d]) == m[j], "iter-subscript", "it[%td]", d);
				auto x = a;
				auto y = x++;
				c.check(y == a && x - a == 1, "iter-postinc", "post increment at %zu", i);
				auto z = x--;
				c.check(z - a == 1 && x == a, "iter-postdec", "post decrement at %zu", i);
				c.check(val(*(v.rbegin() + static_cast<std::ptrdiff_t>(n - 1 - i))) == m[i], "riter-arith", "reverse arithmetic");
			}
		}
	}
	void seq_laws(V& v, const M& m)
	{
		size_t n = m.size();
		for (int k = 0; k < 2; ++k) {
			size_t i = r.below(n + 1), j = r.below(n + 1);
			CIt a = at_it(v, i), b = at_it(v, j);
			c.check((a == b) == (i == j) && (a != b) == (i != j), "iter-equal", "equality of positions %zu and %zu of %zu", i, j, n);
			c.check((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "iter-order", "ordering of positions %zu and %zu of %zu", i, j, n);
			std::ptrdiff_t d = static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i);
			c.check(b - a == d, "iter-diff", "difference of positions %zu and %zu of %zu is %td", i, j, n, static_cast<std::ptrdiff_t>(b - a));
			CIt e = a + d;
			c.check(e == b, "iter-arith", "advancing position %zu by %td of %zu", i, d, n);
			e -= d;
			c.check(e == a, "iter-arith", "moving position %zu back by %td of %zu", j, d, n);
		}
	}

	// ---- operations; each returns after updating the model
	enum
	{
		NOPS = 60
	};
	template<class F>
	void for_model(F f)
	{
		f();
	}

	void step()
	{
		size_t oi = r.below(8) < 5 ? 0 : 1 + r.below(2);
		Obj& x = o[oi];
		size_t n = x.m.size();
		// pressure toward the target size: choose growth or shrink operations
		bool grow = n < target ? r.below(10) < 7 : r.below(10) < 3;
		if (r.below(14) == 0)
			whole(oi);
		else if (r.below(6) == 0)
			misc(x);
		else if (grow)
			add(x);
		else
			remove(x);
		Obj& y = o[oi];
		if ((Opts & DEEP) || y.m.size() <= 32 || r.below(y.m.size() / 16 + 1) == 0)
			deep(*y.v, y.m);
		else
			quick(*y.v, y.m);
		c.state(mix(mix(K * 100 + sizeof(T), y.m.size()), K == DEV ? y.v->size() : 0));
	}

	void add(Obj& x)
	{
		V& v = *x.v;
		M& m = x.m;
		size_t n = m.size();
		strong_ok = false;
		switch (r.below(K == SEQ ? 13 : 22)) {
			case 0:
			case 1: {
				size_t k = 1 + r.below(8);
				for (size_t i = 0; i < k; ++i) {
					int64_t a = fresh();
					strong_ok = true;
					if (copyable && r.coin()) {
						c.op("push_back(const&)", a);
						if constexpr (copyable) {
							const T t = mk<T>(a);
							v.push_back(t);
						}
					}
					else {
						c.op("push_back(&&)", a);
						v.push_back(mk<T>(a));
					}
					m.push_back(a);
				}
				return;
			}
			case 2:
			case 3: {
				size_t k = 1 + r.below(8);
				for (size_t i = 0; i < k; ++i) {
					int64_t a = fresh();
					strong_ok = true;
					if (copyable && r.coin()) {
						c.op("push_front(const&)", a);
						if constexpr (copyable) {
							const T t = mk<T>(a);
							v.push_front(t);
						}
					}
					else {
						c.op("push_front(&&)", a);
						v.push_front(mk<T>(a));
					}
					m.insert(m.begin(), a);
				}
				return;
			}
			case 4: {
				int64_t a = fresh();
				strong_ok = true;
				c.op("emplace_back", a);
				auto& ref = v.emplace_back(mk<T>(a));
				m.push_back(a);
				c.check(&ref == &v.back() && val(ref) == a, "emplace-ref", "emplace_back returned another element");
				return;
			}
			case 5: {
				int64_t a = fresh();
				strong_ok = true;
				c.op("emplace_front", a);
				auto& ref = v.emplace_front(mk<T>(a));
				m.insert(m.begin(), a);
				c.check(&ref == &v.front() && val(ref) == a, "emplace-ref", "emplace_front returned another element");
				return;
			}
			case 6: { // resize up, default
				size_t k = room(m, bulk());
				if constexpr (K == SEQ && !copyable)
					return;
				if constexpr (std::is_same<T, std::string>::value || !std::is_default_constructible<T>::value || std::is_same<T, std::unique_ptr<int64_t>>::value) {
					if constexpr (copyable) {
						const T t = mk<T>(fresh_n(1)[0]);
						c.op("resize(n,v)", n + k, val(t));
						v.resize(n + k, t);
						m.resize(n + k, val(t));
					}
				}
				else {
					c.op("resize(n)", n + k);
					v.resize(n + k);
					m.resize(n + k, 0);
				}
				return;
			}
			case 7: {
				size_t k = room(m, bulk());
				if constexpr (copyable) {
					int64_t a = fresh();
					const T t = mk<T>(a);
					c.op("resize(n,v)", n + k, a);
					strong_ok = K == DEV;
					v.resize(n + k, t);
					m.resize(n + k, a);
				}
				return;
			}
			case 8: {
				size_t k = room(m, bulk());
				if constexpr (copyable) {
					int64_t a = fresh();
					const T t = mk<T>(a);
					c.op("resize_front(n,v)", n + k, a);
					strong_ok = K == DEV;
					v.resize_front(n + k, t);
					m.insert(m.begin(), k, a);
				}
				return;
			}
			case 9: {
				size_t k = room(m, bulk());
				if constexpr (std::is_default_constructible<T>::value && copyable && !std::is_same<T, std::string>::value) {
					c.op("resize_front(n)", n + k);
					v.resize_front(n + k);
					m.insert(m.begin(), k, 0);
				}
				return;
			}
			case 10: { // self aliasing
				if constexpr ((Opts & ALIAS) != 0 && copyable) {
					if (!n)
						return;
					size_t i = r.below(n);
					int64_t a = m[i];
					size_t which = r.below(K == SEQ ? 4 : 6);
					if ((which == 2 || which == 3) && n > target * 2)
						return;
					c.op("alias", which, i);
					auto& e = *at_it(v, i);
					switch (which) {
						case 0:
							v.push_back(e);
							m.push_back(a);
							break;
						case 1:
							v.push_front(e);
							m.insert(m.begin(), a);
							break;
						case 2: {
							size_t k = r.below(40);
							v.resize(n + k, e);
							m.resize(n + k, a);
							break;
						}
						case 3: {
							size_t k = r.below(40);
							v.resize_front(n + k, e);
							m.insert(m.begin(), k, a);
							break;
						}
						case 4: {
							if constexpr (K != SEQ) {
								size_t p = r.below(n + 1);
								v.insert(at_it(v, p), e);
								m.insert(m.begin() + p, a);
							}
							break;
						}
						default: {
							if constexpr (K != SEQ) {
								size_t p = r.below(n + 1);
								v.emplace(at_it(v, p), e);
								m.insert(m.begin() + p, a);
							}
						}
					}
				}
				return;
			}
			case 11:
			case 12:
				if constexpr (K == SEQ) {
					size_t k = 1 + r.below(6);
					for (size_t i = 0; i < k; ++i) {
						int64_t a = fresh();
						strong_ok = true;
						It it;
						size_t which = r.below(5);
						if (which == 2 && !copyable)
							which = 1;
						c.op("seq-insert", which, a);
						if (which == 0)
							it = v.emplace(mk<T>(a));
						else if (which == 1)
							it = v.insert(mk<T>(a));
						else if (which == 2) {
							if constexpr (copyable) {
								const T t = mk<T>(a);
								it = v.insert(t);
							}
						}
						else if (which == 3)
							it = v.emplace_back_iter(mk<T>(a));
						else
							it = v.emplace_front_iter(mk<T>(a));
						c.check(val(*it) == a, "insert-iter", "returned iterator designates %lld expected %lld", (long long)val(*it), (long long)a);
						size_t pos = index_of(v, it);
						c.check(pos <= m.size(), "insert-iter", "returned iterator is not in the sequence");
						if (which == 3)
							c.check(pos == m.size(), "insert-iter", "emplace_back_iter returned position %zu of %zu", pos, m.size());
						if (which == 4)
							c.check(pos == 0, "insert-iter", "emplace_front_iter returned position %zu", pos);
						m.insert(m.begin() + pos, a);
					}
					return;
				}
				[[fallthrough]];
			default:
				if constexpr (K != SEQ)
					add_middle(x);
				return;
		}
	}
	size_t mid_pos(size_t n)
	{
		switch (r.below(6)) {
			case 0: return 0;
			case 1: return n;
			case 2: return std::min(n, r.below(4));
			case 3: return n - std::min(n, r.below(4));
			default: return r.below(n + 1);
		}
	}
	void add_middle(Obj& x)
	{
		V& v = *x.v;
		M& m = x.m;
		size_t n = m.size();
		size_t p = mid_pos(n);
		switch (r.below(9)) {
			case 0:
			case 1:
			case 2: {
				size_t k = 1 + r.below(5);
				for (size_t i = 0; i < k; ++i) {
					int64_t a = fresh();
					p = mid_pos(m.size());
					if (copyable && r.coin()) {
						c.op("insert(pos,const&)", p, a);
						if constexpr (copyable) {
							const T t = mk<T>(a);
							auto it = v.insert(at_it(v, p), t);
							m.insert(m.begin() + p, a);
							c.check(index_of(v, it) == p && val(*it) == a, "insert-iter", "insert at %zu returned position %zu", p, index_of(v, it));
						}
					}
					else {
						c.op("insert(pos,&&)", p, a);
						auto it = v.insert(at_it(v, p), mk<T>(a));
						m.insert(m.begin() + p, a);
						c.check(index_of(v, it) == p && val(*it) == a, "insert-iter", "insert at %zu returned position %zu", p, index_of(v, it));
					}
				}
				return;
			}
			case 3: {
				int64_t a = fresh();
				c.op("emplace(pos)", p, a);
				if constexpr (K == TV) {
					auto& ref = r.coin() ? v.emplace(at_it(v, p), mk<T>(a)) : v.emplace(p, mk<T>(a));
					m.insert(m.begin() + p, a);
					c.check(val(ref) == a && &ref == &v[p], "emplace-ref", "emplace at %zu returned another element", p);
				}
				else {
					auto it = v.emplace(at_it(v, p), mk<T>(a));
					m.insert(m.begin() + p, a);
					c.check(index_of(v, it) == p && val(*it) == a, "insert-iter", "emplace at %zu returned position %zu", p, index_of(v, it));
				}
				return;
			}
			case 4:
			case 5:
			case 6: { // ranges
				size_t k = room(m, bulk());
				auto xs = fresh_n(k);
				auto src = mkv(xs);
				unsigned kind = static_cast<unsigned>(r.below(4));
				c.op("insert(pos,range)", p, k, kind);
				if constexpr (!copyable) {
					auto it = v.insert(at_it(v, p), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
					m.insert(m.begin() + p, xs.begin(), xs.end());
					c.check(index_of(v, it) == p, "insert-iter", "range insert at %zu returned position %zu", p, index_of(v, it));
				}
				else {
					It it;
					const T* b = src.data();
					using F = WeakIt<T, std::forward_iterator_tag>;
					using B = WeakIt<T, std::bidirectional_iterator_tag>;
					if (kind == 0)
						it = v.insert(at_it(v, p), src.begin(), src.end());
					else if (kind == 1)
						it = v.insert(at_it(v, p), F{ b }, F{ b + k });
					else if (kind == 2)
						it = v.insert(at_it(v, p), B{ b }, B{ b + k });
					else
						it = v.insert(at_it(v, p), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
					m.insert(m.begin() + p, xs.begin(), xs.end());
					c.check(index_of(v, it) == p, "insert-iter", "range insert at %zu returned position %zu", p, index_of(v, it));
				}
				return;
			}
			case 7:
				if constexpr (copyable) {
					size_t k = room(m, bulk());
					int64_t a = fresh();
					const T t = mk<T>(a);
					c.op("insert(pos,n,v)", p, k, a);
					auto it = v.insert(at_it(v, p), k, t);
					m.insert(m.begin() + p, k, a);
					c.check(index_of(v, it) == p, "insert-iter", "insert n at %zu returned position %zu", p, index_of(v, it));
				}
				return;
			default:
				if constexpr (copyable) {
					int64_t a = fresh(), b = fresh(), d = fresh();
					const T ta = mk<T>(a), tb = mk<T>(b), td = mk<T>(d);
					c.op("insert(pos,il)", p, a, b, d);
					std::initializer_list<T> il = { ta, tb, td };
					auto it = v.insert(at_it(v, p), il);
					int64_t e[] = { a, b, d };
					m.insert(m.begin() + p, e, e + 3);
					c.check(index_of(v, it) == p, "insert-iter", "il insert at %zu returned position %zu", p, index_of(v, it));
				}
				return;
		}
	}
	void remove(Obj& x)
	{
		V& v = *x.v;
		M& m = x.m;
		size_t n = m.size();
		strong_ok = false;
		if (!n)
			return;
		switch (r.below(9)) {
			case 0:
			case 1: {
				size_t k = 1 + r.below(std::min<size_t>(n, 12));
				c.op("pop_back", k);
				for (size_t i = 0; i < k; ++i) {
					v.pop_back();
					m.pop_back();
				}
				return;
			}
			case 2:
			case 3: {
				size_t k = 1 + r.below(std::min<size_t>(n, 12));
				c.op("pop_front", k);
				for (size_t i = 0; i < k; ++i) {
					v.pop_front();
					m.erase(m.begin());
				}
				return;
			}
			case 4:
			case 5: {
				size_t k = 1 + r.below(std::min<size_t>(n, 6));
				for (size_t i = 0; i < k; ++i) {
					size_t p = std::min(mid_pos(m.size()), m.size() - 1);
					c.op("erase(pos)", p);
					auto it = v.erase(at_it(v, p));
					m.erase(m.begin() + p);
					c.check(index_of(v, it) == p, "erase-iter", "erase at %zu returned position %zd of %zu", p, (ssize_t)index_of(v, it), m.size());
				}
				return;
			}
			case 6: {
				size_t p = mid_pos(n), k = std::min(n - p, r.coin() ? r.below(8) : bulk());
				c.op("erase(range)", p, k);
				auto it = v.erase(at_it(v, p), at_it(v, p + k));
				m.erase(m.begin() + p, m.begin() + p + k);
				c.check(index_of(v, it) == p, "erase-iter", "erase range at %zu returned position %zd of %zu", p, (ssize_t)index_of(v, it), m.size());
				return;
			}
			case 7: {
				size_t k = n - std::min(n, bulk());
				c.op("resize-down", k);
				if constexpr (copyable && !std::is_same<T, std::unique_ptr<int64_t>>::value) {
					const T t = mk<T>(1);
					if (r.coin())
						v.resize(k, t);
					else
						v.resize(k, t);
					m.resize(k);
				}
				return;
			}
			default: {
				size_t k = n - std::min(n, bulk());
				if constexpr (copyable) {
					c.op("resize_front-down", k);
					const T t = mk<T>(1);
					v.resize_front(k, t);
					m.erase(m.begin(), m.begin() + (n - k));
				}
				return;
			}
		}
	}
	void misc(Obj& x)
	{
		V& v = *x.v;
		M& m = x.m;
		size_t n = m.size();
		strong_ok = false;
		switch (r.below(12)) {
			case 0:
				c.op("shrink_to_fit");
				if constexpr (K != TV) {
					strong_ok = true;
					v.shrink_to_fit();
					if constexpr (K == DEV)
						c.check(v.capacity() == n, "shrink", "capacity %zu after shrink_to_fit of %zu", v.capacity(), n);
				}
				return;
			case 1: {
				size_t k = r.below(n + 100);
				c.op("reserve", k);
				if constexpr (K != TV) {
					strong_ok = true;
					v.reserve(k);
				}
				if constexpr (K == DEV)
					c.check(v.capacity() >= k, "reserve", "capacity %zu after reserve(%zu)", v.capacity(), k);
				return;
			}
			case 2:
				if constexpr (K == DEV) {
					size_t k = r.below(n + 60);
					c.op("reserve_back", k);
					v.reserve_back(k);
					c.check(v.back_capacity() >= k, "reserve", "back capacity %zu after reserve_back(%zu)", v.back_capacity(), k);
				}
				return;
			case 3:
				if constexpr (K == DEV) {
					size_t k = r.below(n + 60);
					c.op("reserve_front", k);
					v.reserve_front(k);
					c.check(v.front_capacity() >= k, "reserve", "front capacity %zu after reserve_front(%zu)", v.front_capacity(), k);
					c.check(v.front_capacity() + v.size() + v.back_capacity() == v.capacity(), "capacity", "capacities do not add up");
				}
				return;
			case 4:
				if constexpr (copyable) {
					size_t k = std::min(bulk(), target * 2 + 8);
					auto xs = fresh_n(k);
					auto src = mkv(xs);
					unsigned kind = static_cast<unsigned>(r.below(3));
					c.op("assign(range)", k, kind);
					const T* b = src.data();
					using F = WeakIt<T, std::forward_iterator_tag>;
					if (kind == 0)
						v.assign(src.begin(), src.end());
					else if (kind == 1)
						v.assign(F{ b }, F{ b + k });
					else {
						std::list<T> l(src.begin(), src.end());
						v.assign(l.begin(), l.end());
					}
					m = xs;
				}
				return;
			case 5:
				if constexpr (copyable) {
					size_t k = std::min(bulk(), target * 2 + 8);
					int64_t a = fresh();
					const T t = mk<T>(a);
					if (r.coin()) {
						c.op("assign(n,v)", k, a);
						v.assign(k, t);
						m.assign(k, a);
					}
					else {
						c.op("assign(il)", a);
						v.assign({ t, t, t });
						m.assign(3, a);
					}
				}
				return;
			case 6:
				if (r.below(4) == 0) {
					c.op("clear");
					v.clear();
					m.clear();
				}
				return;
			case 7: { // writes through accessors
				if (!n)
					return;
				size_t i = r.below(n);
				int64_t a = fresh();
				c.op("write", i, a);
				{
					T t = mk<T>(a);
					*at_it(v, i) = std::move(t);
				}
				m[i] = a;
				if (r.below(4) == 0) {
					int64_t b = fresh();
					T t = mk<T>(b);
					v.back() = std::move(t);
					m.back() = b;
				}
				return;
			}
			case 8:
				if constexpr (K != SEQ) {
					c.op("at-out-of-range");
					bool thrown = false;
					size_t bad = n + (r.coin() ? 0 : r.below(1000));
					try {
						const V& cv = v;
						if (r.coin())
							(void)v.at(bad);
						else
							(void)cv.at(bad);
					}
					catch (const std::out_of_range&) {
						thrown = true;
					}
					c.check(thrown, "at", "at(%zu) on size %zu did not throw", bad, n);
				}
				return;
			case 9: { // standard algorithms through iterators
				if constexpr (K != SEQ && !(Opts & FAULTS)) {
					auto cmp = [](const T& a, const T& b) { return val(a) < val(b); };
					switch (r.below(4)) {
						case 0:
							c.op("std::sort");
							std::sort(v.begin(), v.end(), cmp);
							std::sort(m.begin(), m.end());
							break;
						case 1:
							c.op("std::reverse");
							std::reverse(v.begin(), v.end());
							std::reverse(m.begin(), m.end());
							break;
						case 2: {
							size_t k = r.below(n + 1);
							c.op("std::rotate", k);
							auto it = std::rotate(v.begin(), v.begin() + k, v.end());
							std::rotate(m.begin(), m.begin() + k, m.end());
							c.check(index_of(v, it) == n - k, "rotate", "rotate result");
							break;
						}
						default: {
							int64_t cut = static_cast<int64_t>(r.below(target + 1));
							c.op("std::remove_if", cut);
							auto it = std::remove_if(v.begin(), v.end(), [&](const T& a) { return val(a) % 3 == cut % 3; });
							v.erase(it, v.end());
							m.erase(std::remove_if(m.begin(), m.end(), [&](int64_t a) { return a % 3 == cut % 3; }), m.end());
						}
					}
				}
				else if constexpr (K == SEQ && !(Opts & FAULTS)) {
					sort_seq(v, m);
				}
				return;
			}
			case 10:
				if constexpr (K == TV) { // position based overloads
					size_t p = mid_pos(n);
					if constexpr (copyable) {
						int64_t a = fresh();
						c.op("insert(index)", p, a);
						switch (r.below(4)) {
							case 0: {
								const T t = mk<T>(a);
								v.insert(p, t);
								m.insert(m.begin() + p, a);
								break;
							}
							case 1:
								v.insert(p, mk<T>(a));
								m.insert(m.begin() + p, a);
								break;
							case 2: {
								auto xs = fresh_n(room(m, bulk()));
								auto src = mkv(xs);
								v.insert(p, src.begin(), src.end());
								m.insert(m.begin() + p, xs.begin(), xs.end());
								break;
							}
							default: {
								size_t k = room(m, bulk());
								const T t = mk<T>(a);
								v.insert(p, k, t);
								m.insert(m.begin() + p, k, a);
							}
						}
					}
				}
				return;
			default:
				if constexpr (K == TV) {
					if (!n)
						return;
					size_t p = r.below(n);
					size_t k = r.below(std::min<size_t>(n - p, 70) + 1);
					if (r.coin()) {
						c.op("erase(index)", p);
						v.erase(p);
						m.erase(m.begin() + p);
					}
					else {
						c.op("erase(index,index)", p, p + k);
						v.erase(p, p + k);
						m.erase(m.begin() + p, m.begin() + p + k);
					}
				}
		}
	}
	void sort_seq(V& v, M& m)
	{
		if constexpr (std::is_default_constructible<T>::value && copyable && K == SEQ) {
			unsigned kind = static_cast<unsigned>(r.below(3));
			c.op("sort", kind);
			if (kind == 0) {
				v.sort([](const T& a, const T& b) { return val(a) < val(b); });
				std::sort(m.begin(), m.end());
			}
			else if (kind == 1) {
				v.sort([](const T& a, const T& b) { return val(a) > val(b); });
				std::sort(m.begin(), m.end(), std::greater<int64_t>());
			}
			else {
				v.sort([](const T& a, const T& b) { return val(a) / 4 < val(b) / 4; });
				std::stable_sort(m.begin(), m.end(), [](int64_t a, int64_t b) { return a / 4 < b / 4; });
			}
		}
	}
	void want_alloc(const V& v, const A& a, const char* what) { c.check(v.get_allocator() == a, "allocator-propagation", "wrong allocator after %s", what); }
	// operations on whole containers
	void whole(size_t i)
	{
		size_t j = (i + 1 + r.below(2)) % 3;
		Obj &x = o[i], &y = o[j];
		strong_ok = false;
		switch (r.below(10)) {
			case 0:
				if constexpr (copyable) {
					c.op("copy-construct", i);
					V w(*x.v);
					{
						Pause p;
						deep(w, x.m);
					}
					want_alloc(w, std::allocator_traits<A>::select_on_container_copy_construction(x.v->get_allocator()), "copy construction");
					if (r.coin() && x.m.size()) {
						// independence
						w.pop_back();
						quick(*x.v, x.m);
					}
				}
				return;
			case 1:
				if constexpr (copyable) {
					c.op("copy-assign", i, j);
					const A want = std::allocator_traits<A>::propagate_on_container_copy_assignment::value ? x.v->get_allocator() : y.v->get_allocator();
					*y.v = *x.v;
					y.m = x.m;
					want_alloc(*y.v, want, "copy assignment");
					deep(*y.v, y.m);
					deep(*x.v, x.m);
				}
				return;
			case 2: {
				c.op("move-construct", i);
				const A want = x.v->get_allocator();
				V* w = new V(std::move(*x.v));
				V* old = x.v;
				x.v = w;
				want_alloc(*w, want, "move construction");
				deep(*x.v, x.m);
				// the moved-from object is valid: reuse it, then destroy it
				old->clear();
				M none;
				quick(*old, none);
				if (r.coin()) {
					int64_t a = fresh();
					try {
						old->push_back(mk<T>(a));
						M one{ a };
						quick(*old, one);
					}
					catch (const Injected&) {
					}
				}
				delete old;
				return;
			}
			case 3: {
				c.op("move-assign", i, j);
				const A want = std::allocator_traits<A>::propagate_on_container_move_assignment::value ? x.v->get_allocator() : y.v->get_allocator();
				*y.v = std::move(*x.v);
				y.m = x.m;
				want_alloc(*y.v, want, "move assignment");
				deep(*y.v, y.m);
				x.v->clear();
				x.m.clear();
				quick(*x.v, x.m);
				return;
			}
			case 4:
			case 5: {
				if constexpr (!(Opts & ALLOCS) || std::allocator_traits<A>::propagate_on_container_swap::value) {
					c.op("swap", i, j);
					const A ax = x.v->get_allocator(), ay = y.v->get_allocator();
					x.v->swap(*y.v);
					want_alloc(*x.v, ay, "swap");
					want_alloc(*y.v, ax, "swap");
					std::swap(x.m, y.m);
					deep(*y.v, y.m);
				}
				return;
			}
			case 6:
				if constexpr (copyable) {
					c.op("self-assign", i);
					V& alias = *x.v;
					*x.v = alias;
					deep(*x.v, x.m);
				}
				return;
			case 7:
				if constexpr (copyable) {
					c.op("copy-construct-alloc", i);
					V w(*x.v, make_alloc(5));
					Pause p;
					deep(w, x.m);
					want_alloc(w, make_alloc(5), "copy construction with allocator");
				}
				return;
			case 8: {
				unsigned same = r.coin();
				c.op("move-construct-alloc", i, same);
				if constexpr (std::is_default_constructible<T>::value) {
					const A want = same ? x.v->get_allocator() : make_alloc(6);
					V w(std::move(*x.v), want);
					{
						Pause p;
						deep(w, x.m);
					}
					want_alloc(w, want, "move construction with allocator");
					x.v->clear();
					x.m.clear();
				}
				return;
			}
			default:
				if constexpr (copyable) {
					size_t k = std::min(bulk(), target + 8);
					auto xs = fresh_n(k);
					auto src = mkv(xs);
					unsigned kind = static_cast<unsigned>(r.below(4));
					c.op("construct", k, kind);
					Pause* pz = nullptr;
					(void)pz;
					if (kind == 0) {
						V w(src.begin(), src.end(), make_alloc(2));
						Pause p;
						deep(w, xs);
					}
					else if (kind == 1) {
						std::list<T> l(src.begin(), src.end());
						V w(l.begin(), l.end(), make_alloc(2));
						Pause p;
						deep(w, xs);
					}
					else if (kind == 2) {
						const T t = mk<T>(7);
						V w(k, t, make_alloc(2));
						Pause p;
						M e(k, 7);
						deep(w, e);
					}
					else {
						const T t = mk<T>(7), u = mk<T>(9);
						V w({ t, u }, make_alloc(2));
						Pause p;
						M e{ 7, 9 };
						deep(w, e);
					}
				}
				return;
		}
	}

	// ---- fault injection: after a throw the container must be readable and every element valid
	static int64_t raw(const int64_t& v) { return v; }
	template<bool X, bool Y, bool Z>
	static int64_t raw(const Trk<X, Y, Z>& t)
	{
		t.check();
		return t.v;
	}
	template<class U>
	static int64_t raw(const U& u)
	{
		return val(u);
	}
	void resync(size_t i)
	{
		V& v = *o[i].v;
		M m;
		size_t n = 0, lim = v.size();
		for (auto it = v.begin(); it != v.end(); ++it, ++n) {
			c.check(n < lim, "fault-iter", "after a throw iteration passes size() %zu", lim);
			int64_t x = raw(*it);
			if (x == MovedFrom) {
				x = fresh();
				T t = mk<T>(x);
				*it = std::move(t);
			}
			m.push_back(x);
		}
		c.check(n == lim, "fault-size", "after a throw size() is %zu but iteration sees %zu", lim, n);
		o[i].m = m;
		deep(v, o[i].m);
	}
	void faulty_step()
	{
		M before[3] = { o[0].m, o[1].m, o[2].m };
		static const unsigned masks[] = { Fault::AllocF, Fault::Copy | Fault::Ctor, Fault::Assign | Fault::Copy, Fault::Move | Fault::MoveAssign, ~0u };
		unsigned mask = masks[r.below(5)];
		int64_t n = 1 + static_cast<int64_t>(r.below(r.coin() ? 4 : 40));
		Fault::arm(n, mask);
		strong_ok = false;
		try {
			step();
			Fault::disarm();
		}
		catch (const Injected&) {
			Fault::disarm();
			MON_COUNT("injected_exceptions", 1);
			c.op("threw", mask, n);
			for (size_t i = 0; i < 3; ++i) {
				M model = o[i].m;
				resync(i);
				if ((Opts & STRONG) && strong_ok) {
					MON_COUNT("strong_guarantee_checks", 1);
					c.check(o[i].m == model, "strong", "content changed by an operation that threw (size %zu to %zu)", model.size(), o[i].m.size());
				}
			}
		}
	}
	void run(size_t steps)
	{
		for (size_t s = 0; s < steps; ++s) {
			if ((Opts & FAULTS) && r.below(3) == 0)
				faulty_step();
			else
				step();
		}
		for (auto& x : o)
			deep(*x.v, x.m);
	}
};

template<class V, Kind K, unsigned Opts>
void run_case(Ctx& c)
{
	Tester<V, K, Opts> t(c);
	t.run(20 + t.r.below(60));
}

} // namespace lin
