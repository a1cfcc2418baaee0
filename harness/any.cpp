// C27: histories over hold_any of many held types, buffer sizes and alignments, against a model of (type, value) slots.
#include "mon.hpp"
#include <seq/any.hpp>
#include <seq/tiny_string.hpp>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
using namespace mon;

#ifndef PART
#define PART 0
#endif

// ---------------------------------------------------------------- held types
// 8 bytes, knows its own address: a byte copy or a misplaced destructor call is visible
struct Self8
{
	uint64_t enc;
	static uint64_t key(const void* p) { return uint64_t(uintptr_t(p)) * 0x9E3779B97F4A7C15ull; }
	explicit Self8(int64_t v)
	  : enc(uint64_t(v) ^ key(this))
	{
		++Live::count();
	}
	Self8(const Self8& o)
	  : enc(uint64_t(o.get()) ^ key(this))
	{
		++Live::count();
	}
	Self8& operator=(const Self8& o)
	{
		enc = uint64_t(o.get()) ^ key(this);
		return *this;
	}
	~Self8()
	{
		get();
		enc = 0xDEADDEADDEADDEADull;
		--Live::count();
	}
	int64_t get() const
	{
		int64_t v = int64_t(enc ^ key(this));
		if (v < -4000000 || v > 4000000)
			element_violation("byte-moved", this, 0, v);
		return v;
	}
};
template<size_t Al>
struct alignas(Al) Aligned
{
	int64_t v;
	char pad[3] = { 1, 2, 3 };
	explicit Aligned(int64_t x)
	  : v(x)
	{
	}
	~Aligned() { v = -1; }
	Aligned(const Aligned&) = default;
	Aligned& operator=(const Aligned&) = default;
};
struct NoAssign // neither assignable nor default constructible
{
	const int64_t v;
	std::string s;
	explicit NoAssign(int64_t x)
	  : v(x), s(key_string(x))
	{
	}
	NoAssign(const NoAssign&) = default;
};
struct NoAssignSmall // fits in the smallest buffer, trivially copyable, not assignable
{
	const int32_t v;
	explicit NoAssignSmall(int64_t x)
	  : v(int32_t(x))
	{
	}
};
struct MoveAssignOnly // copy constructible, but only move assignable
{
	std::string s;
	explicit MoveAssignOnly(int64_t x)
	  : s(key_string(x))
	{
	}
	MoveAssignOnly(const MoveAssignOnly&) = default;
	MoveAssignOnly(MoveAssignOnly&&) = default;
	MoveAssignOnly& operator=(MoveAssignOnly&&) = default;
};
struct Big
{
	int64_t a[9];
	explicit Big(int64_t x)
	{
		for (int i = 0; i < 9; ++i)
			a[i] = x * 31 + i;
	}
};
struct Empty1
{
};
#define NOHASH(...)                                                                                                                                                                                    \
	template<>                                                                                                                                                                                     \
	struct seq::is_hashable<__VA_ARGS__> : std::false_type                                                                                                                                                 \
	{                                                                                                                                                                                              \
	};
NOHASH(Self8)
NOHASH(Aligned<32>)
NOHASH(Aligned<64>)
NOHASH(NoAssign)
NOHASH(NoAssignSmall)
NOHASH(MoveAssignOnly)
NOHASH(Big)
NOHASH(Empty1)
NOHASH(TNoReloc)
NOHASH(TReloc)
NOHASH(TThrow)
NOHASH(TRelocThrow)
NOHASH(TrkMO<true>)
NOHASH(TrkMO<false>)
NOHASH(std::vector<int64_t>)

static int g_ints[64];
static char g_text[64][8];
template<class T>
struct H // how to make and read a held type
{
	static T make(int64_t v) { return T(v); }
	static int64_t val(const T& t) { return t.v; }
};
#define HELD(T, MAKE, VAL)                                                                                                                                                                             \
	template<>                                                                                                                                                                                     \
	struct H<T>                                                                                                                                                                                    \
	{                                                                                                                                                                                              \
		static T make(int64_t v) { return MAKE; }                                                                                                                                              \
		using X = T;                                                                                                                                                                           \
		static int64_t val(const X& t) { return VAL; }                                                                                                                                         \
	};
HELD(bool, (v & 1) != 0, t)
HELD(char, char(v), t)
HELD(int, int(v), t)
HELD(float, float(v), int64_t(t))
HELD(double, double(v), int64_t(t))
HELD(long double, (long double)(v), int64_t(t))
HELD(uint64_t, uint64_t(v), int64_t(t))
HELD(std::string, key_string(v), mon::val(t))
HELD(seq::tstring, seq::tstring(key_string(v).c_str()), mon::val(std::string(t.data(), t.size())))
HELD(std::unique_ptr<int64_t>, std::unique_ptr<int64_t>(new int64_t(v)), t ? *t : INT64_MIN)
HELD(std::shared_ptr<int64_t>, std::make_shared<int64_t>(v), t ? *t : INT64_MIN)
HELD(std::vector<int64_t>, std::vector<int64_t>(1 + size_t(v & 7), v), (t.size() == 1 + size_t(t.at(0) & 7) ? t.back() : INT64_MIN))
HELD(int*, g_ints + (v & 63), t - g_ints)
HELD(const char*, g_text[v & 63], (t - g_text[0]) / 8)
HELD(Self8, Self8(v), t.get())
HELD(MoveAssignOnly, MoveAssignOnly(v), mon::val(t.s))
HELD(NoAssign, NoAssign(v), (mon::val(t.s) == t.v ? t.v : INT64_MIN))
HELD(Big, Big(v), t.a[0] / 31)
template<bool R, bool N>
struct H<Trk<R, N>>
{
	static Trk<R, N> make(int64_t v) { return Trk<R, N>(v); }
	static int64_t val(const Trk<R, N>& t) { return t.get(); }
};
template<bool R>
struct H<TrkMO<R>>
{
	static TrkMO<R> make(int64_t v) { return TrkMO<R>(v); }
	static int64_t val(const TrkMO<R>& t) { return t.get(); }
};
// value a held type gives back for a stored number
template<class T>
static int64_t norm(int64_t v)
{
	if (std::is_same_v<T, bool>)
		return v & 1;
	if (std::is_same_v<T, int*> || std::is_same_v<T, const char*>)
		return v & 63;
	if (std::is_same_v<T, char>)
		return char(v);
	return v;
}
template<class T>
static constexpr bool value_is_stable_after_move = std::is_trivially_copyable_v<T>;

enum
{
	None = -1,
	MovedFrom_ = -2, // holds a valid object of unknown value or nothing
};

template<class Any, class... Ts>
struct World
{
	static constexpr int N = sizeof...(Ts);
	using Tuple = std::tuple<Ts...>;
	struct Slot
	{
		int type = None;
		int64_t v = 0;
	};
	Ctx& c;
	std::vector<std::unique_ptr<Any>> a;
	std::vector<Slot> m;

	World(Ctx& ctx, size_t n)
	  : c(ctx), m(n)
	{
		for (size_t i = 0; i < n; ++i)
			a.emplace_back(new Any());
	}

	template<class F>
	static void with_type(int t, F f)
	{
		int k = 0;
		int dummy[] = { 0, (k++ == t ? (f((std::add_pointer_t<Ts>)nullptr), 0) : 0)... };
		(void)dummy;
	}

	template<class T>
	void verify_as(const Any& x, int64_t v, const char* who)
	{
		c.check(x.has_value() && bool(x) && !x.empty(), "lost-value", "%s: the object is empty", who);
		c.check(x.type() == Any::template get_type<T>(), "type", "%s: the object does not have the type last stored", who);
		c.check(x.type_id() == seq::get_type_id<T>(), "type-id", "%s: type_id() is %d, not the one of the held type", who, x.type_id());
		c.check(x.sizeof_type() == sizeof(T), "sizeof", "%s: sizeof_type() %zu expected %zu", who, x.sizeof_type(), sizeof(T));
		const void* d = x.data();
		c.check(uintptr_t(d) % alignof(T) == 0, "alignment", "%s: object of alignment %zu stored at %p", who, alignof(T), d);
		const char* lo = reinterpret_cast<const char*>(&x);
		bool inside = static_cast<const char*>(d) >= lo && static_cast<const char*>(d) < lo + sizeof(x);
		bool small = PART != 3 && sizeof(T) <= Any::static_size && alignof(T) <= alignof(Any) && (!Any::relocatable || seq::is_relocatable<T>::value);
		c.check(!inside || static_cast<const char*>(d) + sizeof(T) <= lo + sizeof(x), "overlap", "%s: the held object goes past the end of its hold_any", who);
		c.check(!(small && std::is_trivially_copyable_v<T> && sizeof(T) <= 8 && alignof(T) <= 8) || inside, "small-buffer", "%s: a small object is not in the small buffer", who);
		c.check(!(Any::relocatable && !seq::is_relocatable<T>::value) || !inside, "relocatable", "%s: a non relocatable object is inside a relocatable hold_any", who);
		int64_t got = H<T>::val(*static_cast<const T*>(d));
		c.check(got == norm<T>(v), "value", "%s: value %lld expected %lld", who, (long long)got, (long long)norm<T>(v));
		MON_COUNT("verified values", 1);
	}
	template<class T>
	void casts(Any& x, int64_t v)
	{
		const Any& k = x;
		c.check(&x.template cast<T&>() == x.data(), "cast-ref", "cast<T&>() is not the held object");
		c.check(H<T>::val(seq::any_cast<T&>(x)) == norm<T>(v), "any_cast-ref", "any_cast<T&>");
		c.check(seq::any_cast<T>(&x) == x.data(), "any_cast-pointer", "any_cast<T>(&a) is not the held object");
		c.check(seq::any_cast<T>(&k) == x.data(), "any_cast-pointer", "any_cast<T>(&const a) is not the held object");
		c.check(seq::any_cast<T>((Any*)nullptr) == nullptr, "any_cast-pointer", "any_cast of a null pointer");
		c.check(seq::any_cast<Empty1>(&x) == nullptr, "any_cast-pointer", "any_cast<other>(&a) is not null");
		if constexpr (std::is_copy_constructible_v<T>) {
			const T& r = k.template cast<const T&>();
			c.check(static_cast<const void*>(&r) == x.data(), "cast-ref", "cast<const T&>() is not the held object");
			c.check(H<T>::val(x.template cast<T>()) == norm<T>(v), "cast", "cast<T>() gives another value");
		}
		bool thrown = false;
		try {
			x.template cast<Big&>();
		}
		catch (const std::bad_cast&) {
			thrown = true;
		}
		c.check(thrown == !std::is_same_v<T, Big>, "bad-cast", "cast to an unrelated type: thrown %d", thrown);
		thrown = false;
		try {
			k.template cast<MoveAssignOnly>();
		}
		catch (const std::bad_cast&) {
			thrown = true;
		}
		c.check(thrown == !std::is_same_v<T, MoveAssignOnly>, "bad-cast", "cast to an unrelated type: thrown %d", thrown);
	}
	void verify(size_t i, const char* who, bool deep = false)
	{
		Slot& s = m[i];
		Any& x = *a[i];
		if (s.type == MovedFrom_)
			return;
		if (s.type == None) {
			c.check(x.empty() && !x.has_value() && !bool(x) && x.type() == nullptr && x.type_id() == 0 && x.sizeof_type() == 0, "not-empty", "%s: the object should be empty", who);
			if (deep) {
				bool thrown = false;
				try {
					x.template cast<int>();
				}
				catch (const std::bad_cast&) {
					thrown = true;
				}
				c.check(thrown && !seq::any_cast<int>(&x), "bad-cast", "cast of an empty object");
			}
			return;
		}
		with_type(s.type, [&](auto* p) {
			using T = std::remove_pointer_t<decltype(p)>;
			verify_as<T>(x, s.v, who);
			if (deep)
				casts<T>(x, s.v);
		});
	}
	// state of a moved-from object
	void moved_from(size_t i)
	{
		Slot& s = m[i];
		Any& x = *a[i];
		if (s.type == None)
			c.check(x.empty(), "moved-from", "moving an empty object gave it a value");
		else if (x.empty())
			s.type = None;
		else {
			bool stable = false;
			if (s.type >= 0)
				with_type(s.type, [&](auto* p) {
					using T = std::remove_pointer_t<decltype(p)>;
					c.check(x.type() == Any::template get_type<T>(), "moved-from", "a moved-from object changed its type");
					stable = value_is_stable_after_move<T>;
				});
			if (!stable)
				s.type = MovedFrom_;
		}
	}

	void run(unsigned nops, bool faults)
	{
		Rng& r = c.rng;
		const size_t n = m.size();
		for (unsigned o = 0; o < nops; ++o) {
			size_t i = r.below(n), j = r.below(n);
			int t = int(r.below(N));
			int64_t v = int64_t(r.below(2000)) - 500;
			bool fault = faults && r.pct(30);
			unsigned mask = fault ? (Fault::Ctor | Fault::Copy | Fault::Move | Fault::Assign | Fault::MoveAssign) : 0;
			int64_t at = 1 + r.below(3);
			unsigned kind = r.below(16);
			static const char* const names[] = { "assign lvalue", "assign rvalue", "emplace", "reset", "copy assign", "move assign", "swap", "copy construct", "move construct",
							     "construct lvalue", "construct rvalue", "assign own value", "self assign", "vector", "deep check", "clear by empty" };
			const char* who = names[kind];
			c.op(who, i, j, t, v);
			bool threw = false;
			auto arm = [&] {
				if (fault)
					Fault::arm(at, mask);
			};
			auto caught = [&](auto f) {
				try {
					f();
					Fault::disarm();
				}
				catch (const Injected&) {
					Fault::disarm();
					threw = true;
					MON_COUNT("injected exceptions", 1);
				}
			};
			// after a failed operation on slot k: any state, but a valid one
			auto unknown = [&](size_t k) {
				m[k].type = a[k]->empty() ? int(None) : int(MovedFrom_);
			};
			switch (kind) {
				case 0:
				case 1:
				case 2:
				case 9:
				case 10:
					with_type(t, [&](auto* p) {
						using T = std::remove_pointer_t<decltype(p)>;
						if constexpr (!std::is_copy_constructible_v<T>) {
							if (kind == 0)
								kind = 1;
							if (kind == 9)
								kind = 10;
						}
						T value(H<T>::make(v));
						int64_t nv = v;
						arm();
						caught([&] {
							if (kind == 0) {
								if constexpr (std::is_copy_constructible_v<T>)
									*a[i] = value;
							}
							else if (kind == 1) {
								*a[i] = std::move(value);
							}
							else if (kind == 2) {
								T& res = a[i]->template emplace<T>(std::move(value));
								if (static_cast<void*>(&res) != a[i]->data())
									c.fail("emplace", "emplace() does not return the held object");
							}
							else if (kind == 9) {
								if constexpr (std::is_copy_constructible_v<T>) {
									std::unique_ptr<Any> x(new Any(value));
									a[i] = std::move(x);
								}
							}
							else {
								std::unique_ptr<Any> x(new Any(std::move(value)));
								a[i] = std::move(x);
							}
						});
						if (!threw) {
							m[i].type = t;
							m[i].v = nv;
							if constexpr (std::is_copy_constructible_v<T>)
								if (kind == 0 || kind == 9)
									c.check(H<T>::val(value) == norm<T>(v), "source-changed", "%s: the stored lvalue was modified", who);
						}
						else if (kind < 3)
							unknown(i); // construction failures leave the slot alone
					});
					break;
				case 3:
					a[i]->reset();
					m[i].type = None;
					break;
				case 4:
				case 7: { // copies
					if (m[j].type == MovedFrom_)
						break;
					bool copyable = true;
					if (m[j].type >= 0)
						with_type(m[j].type, [&](auto* p) { copyable = std::is_copy_constructible_v<std::remove_pointer_t<decltype(p)>>; });
					bool refused = false;
					Slot before = m[i];
					arm();
					caught([&] {
						try {
							if (kind == 4)
								*a[i] = *a[j];
							else {
								std::unique_ptr<Any> x(new Any(*static_cast<const Any*>(a[j].get())));
								a[i] = std::move(x);
							}
						}
						catch (const std::bad_function_call&) {
							refused = true;
						}
					});
					if (i == j && kind == 4 && copyable && !threw)
						;
					else if (!copyable) {
						c.check(refused || threw || (i == j && kind == 4), "move-only-copied", "%s: an object holding a move-only value was copied", who);
						m[i] = before;
						if (threw)
							unknown(i);
					}
					else {
						c.check(!refused, "copy-refused", "%s: std::bad_function_call for a copyable value", who);
						if (!threw)
							m[i] = m[j];
						else if (kind == 4)
							unknown(i);
					}
					if (i != j)
						verify(j, "source of a copy");
					break;
				}
				case 5: { // move assignment
					if (i == j)
						break;
					Slot s = m[j];
					// an unexpected exception would call std::terminate in relocatable types
					arm();
					caught([&] { *a[i] = std::move(*a[j]); });
					if (!threw) {
						m[i] = s;
						moved_from(j);
					}
					else {
						unknown(i);
						unknown(j);
					}
					break;
				}
				case 6:
					arm();
					caught([&] {
						if (r.coin())
							a[i]->swap(*a[j]);
						else
							std::swap(*a[i], *a[j]);
					});
					if (threw) {
						unknown(i);
						unknown(j);
					}
					else if (i != j)
						std::swap(m[i], m[j]);
					else if (m[i].type >= 0)
						verify(i, "swap with itself");
					break;
				case 8: { // move construction
					if (i == j)
						break;
					Slot s = m[j];
					arm();
					caught([&] {
						std::unique_ptr<Any> x(new Any(std::move(*a[j])));
						a[i] = std::move(x);
					});
					if (!threw) {
						m[i] = s;
						moved_from(j);
					}
					else
						unknown(j);
					break;
				}
				case 11: // assign from the object it holds
					if (m[i].type >= 0)
						with_type(m[i].type, [&](auto* p) {
							using T = std::remove_pointer_t<decltype(p)>;
							if constexpr (std::is_copy_constructible_v<T>) {
								T& own = a[i]->template cast<T&>();
								arm();
								caught([&] { *a[i] = static_cast<const T&>(own); });
								if (threw)
									unknown(i);
							}
						});
					break;
				case 12:
					if (m[i].type != MovedFrom_) {
						Any& x = *a[i];
						bool refused = false;
						arm();
						caught([&] {
							try {
								x = *static_cast<const Any*>(a[i].get());
							}
							catch (const std::bad_function_call&) {
								refused = true;
							}
						});
						if (threw)
							unknown(i);
					}
					break;
				case 13: { // growth of a vector of hold_any: moves and destroys many of them
					std::vector<Any> vec;
					std::vector<Slot> mv;
					caught([&] {
						arm();
						for (unsigned q = 0; q < 6; ++q) {
							size_t from = r.below(n);
							if (m[from].type == MovedFrom_ || m[from].type == None)
								continue;
							bool copyable = true;
							with_type(m[from].type, [&](auto* p) { copyable = std::is_copy_constructible_v<std::remove_pointer_t<decltype(p)>>; });
							if (!copyable)
								continue;
							vec.push_back(*a[from]);
							mv.push_back(m[from]);
						}
						if (r.coin())
							std::reverse(vec.begin(), vec.end()), std::reverse(mv.begin(), mv.end());
					});
					if (!threw)
						for (size_t q = 0; q < vec.size(); ++q)
							with_type(mv[q].type, [&](auto* p) { verify_as<std::remove_pointer_t<decltype(p)>>(vec[q], mv[q].v, "vector"); });
					break;
				}
				case 14:
					for (size_t k = 0; k < n; ++k)
						verify(k, who, true);
					break;
				default:
					arm();
					caught([&] { *a[i] = r.coin() ? Any() : std::move(*std::unique_ptr<Any>(new Any())); });
					if (threw)
						unknown(i);
					else
						m[i].type = None;
			}
			Fault::disarm();
			verify(i, who, kind == 14 || o % 16 == 0);
			verify(j, who);
			uint64_t h = 0;
			for (auto& s : m)
				h = mix(h, uint64_t(s.type));
			c.state(h);
		}
		for (size_t k = 0; k < n; ++k)
			verify(k, "end", true);
	}
};

NOHASH(std::vector<seq::any>)
NOHASH(std::vector<seq::r_any>)
template<class Any>
using Full = World<Any, bool, char, int, float, double, long double, uint64_t, std::string, seq::tstring, std::unique_ptr<int64_t>, std::shared_ptr<int64_t>, std::vector<int64_t>, int*, const char*, Self8,
		   Aligned<32>, Aligned<64>, NoAssign, NoAssignSmall, MoveAssignOnly, Big, TNoReloc, TReloc, TThrow, TRelocThrow, TrkMO<true>, TrkMO<false>>;
template<class Any>
using Few = World<Any, TNoReloc, TThrow, Self8, TrkMO<false>, std::string>;

template<class Any>
static void history(Ctx& c)
{
	Rng& r = c.rng;
	bool faults = r.pct(35);
	unsigned nops = 20 + r.below(80);
	if (r.coin()) {
		Full<Any> w(c, 2 + r.below(4));
		w.run(nops, faults);
	}
	else {
		Few<Any> w(c, 2 + r.below(3));
		w.run(nops, faults);
	}
	balance(c);
}

// ---------------------------------------------------------------- objects holding containers of themselves
struct Node
{
	bool leaf = true;
	int64_t v = 0;
	std::vector<Node> kids;
};
template<class Any>
static Any build(const Node& n, Rng& r)
{
	if (n.leaf)
		return n.v & 1 ? Any(key_string(n.v)) : Any(TNoReloc(n.v));
	std::vector<Any> v;
	for (auto& k : n.kids)
		v.push_back(build<Any>(k, r));
	return Any(std::move(v));
}
static Node tree(Rng& r, int depth)
{
	Node n;
	n.leaf = depth == 0 || r.pct(30);
	if (n.leaf)
		n.v = int64_t(r.below(1000));
	else
		for (unsigned k = 1 + r.below(3); k; --k)
			n.kids.push_back(tree(r, depth - 1));
	return n;
}
template<class Any>
static void same_tree(Ctx& c, const Any& a, const Node& n)
{
	if (n.leaf) {
		if (n.v & 1)
			c.check(a.template cast<const std::string&>() == key_string(n.v), "tree", "text of a leaf");
		else
			c.check(a.template cast<const TNoReloc&>().get() == n.v, "tree", "value of a leaf");
		return;
	}
	auto& v = a.template cast<const std::vector<Any>&>();
	c.check(v.size() == n.kids.size(), "tree", "%zu children expected %zu", v.size(), n.kids.size());
	for (size_t i = 0; i < v.size(); ++i)
		same_tree(c, v[i], n.kids[i]);
}
template<class Any>
static void nested(Ctx& c)
{
	Rng& r = c.rng;
	{
		Node n = tree(r, 3);
		n.leaf = false;
		if (n.kids.empty())
			n.kids.push_back(tree(r, 2));
		Any a = build<Any>(n, r);
		for (int o = 0; o < 6; ++o) {
			if (n.leaf)
				break;
			auto& v = a.template cast<std::vector<Any>&>();
			size_t k = r.below(v.size());
			unsigned kind = r.below(7);
			c.op("nested", kind, k, v.size());
			switch (kind) {
				case 0: // a child replaces its parent
				{
					if (!n.kids[k].leaf) // assigns a vector to the vector that owns it: left to std::vector
						break;
					Node nn = n.kids[k];
					a = v[k];
					n = nn;
					break;
				}
				case 1: {
					Node nn = n.kids[k];
					a = std::move(v[k]);
					n = nn;
					break;
				}
				case 2: { // the parent becomes one of its children
					if (!n.kids[k].leaf)
						break;
					Node nn = n;
					v[k] = a;
					n.kids[k] = nn;
					break;
				}
				case 3: {
					Node nn = n;
					v.push_back(a);
					n.kids.push_back(nn);
					break;
				}
				case 4: { // the value of a child
					if (!n.kids[k].leaf)
						break;
					Node nn = n.kids[k];
					if (nn.v & 1)
						a = v[k].template cast<std::string&>();
					else
						a = v[k].template cast<TNoReloc&>();
					n = nn;
					break;
				}
				case 5: {
					if (!n.kids[k].leaf)
						break;
					Node nn = n.kids[k];
					if (nn.v & 1)
						a = std::move(v[k].template cast<std::string&>());
					else
						a = std::move(v[k].template cast<TNoReloc&>());
					n = nn;
					break;
				}
				default:
					a = v; // assign its own value
			}
			same_tree(c, a, n);
		}
		Any b = a, d = std::move(a);
		same_tree(c, b, n);
		same_tree(c, d, n);
	}
	balance(c);
}
// ---------------------------------------------------------------- construction helpers
template<class Any>
static void make(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 4; ++k) {
		int64_t v = int64_t(r.below(1000));
		c.op("make_any", v);
		Any a = seq::make_any<Any, std::string>(size_t(v % 40), 'x');
		c.check(a.template cast<std::string&>() == std::string(size_t(v % 40), 'x'), "make_any", "string");
		Any b = seq::make_any<Any, std::vector<int64_t>>({ v, v + 1, v + 2 });
		c.check(b.template cast<std::vector<int64_t>&>() == std::vector<int64_t>({ v, v + 1, v + 2 }), "make_any", "initializer list");
		auto& q = b.template emplace<std::vector<int64_t>>({ v, v });
		c.check(&q == b.data() && q == std::vector<int64_t>({ v, v }), "emplace", "initializer list, same type");
		auto& q2 = a.template emplace<std::vector<int64_t>>({ v, v });
		c.check(&q2 == a.data() && q2 == std::vector<int64_t>({ v, v }), "emplace", "initializer list, other type");
		a.template emplace<TNoReloc>(v);
		c.check(a.template cast<TNoReloc&>().get() == v, "emplace", "one argument");
		b.template emplace<TNoReloc>();
		c.check(b.template cast<TNoReloc&>().get() == 0, "emplace", "no argument");
		// lambdas: not assignable
		int64_t cap = v;
		auto f = [cap, s = key_string(v)](int64_t x) { return x + cap + int64_t(s.size()); };
		using seq::any_cast;
		seq::nh_any g = f, h = g;
		g = h;
		h = f;
		h = std::move(g);
		c.check(seq::any_cast<decltype(f)&>(h)(7) == 7 + v + int64_t(key_string(v).size()), "lambda", "call of a held lambda");
		// arrays and functions decay
		Any s1 = "text";
		c.check(std::string(s1.template cast<const char*>()) == "text", "decay", "string literal");
		s1 = &g_ints[0];
		c.check(s1.template cast<int*>() == g_ints && s1.template cast<void*>() == g_ints, "pointer", "cast to void*");
	}
	balance(c);
}
#define REG(Any, tag, n)                                                                                                                                                                               \
	static Reg a_##tag("C27/history-" #tag, n * 4, n * 160, &history<Any>);                                                                                                                             \
	static Reg b_##tag("C27/nested-" #tag, n / 4, n * 10, &nested<Any>);                                                                                                                           \
	static Reg c_##tag("C27/make-" #tag, n / 16, n, &make<Any>);
using seq::any_default_interface;
using seq::any_no_hash_interface;
using seq::hold_any;
#if PART == 0
REG(seq::any, any, 3000)
#elif PART == 1
REG(seq::r_any, r_any, 3000)
#elif PART == 2
REG(seq::nh_any, nh_any, 2000)
REG(seq::r_nh_any, r_nh_any, 2000)
#elif PART == 3
using A1 = hold_any<any_no_hash_interface, 1, 1, false>;
using A2 = hold_any<any_no_hash_interface, 32, 8, false>;
REG(A1, tiny, 1500)
REG(A2, words4, 1500)
#else
using A3 = hold_any<any_no_hash_interface, 64, 64, false>;
using A4 = hold_any<any_no_hash_interface, 40, 32, true>;
REG(A3, align64, 1500)
REG(A4, r_align32, 1500)
#endif
