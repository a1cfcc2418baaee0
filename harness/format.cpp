// C25, C26: texts produced by the format module against an independent rendering.
#include "fltwrite.hpp"
#include <seq/any.hpp>
#include <seq/format.hpp>
#include <deque>
#include <list>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
using namespace mon;
#ifndef PART
#define PART 0
#endif

// ---------------------------------------------------------------- options and reference rendering
struct Wid
{
	int align = 0; // 0 none, 1 left, 2 right, 3 center
	int w = 0;
	char32_t fill = ' ';
};
struct Num
{
	int base = 10;
	bool upper = false, prefix = false, chr = false;
	char fmt = 'g';
	int prec = 6;
	char dot = '.';
};
template<class C>
std::basic_string<C> widen(const std::string& s)
{
	return std::basic_string<C>(s.begin(), s.end());
}
template<class C>
std::basic_string<C> pad(std::basic_string<C> s, const Wid& w, bool trunc)
{
	if (!w.align)
		return s;
	size_t W = size_t(w.w);
	C f = static_cast<C>(w.fill);
	if (s.size() > W) {
		if (!trunc)
			return s;
		size_t d = s.size() - W;
		size_t from = w.align == 1 ? 0 : w.align == 2 ? d : d / 2;
		return s.substr(from, W);
	}
	size_t n = W - s.size();
	size_t l = w.align == 1 ? 0 : w.align == 2 ? n : n / 2;
	return std::basic_string<C>(l, f) + s + std::basic_string<C>(n - l, f);
}
inline Wid rnd_wid(Rng& r, bool wide = false)
{
	Wid w;
	if (r.pct(35))
		return w;
	w.align = 1 + int(r.below(3));
	w.w = 1 + (r.pct(80) ? int(r.below(24)) : r.pct(80) ? int(r.below(90)) : int(r.below(700)));
	if (r.coin())
		w.fill = wide && r.coin() ? char32_t(0x3B1 + r.below(20)) : char32_t("-*0# _x"[r.below(7)]);
	return w;
}
template<class F>
void set_wid(F& f, const Wid& w)
{
	if (w.align == 1)
		f.left(w.w);
	else if (w.align == 2)
		f.right(w.w);
	else if (w.align == 3)
		f.center(w.w);
	if (w.fill != U' ' || w.align)
		f.fill(w.fill);
}
template<class F>
void set_int(F& f, const Num& n)
{
	f.base(static_cast<char>(n.base));
	if (n.upper)
		f.upper();
	if (n.prefix)
		f.hex_prefix();
	if (n.chr)
		f.as_char();
}
template<class F>
void set_flt(F& f, const Num& n)
{
	f.format(n.fmt).precision(n.prec).dot(n.dot);
}
inline Num rnd_int(Rng& r, bool chr)
{
	Num n;
	if (r.pct(60)) {
		static const int b[] = { 16, 16, 2, 8, 36, 3, 10 };
		n.base = r.pct(70) ? b[r.below(7)] : int(r.range(2, 36));
		n.upper = r.coin();
		n.prefix = r.coin();
	}
	n.chr = chr && r.pct(15);
	return n;
}
inline Num rnd_flt(Rng& r)
{
	Num n;
	n.fmt = "gGeEfF"[r.below(6)];
	n.prec = r.pct(80) ? int(r.below(13)) : r.pct(80) ? int(r.below(20)) : int(r.below(100));
	n.dot = r.pct(80) ? '.' : ',';
	return n;
}
template<class T>
std::string itext(T v, const Num& n)
{
	if (n.chr)
		return std::string(1, static_cast<char>(v));
	if (std::is_same<T, bool>::value)
		return v ? "1" : "0";
	unsigned __int128 m;
	bool neg = v < T(0);
	m = neg ? -static_cast<unsigned __int128>(static_cast<__int128>(v)) : static_cast<unsigned __int128>(v);
	if (!m)
		return "0";
	std::string s;
	for (; m; m /= unsigned(n.base)) {
		unsigned d = unsigned(m % unsigned(n.base));
		s += static_cast<char>(d < 10 ? '0' + d : (n.upper ? 'A' : 'a') + d - 10);
	}
	if (n.prefix && n.base == 16)
		s += "x0";
	if (neg)
		s += '-';
	return std::string(s.rbegin(), s.rend());
}
template<class T>
std::string ftext(Ctx& c, T v, const Num& n)
{
	fltw::Spec s;
	char lo = static_cast<char>(n.fmt | 32);
	s.upper = n.fmt < 'a';
	s.fmt = lo == 'g' ? seq::general : lo == 'f' ? seq::fixed : seq::scientific;
	s.prec = n.prec;
	s.dot = n.dot;
	s.exp = s.upper ? 'E' : 'e';
	s.dflt = false;
	static thread_local std::unique_ptr<char[]> b(new char[6000]);
	auto q = fltw::call(b.get(), b.get() + 6000, v, s);
	std::string t(b.get(), q.ptr);
	// the unpadded number against printf
	fltw::judge<T>(c, t, v, s);
	return t;
}
template<class T>
T rnd_val(Rng& r)
{
	if constexpr (std::is_same<T, bool>::value)
		return r.coin();
	else if constexpr (std::is_floating_point<T>::value) {
		if (r.pct(2))
			return r.coin() ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
		if (r.pct(50))
			return T(r.range(-4000, 4000)) / T(8);
		return fltw::rnd_value<T>(r);
	}
	else {
		if (r.pct(8))
			return r.coin() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
		T v = static_cast<T>(r.next() >> r.below(64));
		return r.coin() ? static_cast<T>(~v) : v;
	}
}
template<class C>
std::basic_string<C> rnd_str(Rng& r, size_t max = 30)
{
	size_t n = r.pct(10) ? 0 : r.pct(90) ? r.below(max) : r.below(max * 12);
	std::basic_string<C> s(n, C());
	for (auto& ch : s)
		ch = sizeof(C) > 1 && r.pct(10) ? static_cast<C>(0x400 + r.below(200)) : static_cast<C>(32 + r.below(95));
	return s;
}
template<class C>
std::string show(const std::basic_string<C>& s)
{
	std::string r;
	for (C ch : s)
		r += ch < 127 && ch >= 32 ? static_cast<char>(ch) : '?';
	return r;
}

// ---------------------------------------------------------------- output routes
template<class F, class = void>
struct single_char
{
	using type = void; // anything
};
template<class T, bool S>
struct single_char<seq::ostream_format<T, S>, void>
{
	using type = typename seq::ostream_format<T, S>::valid_char_type;
};
template<class C>
void same(Ctx& c, const std::basic_string<C>& got, const std::basic_string<C>& want, const char* route)
{
	c.check(got == want, route, "%zu characters [%.200s] instead of %zu [%.200s]", got.size(), show(got).c_str(), want.size(), show(want).c_str());
}
// the same text through every output; strings_only: standard strings are the only possible output
template<class C, class F>
void routes(Ctx& c, F& f, const std::basic_string<C>& e, bool light = false)
{
	using S = std::basic_string<C>;
	using TS = seq::tiny_string<C>;
	Rng& r = c.rng;
	const F& cf = f;
	constexpr bool stream = std::is_void<typename single_char<F>::type>::value || std::is_same<typename single_char<F>::type, C>::value;
	unsigned mask = light ? 1u << r.below(8) : 255u;
	if (mask & 1)
		same(c, cf.template str<S>(), e, "str");
	if (mask & 2) {
		S s = cf;
		same(c, s, e, "conversion");
	}
	if (mask & 4) {
		S pre = rnd_str<C>(r, 40), s = pre;
		S& ret = cf.append(s);
		c.check(&ret == &s, "append-return", "append() does not return its argument");
		same(c, s, pre + e, "append");
	}
	if (mask & 8) {
		TS t = cf.template str<TS>();
		same(c, S(t.data(), t.size()), e, "tstring");
		S pre = rnd_str<C>(r, 40);
		TS a(pre.data(), pre.size());
		cf.append(a);
		same(c, S(a.data(), a.size()), pre + e, "append-tstring");
		TS t2 = cf;
		same(c, S(t2.data(), t2.size()), e, "conversion-tstring");
	}
	if (mask & 16) {
		std::unique_ptr<C[]> b(new C[e.size()]);
		C* q = f.to_chars(b.get());
		c.check(q == b.get() + e.size(), "to_chars-end", "to_chars wrote %td characters instead of %zu", q - b.get(), e.size());
		same(c, S(b.get(), q), e, "to_chars");
	}
	if (mask & 32) {
		size_t m = r.coin() ? e.size() : r.below(e.size() + 3);
		std::unique_ptr<C[]> b(new C[m]);
		auto q = f.to_chars(b.get(), m);
		c.check(q.second == e.size(), "to_chars-size", "to_chars announces %zu characters instead of %zu", q.second, e.size());
		c.check(q.first == b.get() + std::min(m, e.size()), "to_chars-bounded-end", "to_chars wrote %td characters, the buffer has %zu and the text %zu", q.first - b.get(), m, e.size());
		same(c, S(b.get(), q.first), e.substr(0, m), "to_chars-bounded");
		MON_COUNT("bounded_buffers", 1);
	}
	if (mask & 64) {
		std::vector<C> v(e.size());
		auto q = f.to_iter(v.begin());
		c.check(q == v.end(), "to_iter-end", "to_iter wrote %td elements instead of %zu", q - v.begin(), e.size());
		same(c, S(v.begin(), v.end()), e, "to_iter");
	}
	if constexpr (stream) {
		if (mask & 128) {
			std::basic_ostringstream<C> o;
			C l = static_cast<C>('<'), g = static_cast<C>('>');
			o << l << cf << g << f;
			same(c, o.str(), l + e + g + e, "stream");
		}
	}
	MON_COUNT("texts_checked", 1);
	c.state(mix(hstr(show(e).c_str()), sizeof(C)));
}
// formats that can only be written to std::string
template<class F>
void routes_std(Ctx& c, F& f, const std::string& e)
{
	Rng& r = c.rng;
	same(c, f.template str<std::string>(), e, "str");
	std::string pre = rnd_str<char>(r), s = pre;
	f.append(s);
	same(c, s, pre + e, "append");
	std::ostringstream o;
	o << '<' << f << '>';
	same(c, o.str(), "<" + e + ">", "stream");
	std::unique_ptr<char[]> b(new char[e.size()]);
	char* q = f.to_chars(b.get());
	c.check(q == b.get() + e.size(), "to_chars-end", "to_chars wrote %td characters instead of %zu", q - b.get(), e.size());
	same(c, std::string(b.get(), q), e, "to_chars");
	MON_COUNT("texts_checked", 1);
	c.state(hstr(e.c_str()));
}

// ---------------------------------------------------------------- custom types
struct Streamed // by its stream operator, without the format module
{
	int a;
	std::string s;
	std::string text() const { return "{" + std::to_string(a) + ":" + s + "}"; }
};
inline std::ostream& operator<<(std::ostream& o, const Streamed& v) { return o << '{' << v.a << ':' << v.s << '}'; }

// a tree whose stream operator formats its children with the format module, in different ways
struct Tree
{
	int kind = 0, v = 0;
	std::vector<Tree> ch;
	std::string text() const
	{
		std::string r;
		switch (kind) {
			case 0: return std::to_string(v);
			case 1: { // single value formats
				r = "(";
				for (auto& t : ch)
					r += pad<char>(t.text(), wid(), true);
				return r + ")";
			}
			case 2: { // multiple values
				r = "[" + std::to_string(v) + ";";
				for (auto& t : ch)
					r += "<" + t.text() + "," + std::to_string(t.v) + ">";
				return r + "]";
			}
			case 3: { // through to_chars and strings
				r = "{";
				for (auto& t : ch)
					r += "a" + t.text() + "b";
				return r + "}";
			}
			default: { // joined
				for (auto& t : ch)
					r += (r.empty() ? "" : "|") + t.text();
				return "/" + (ch.empty() ? std::string() : r) + "/";
			}
		}
	}
	Wid wid() const
	{
		Wid w;
		w.align = 1 + (v & 1);
		w.w = 5 + (v & 15);
		w.fill = U'.';
		return w;
	}
};
std::ostream& operator<<(std::ostream& o, const Tree& t);
inline std::ostream& operator<<(std::ostream& o, const Tree& t)
{
	using namespace seq;
	switch (t.kind) {
		case 0: return o << fmt(t.v);
		case 1: {
			o << fmt("(");
			for (auto& x : t.ch) {
				auto f = fmt(x);
				set_wid(f, t.wid());
				o << f;
			}
			return o << fmt(")");
		}
		case 2: {
			o << fmt("[", t.v, ";");
			for (auto& x : t.ch)
				o << fmt("<", x, ",", x.v, ">");
			return o << ']';
		}
		case 3: {
			o << '{';
			for (auto& x : t.ch) {
				std::vector<char> b(8192);
				auto f = fmt("a", x, "b");
				auto q = f.to_chars(b.data(), b.size());
				if (q.second > b.size()) {
					std::string s = f;
					o << s;
				}
				else
					o.write(b.data(), q.first - b.data());
			}
			return o << '}';
		}
		default: return o << fmt("/", join("|", t.ch), "/");
	}
}
inline Tree rnd_tree(Rng& r, int depth)
{
	Tree t;
	t.v = int(r.range(-9999, 9999));
	if (!depth || r.pct(15))
		return t;
	t.kind = 1 + int(r.below(4));
	for (size_t n = r.below(4); n; --n)
		t.ch.push_back(rnd_tree(r, depth - 1));
	return t;
}
inline bool empty_join(const Tree& t)
{
	if (t.kind == 4)
		for (size_t i = 0; i < t.ch.size(); ++i)
			if (t.ch[i].text().empty())
				return true;
	for (auto& x : t.ch)
		if (empty_join(x))
			return true;
	return false;
}

// a type with its own format class, using the numeric format for its members
template<class T>
struct Pair
{
	T a, b;
};
namespace seq {
template<class T, bool S>
class ostream_format<Pair<T>, S> : public base_ostream_format<Pair<T>, ostream_format<Pair<T>, S>>
{
	using base_type = base_ostream_format<Pair<T>, ostream_format<Pair<T>, S>>;

public:
	ostream_format()
	  : base_type()
	{
	}
	ostream_format(const Pair<T>& v)
	  : base_type(v)
	{
	}
	template<class String>
	size_t to_string(String& out) const
	{
		size_t prev = out.size();
		out.append("(");
		ostream_format<T>(this->value().a, this->numeric_fmt()).append(out);
		out.append(", ");
		ostream_format<T>(this->value().b, this->numeric_fmt()).append(out);
		out.append(")");
		return out.size() - prev;
	}
};
}

#if PART == 0
// ---------------------------------------------------------------- C25: single values
template<class T>
void ints(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 5; ++k) {
		T v = rnd_val<T>(r);
		Num n = rnd_int(r, sizeof(T) == 1 && !std::is_same<T, bool>::value);
		Wid w = rnd_wid(r);
		if (n.chr)
			v = static_cast<T>(33 + r.below(90));
		c.op("int", std::to_string(v), n.base, n.upper, n.prefix, w.align, w.w, int(w.fill));
		std::string t = itext(v, n), e = pad<char>(t, w, false);
		auto f = seq::fmt(v);
		set_int(f, n);
		set_wid(f, w);
		routes<char>(c, f, e);
		// wide output
		Wid ww = rnd_wid(r, true);
		auto g = f;
		g.no_align();
		set_wid(g, ww);
		same(c, g.template str<std::wstring>(), pad<wchar_t>(widen<wchar_t>(t), ww, false), "wide");
		same(c, g.template str<std::u16string>(), pad<char16_t>(widen<char16_t>(t), ww, false), "u16");
		same(c, g.template str<std::u32string>(), pad<char32_t>(widen<char32_t>(t), ww, false), "u32");
		// a width without alignment does not change numbers
		c.op("no-align", w.w);
		auto na = seq::fmt(v);
		set_int(na, n);
		na.set_width_format(seq::width_format(static_cast<unsigned short>(w.w)));
		same(c, na.template str<std::string>(), t, "no-align");
		auto nf = seq::fmt(0.5);
		nf.set_width_format(seq::width_format(static_cast<unsigned short>(w.w)));
		same(c, nf.template str<std::string>(), std::string("0.5"), "no-align");
		// nested formats keep the inner format
		Wid w2 = rnd_wid(r);
		auto h = seq::fmt(f);
		set_wid(h, w2);
		routes<char>(c, h, pad<char>(e, w2, true), true);
	}
}
template<class T>
void flts(Ctx& c)
{
	Rng& r = c.rng;
	for (int k = 0; k < 4; ++k) {
		T v = rnd_val<T>(r);
		Num n = rnd_flt(r);
		Wid w = rnd_wid(r);
		c.op("float", static_cast<double>(v), n.fmt, n.prec, n.dot, w.align, w.w);
		std::string t = ftext(c, v, n), e = pad<char>(t, w, false);
		auto f = r.coin() ? seq::fmt(v) : seq::fmt(v, n.fmt);
		set_flt(f, n);
		set_wid(f, w);
		routes<char>(c, f, e);
		Wid ww = rnd_wid(r, true);
		auto g = f;
		g.no_align();
		set_wid(g, ww);
		same(c, g.template str<std::wstring>(), pad<wchar_t>(widen<wchar_t>(t), ww, false), "wide");
		same(c, g.template str<std::u16string>(), pad<char16_t>(widen<char16_t>(t), ww, false), "u16");
		Wid w2 = rnd_wid(r);
		auto h = seq::fmt(f);
		set_wid(h, w2);
		routes<char>(c, h, pad<char>(e, w2, true), true);
		// default format: %g with a precision of 6
		Num d;
		same(c, seq::fmt(v).template str<std::string>(), ftext(c, v, d), "default");
	}
}
template<class C>
void strs(Ctx& c)
{
	Rng& r = c.rng;
	using S = std::basic_string<C>;
	for (int k = 0; k < 5; ++k) {
		S s = rnd_str<C>(r);
		Wid w = rnd_wid(r, sizeof(C) > 1);
		c.op("string", s.size(), w.align, w.w, int(w.fill));
		S e = pad<C>(s, w, true);
		auto run = [&](auto f) {
			set_wid(f, w);
			routes<C>(c, f, e, k != 0);
			Wid w2 = rnd_wid(r, sizeof(C) > 1);
			auto h = seq::fmt(f);
			set_wid(h, w2);
			S e2 = pad<C>(e, w2, true);
			routes<C>(c, h, e2, true);
			Wid w3 = rnd_wid(r, sizeof(C) > 1);
			auto h2 = seq::fmt(h);
			set_wid(h2, w3);
			routes<C>(c, h2, pad<C>(e2, w3, true), true);
		};
		seq::tiny_string<C> ts(s.data(), s.size());
		switch (r.below(6)) {
			case 0: run(seq::fmt(s)); break;
			case 1: run(seq::fmt(s.c_str())); break;
			case 2: run(seq::fmt(s.c_str(), s.size())); break;
			case 3: run(seq::fmt(std::basic_string_view<C>(s))); break;
			case 4: run(seq::fmt(ts)); break;
			default: run(seq::fmt(seq::basic_tstring_view<C>(s))); break;
		}
	}
}
void shortcuts(Ctx& c)
{
	using namespace seq;
	Rng& r = c.rng;
	double v = rnd_val<double>(r);
	long long i = rnd_val<long long>(r);
	unsigned u = rnd_val<unsigned>(r);
	c.op("shortcuts", v, i, u);
	auto F = [&](char f) {
		Num n;
		n.fmt = f;
		return ftext(c, v, n);
	};
	auto I = [&](auto x, int base, bool up = false) {
		Num n;
		n.base = base;
		n.upper = up;
		return itext(x, n);
	};
	same(c, seq::e(v).str(), F('e'), "e");
	same(c, E(v).str(), F('E'), "E");
	same(c, f(v).str(), F('f'), "f");
	same(c, seq::F(v).str(), F('F'), "F");
	same(c, g(v).str(), F('g'), "g");
	same(c, G(v).str(), F('G'), "G");
	c.op("integers", i);
	same(c, d(i).str(), I(i, 10), "d");
	same(c, dec(i).str(), I(i, 10), "dec");
	same(c, seq::u(u).str(), I(u, 10), "u");
	same(c, hex(i).str(), I(i, 16), "hex");
	same(c, x(u).str(), I(u, 16), "x");
	same(c, X(u).str(), I(u, 16, true), "X");
	same(c, oct(u).str(), I(u, 8), "oct");
	same(c, o(i).str(), I(i, 8), "o");
	same(c, bin(i).str(), I(i, 2), "bin");
	char ch1 = static_cast<char>(33 + r.below(90));
	same(c, ch(ch1).str(), std::string(1, ch1), "ch");
	c.op("slots", v);
	same(c, _e()(v).str(), F('e'), "_e");
	same(c, _E()(v).str(), F('E'), "_E");
	same(c, _f()(v).str(), F('f'), "_f");
	same(c, _F()(v).str(), F('F'), "_F");
	same(c, _g()(v).str(), F('g'), "_g");
	same(c, _G()(v).str(), F('G'), "_G");
	same(c, _d()(i).str(), I(i, 10), "_d");
	same(c, _x()(u).str(), I(u, 16), "_x");
	same(c, _X()(u).str(), I(u, 16, true), "_X");
	same(c, _o()(u).str(), I(u, 8), "_o");
	same(c, _bin()(i).str(), I(i, 2), "_bin");
	same(c, _ch()(ch1).str(), std::string(1, ch1), "_ch");
	int n = int(r.below(40));
	c.op("rep", n);
	same(c, rep(char32_t(ch1), n).str(), std::string(size_t(n), ch1), "rep");
	// pointers
	int dummy[2];
	void* p = r.coin() ? &dummy[r.below(2)] : nullptr;
	Num np = rnd_int(r, false);
	Wid w = rnd_wid(r);
	std::string e = pad<char>(itext(uintptr_t(p), np), w, false);
	c.op("pointer", w.align, w.w);
	auto fp = fmt(p);
	set_int(fp, np);
	set_wid(fp, w);
	routes<char>(c, fp, e);
	auto fi = fmt(static_cast<int*>(p));
	set_int(fi, np);
	set_wid(fi, w);
	routes<char>(c, fi, e, true);
	auto m = fmt("p=", fi, ".", fp);
	routes<char>(c, m, "p=" + e + "." + e, true);
	c.state(mix(uint64_t(i), u));
}
#define INTS(id, T) static Reg id("C25/int/" #T, 4000, 120000, &ints<T>)
using schar = signed char;
using uchar = unsigned char;
using llong = long long;
using ullong = unsigned long long;
using ldouble = long double;
using ushort_ = unsigned short;
INTS(i0, char);
INTS(i1, schar);
INTS(i2, uchar);
INTS(i3, short);
INTS(i4, ushort_);
INTS(i5, int);
INTS(i6, unsigned);
INTS(i7, llong);
INTS(i8, ullong);
INTS(i9, bool);
#define FLTS(id, T) static Reg id("C25/float/" #T, 5000, 150000, &flts<T>)
FLTS(f0, float);
FLTS(f1, double);
FLTS(f2, ldouble);
#define STRS(id, T) static Reg id("C25/string/" #T, 5000, 150000, &strs<T>)
STRS(s0, char);
STRS(s1, wchar_t);
STRS(s2, char16_t);
STRS(s3, char32_t);
static Reg sc("C25/shortcuts", 6000, 200000, &shortcuts);
#endif

// ---------------------------------------------------------------- parts of composed formats
struct Pool // storage of the formatted strings
{
	std::deque<std::string> s;
	std::deque<std::wstring> w;
	const std::string& add(std::string v)
	{
		s.push_back(std::move(v));
		return s.back();
	}
	const std::wstring& add(std::wstring v)
	{
		w.push_back(std::move(v));
		return w.back();
	}
};
template<class T>
auto ipart(Ctx& c, std::string& e)
{
	T v = rnd_val<T>(c.rng);
	Num n = rnd_int(c.rng, false);
	Wid w = rnd_wid(c.rng);
	auto f = seq::fmt(v);
	set_int(f, n);
	set_wid(f, w);
	e = pad<char>(itext(v, n), w, false);
	return f;
}
template<class T>
auto fpart(Ctx& c, std::string& e)
{
	T v = rnd_val<T>(c.rng);
	Num n = rnd_flt(c.rng);
	Wid w = rnd_wid(c.rng);
	auto f = seq::fmt(v);
	set_flt(f, n);
	set_wid(f, w);
	e = pad<char>(ftext(c, v, n), w, false);
	return f;
}
inline auto spart(Ctx& c, Pool& p, std::string& e)
{
	const std::string& s = p.add(rnd_str<char>(c.rng));
	Wid w = rnd_wid(c.rng);
	auto f = seq::fmt(s);
	set_wid(f, w);
	e = pad<char>(s, w, true);
	return f;
}

#if PART == 1
// ---------------------------------------------------------------- C25: composed formats
void multi(Ctx& c)
{
	using namespace seq;
	Rng& r = c.rng;
	Pool p;
	std::string a, b, d, e, g, h;
	for (int k = 0; k < 3; ++k) {
		auto fa = ipart<int>(c, a);
		auto fb = fpart<double>(c, b);
		auto fc = spart(c, p, d);
		auto fd = ipart<unsigned char>(c, e);
		auto fe = fpart<float>(c, g);
		auto ff = spart(c, p, h);
		const std::string& raw = p.add(rnd_str<char>(r));
		int ri = rnd_val<int>(r);
		Wid w = rnd_wid(r), w2 = rnd_wid(r);
		c.op("multi", a, b, d, e, g, w.align, w.w);
		{
			auto f = fmt(fa, " ", fb, raw, fc, ri, fd);
			set_wid(f, w);
			routes<char>(c, f, pad<char>(a + " " + b + raw + d + std::to_string(ri) + e, w, true), k > 0);
		}
		c.op("strings-only", d, h, raw);
		{
			auto f = fmt(raw, fc, "-", ff, std::string_view(raw));
			set_wid(f, w);
			routes<char>(c, f, pad<char>(raw + d + "-" + h + raw, w, true), k > 0);
		}
		c.op("numbers-only", a, b);
		{
			auto f = fmt(fa, fb);
			set_wid(f, w);
			routes<char>(c, f, pad<char>(a + b, w, true), k > 0);
			same(c, f.str(), pad<char>(a + b, w, true), "default-str");
		}
		c.op("nested", a, b, d, w2.align, w2.w);
		{
			auto in = fmt(fa, "/", fc);
			set_wid(in, w);
			std::string ein = pad<char>(a + "/" + d, w, true);
			auto out = fmt("<", in, ">", fe, in, fmt(in, ff));
			set_wid(out, w2);
			routes<char>(c, out, pad<char>("<" + ein + ">" + g + ein + ein + h, w2, true), k > 0);
			auto st = fmt(raw, fmt(raw, ff), join(", ", fc, raw, ff));
			set_wid(st, w2);
			routes<char>(c, st, pad<char>(raw + raw + h + d + ", " + raw + ", " + h, w2, true), true);
		}
		c.op("join", a, b, d, e);
		{
			const std::string& sep = p.add(rnd_str<char>(r, 5));
			auto f = join(sep, fa, fb, fc, raw, ri);
			set_wid(f, w);
			routes<char>(c, f, pad<char>(a + sep + b + sep + d + sep + raw + sep + std::to_string(ri), w, true), k > 0);
			auto f2 = join(sep, fc, ff, raw, "");
			routes<char>(c, f2, d + sep + h + sep + raw + sep, true);
			auto f3 = fmt("[", f, "]", join("", fa, fd));
			routes<char>(c, f3, "[" + pad<char>(a + sep + b + sep + d + sep + raw + sep + std::to_string(ri), w, true) + "]" + a + e, true);
		}
		// wide
		c.op("wide", w.align);
		{
			const std::wstring& ws = p.add(rnd_str<wchar_t>(r));
			const std::wstring& wsep = p.add(rnd_str<wchar_t>(r, 4));
			auto f = fmt(fa, ws, fb, L"::");
			set_wid(f, w);
			routes<wchar_t>(c, f, pad<wchar_t>(widen<wchar_t>(a) + ws + widen<wchar_t>(b) + L"::", w, true), k > 0);
			auto j = join(wsep, fa, fb, ws);
			routes<wchar_t>(c, j, widen<wchar_t>(a) + wsep + widen<wchar_t>(b) + wsep + ws, true);
		}
	}
}
void ranges(Ctx& c)
{
	using namespace seq;
	Rng& r = c.rng;
	for (int k = 0; k < 4; ++k) {
		size_t n = r.below(6);
		std::string sep = rnd_str<char>(r, 5);
		Wid w = rnd_wid(r), we = rnd_wid(r);
		c.op("range", n, sep, w.align, w.w);
		std::vector<int> vi;
		std::list<double> ld;
		std::vector<std::string> vs;
		Num ni = rnd_int(r, false), nf = rnd_flt(r);
		std::string ei, el, es, ef, ep;
		for (size_t i = 0; i < n; ++i) {
			vi.push_back(rnd_val<int>(r));
			ld.push_back(rnd_val<double>(r));
			vs.push_back(rnd_str<char>(r));
			ei += (i ? sep : "") + std::to_string(vi.back());
			Num d;
			el += (i ? sep : "") + ftext(c, ld.back(), d);
			es += (i ? sep : "") + vs.back();
			ef += (i ? sep : "") + pad<char>(itext(vi.back(), ni), we, false);
			ep += (i ? sep : "") + pad<char>(ftext(c, ld.back(), nf), we, false);
		}
		auto run = [&](auto f, const std::string& e) {
			set_wid(f, w);
			routes<char>(c, f, pad<char>(e, w, true), k > 0);
			int v = rnd_val<int>(r);
			auto g = fmt("a", f, "b", v);
			routes<char>(c, g, "a" + pad<char>(e, w, true) + "b" + std::to_string(v), true);
		};
		run(join(sep, vi), ei);
		c.op("doubles", el);
		run(join(sep, ld), el);
		c.op("strings", es);
		run(join(sep, vs), es);
		auto f1 = fmt<int>();
		set_int(f1, ni);
		set_wid(f1, we);
		c.op("formatted", ef);
		run(join(sep, vi, f1), ef);
		auto f2 = fmt<double>();
		set_flt(f2, nf);
		set_wid(f2, we);
		run(join(sep, ld, f2), ep);
		// sub range
		size_t m = r.below(n + 1);
		std::string esub;
		for (size_t i = 0; i < m; ++i)
			esub += (i ? sep : "") + std::to_string(vi[i]);
		auto rg = seq::iterator_range<std::vector<int>::iterator>(vi.begin(), vi.begin() + std::ptrdiff_t(m));
		c.op("sub-range", m);
		run(join(sep, rg), esub);
		// wide
		std::wstring wsep = widen<wchar_t>(sep), wi = widen<wchar_t>(ei);
		auto wj = join(wsep, vi);
		set_wid(wj, w);
		routes<wchar_t>(c, wj, pad<wchar_t>(wi, w, true), true);
		// initializer list, used at once
		int x = rnd_val<int>(r), y = rnd_val<int>(r);
		std::ostringstream o;
		o << join(sep, { x, y, x });
		same(c, o.str(), std::to_string(x) + sep + std::to_string(y) + sep + std::to_string(x), "init-list");
		c.state(mix(n, hstr(el.c_str())));
	}
}
void custom(Ctx& c)
{
	using namespace seq;
	Rng& r = c.rng;
	for (int k = 0; k < 4; ++k) {
		Streamed s{ rnd_val<int>(r), rnd_str<char>(r) };
		Pair<double> pd{ rnd_val<double>(r), rnd_val<double>(r) };
		Pair<int> pi{ rnd_val<int>(r), rnd_val<int>(r) };
		Num nf = rnd_flt(r), ni = rnd_int(r, false);
		Wid w = rnd_wid(r), w2 = rnd_wid(r);
		c.op("custom", s.a, s.s, pd.a, pd.b, w.align, w.w);
		auto fs = fmt(s);
		set_wid(fs, w);
		std::string es = pad<char>(s.text(), w, true);
		routes<char>(c, fs, es, k > 0);
		auto fd = fmt(pd);
		set_flt(fd, nf);
		set_wid(fd, w);
		std::string ed = pad<char>("(" + ftext(c, pd.a, nf) + ", " + ftext(c, pd.b, nf) + ")", w, true);
		c.op("pair", ed);
		routes<char>(c, fd, ed, k > 0);
		auto fi = fmt(pi);
		set_int(fi, ni);
		set_wid(fi, w2);
		std::string ei = pad<char>("(" + itext(pi.a, ni) + ", " + itext(pi.b, ni) + ")", w2, true);
		routes<char>(c, fi, ei, true);
		c.op("composed", es);
		auto m = fmt("s:", fs, fd, ",", fi, s, pi.a);
		set_wid(m, w2);
		routes<char>(c, m, pad<char>("s:" + es + ed + "," + ei + s.text() + std::to_string(pi.a), w2, true), k > 0);
		std::vector<Streamed> v(r.below(4), s);
		std::string ev;
		for (size_t i = 0; i < v.size(); ++i)
			ev += (i ? "; " : "") + s.text();
		auto j = join("; ", v);
		c.op("vector", v.size());
		routes<char>(c, j, ev, k > 0);
		auto nf2 = fmt(fs);
		set_wid(nf2, w2);
		routes<char>(c, nf2, pad<char>(es, w2, true), true);
	}
}
// split and replace against the definition
template<class C>
void splits(Ctx& c)
{
	using namespace seq;
	using S = std::basic_string<C>;
	using V = std::vector<S>;
	Rng& r = c.rng;
	for (int k = 0; k < 6; ++k) {
		size_t n = r.pct(5) ? 0 : r.below(r.pct(80) ? 16 : 300);
		S src(n, C());
		const char* al = r.coin() ? "ab ,\t" : "ab, ";
		size_t an = strlen(al);
		for (auto& ch : src)
			ch = static_cast<C>(al[r.below(an)]);
		S pat(1 + r.below(3), C());
		for (auto& ch : pat)
			ch = static_cast<C>(al[r.below(an)]);
		c.op("split", show(src), show(pat));
		auto ref = [&](auto find) { // find(pos) -> (match, length)
			V v;
			size_t st = 0;
			for (;;) {
				std::pair<size_t, size_t> m = find(st);
				if (m.first == S::npos)
					break;
				v.push_back(src.substr(st, m.first - st));
				st = m.first + m.second;
			}
			v.push_back(src.substr(st));
			return v;
		};
		auto filter = [&](V v, int kind) {
			V o;
			for (auto& s : v) {
				bool skip = kind > 0;
				for (C ch : s)
					if (kind == 1 || (kind == 2 && ch != C(' ')) || (kind == 3 && ch != C(' ') && ch != C('\t')))
						skip = false;
				if (!skip)
					o.push_back(s);
			}
			return o;
		};
		auto cmp = [&](const V& got, const V& want, const char* what) {
			std::string a, b;
			for (auto& s : got)
				a += "<" + show(s) + ">";
			for (auto& s : want)
				b += "<" + show(s) + ">";
			c.check(got == want, what, "[%.150s]: %.200s instead of %.200s", show(src).c_str(), a.c_str(), b.c_str());
			MON_COUNT("splits", 1);
			c.state(hstr(a.c_str()));
		};
		auto run = [&](const auto& m, const V& v, const char* what) {
			V g;
			for (const auto& s : split(src, m))
				g.emplace_back(s.data(), s.size());
			cmp(g, v, what);
			g.clear();
			for (const auto& s : split(src, m, skip_empty{}))
				g.emplace_back(s.data(), s.size());
			cmp(g, filter(v, 1), "skip_empty");
			g.clear();
			for (const auto& s : split(src, m, skip_whitespace{}))
				g.emplace_back(s.data(), s.size());
			cmp(g, filter(v, 2), "skip_whitespace");
			g.clear();
			auto rng = split(src, m, skip_space{});
			for (auto it = rng.begin(); it != rng.end(); it++)
				g.emplace_back(it->data(), it->size());
			cmp(g, filter(v, 3), "skip_space");
		};
		run(by_string(pat), ref([&](size_t st) { return std::make_pair(src.find(pat, st), pat.size()); }), "by_string");
		run(by_char(pat[0]), ref([&](size_t st) { return std::make_pair(src.find(pat[0], st), size_t(1)); }), "by_char");
		run(by_any_char(pat), ref([&](size_t st) { return std::make_pair(src.find_first_of(pat, st), size_t(1)); }), "by_any_char");
		run(by_not_any_char(pat), ref([&](size_t st) { return std::make_pair(src.find_first_not_of(pat, st), size_t(1)); }), "by_not_any_char");
		S sp = S(1, C(' ')) + C('\t');
		run(by_word(), ref([&](size_t st) { return std::make_pair(src.find_first_of(sp, st), size_t(1)); }), "by_word");
		if (!src.empty()) {
			V chars;
			for (C ch : src)
				chars.push_back(S(1, ch));
			run(by_string(S()), chars, "by_empty_string");
		}
		S rep = rnd_str<C>(r, 6);
		S want;
		V pieces = ref([&](size_t st) { return std::make_pair(src.find(pat, st), pat.size()); });
		for (size_t i = 0; i < pieces.size(); ++i)
			want += (i ? rep : S()) + pieces[i];
		c.op("replace", show(rep));
		S got = seq::replace<S>(src, pat, rep);
		same(c, got, want, "replace");
	}
}
FAMILY(f_multi, "C25/multi", 2500, 80000, 0) { multi(c); }
FAMILY(f_ranges, "C25/join-range", 2500, 80000, 0) { ranges(c); }
FAMILY(f_custom, "C25/custom", 2500, 80000, 0) { custom(c); }
static Reg sp0("C25/split/char", 3000, 100000, &splits<char>);
static Reg sp1("C25/split/wchar_t", 1500, 50000, &splits<wchar_t>);
#endif

#if PART == 2
// ---------------------------------------------------------------- C26: functors
// model of one slot
struct MSlot
{
	int kind = 0; // 0 long, 1 double, 2 string
	Num n;
	Wid w;
	long i = 0;
	double d = 0;
	std::string s;
	std::string text(Ctx& c) const
	{
		if (kind == 0)
			return pad<char>(itext(i, n), w, false);
		if (kind == 1)
			return pad<char>(ftext(c, d, n), w, false);
		return pad<char>(s, w, true);
	}
	void reset(char32_t f)
	{
		i = 0;
		d = 0;
		s.clear();
		if (f)
			w.fill = f;
	}
};
template<class F>
void set_slot(F& f, const MSlot& m)
{
	if (m.kind == 0)
		set_int(f, m.n);
	else if (m.kind == 1)
		set_flt(f, m.n);
	set_wid(f, m.w);
}
MSlot rnd_slot(Rng& r, int kind)
{
	MSlot m;
	m.kind = kind;
	m.n = kind == 1 ? rnd_flt(r) : rnd_int(r, false);
	m.w = rnd_wid(r);
	return m;
}
struct Hist
{
	Ctx& c;
	Rng& r;
	Pool p;
	explicit Hist(Ctx& x)
	  : c(x)
	  , r(x.rng)
	{
	}
	long L(MSlot& m) { return m.i = rnd_val<long>(r); }
	double D(MSlot& m) { return m.d = rnd_val<double>(r); }
	const std::string& S(MSlot& m) { return p.add(m.s = rnd_str<char>(r)); }
};
template<class F>
void verify(Hist& h, F& f, const std::string& e)
{
	routes<char>(h.c, f, e, true);
	if (h.r.pct(20))
		routes<char>(h.c, f, e, false);
	MON_COUNT("calls_checked", 1);
}
// all the positions are arguments, or some through null, or chosen positions
void functor_all(Ctx& c)
{
	using namespace seq;
	Hist h(c);
	Rng& r = c.rng;
	MSlot m[4] = { rnd_slot(r, 0), rnd_slot(r, 2), rnd_slot(r, 1), rnd_slot(r, 2) };
	Wid w = rnd_wid(r);
	auto f = fmt<long, tstring_view, double, tstring_view>();
	set_slot(f.get<0>(), m[0]);
	set_slot(f.get<1>(), m[1]);
	set_slot(f.get<2>(), m[2]);
	set_slot(f.get<3>(), m[3]);
	set_wid(f, w);
	auto exp = [&](const MSlot* q) { return pad<char>(q[0].text(c) + q[1].text(c) + q[2].text(c) + q[3].text(c), w, true); };
	verify(h, f, exp(m));
	for (size_t k = 8 + r.below(10); k; --k) {
		int op = int(r.below(10));
		c.op("call", op);
		switch (op) {
			case 0:
			case 1: f(h.L(m[0]), h.S(m[1]), h.D(m[2]), h.S(m[3])); break;
			case 2: f(null, h.S(m[1]), null, h.S(m[3])); break;
			case 3: f(h.L(m[0]), null, h.D(m[2]), null); break;
			case 4: f(pos<3, 0>(), h.S(m[3]), h.L(m[0])); break;
			case 5: f(pos<2>(), h.D(m[2])); break;
			case 6: { // from another format: replaces the options as well
				m[0] = m[3] = MSlot();
				m[3].kind = 2;
				long l = h.L(m[0]);
				const std::string& s = h.S(m[3]);
				const auto g = fmt(l, s);
				f(pos<0, 3>(), g);
				break;
			}
			case 7: { // option change
				size_t i = r.below(4);
				MSlot n = rnd_slot(r, m[i].kind);
				n.i = m[i].i, n.d = m[i].d, n.s = m[i].s;
				m[i] = n;
				auto ch = [&](auto& g) {
					g.set_numeric_format(numeric_format(m[i].kind == 1 ? 'g' : char(10)));
					g.no_align();
					set_slot(g, n);
				};
				i == 0 ? ch(f.get<0>()) : i == 1 ? ch(f.get<1>()) : i == 2 ? ch(f.get<2>()) : ch(f.get<3>());
				break;
			}
			case 8: { // replaces the whole slot
				MSlot n = rnd_slot(r, 1);
				n.d = rnd_val<double>(r);
				m[2] = n;
				auto g = fmt(n.d);
				set_slot(g, n);
				if (r.coin())
					f.set<2>(g);
				else
					f(null, null, g, null);
				break;
			}
			default: { // a copy lives its own life
				MSlot q[4] = { m[0], m[1], m[2], m[3] };
				auto g = r.coin() ? f : *f;
				g(h.L(q[0]), null, h.D(q[2]), h.S(q[3]));
				verify(h, g, exp(q));
				verify(h, f, exp(m));
				if (r.coin()) {
					f = g;
					for (int i = 0; i < 4; ++i)
						m[i] = q[i];
				}
			}
		}
		verify(h, f, exp(m));
	}
}
// slots
void functor_slots(Ctx& c)
{
	using namespace seq;
	Hist h(c);
	Rng& r = c.rng;
	MSlot m[3] = { rnd_slot(r, 0), rnd_slot(r, 1), rnd_slot(r, 2) };
	m[1].n.fmt = 'E';
	Wid w = rnd_wid(r);
	auto s0 = _fmt<long>();
	auto s1 = _E();
	auto s2 = _str();
	set_slot(s0, m[0]);
	set_slot(s1, m[1]);
	set_slot(s2, m[2]);
	const std::string& lit = h.p.add(rnd_str<char>(r));
	bool j = r.coin();
	auto exp = [&](const MSlot* q) {
		std::string sep = j ? "|" : "";
		return pad<char>("a=" + sep + q[0].text(c) + sep + lit + sep + q[1].text(c) + sep + q[2].text(c) + sep + ".", w, true);
	};
	auto run = [&](auto f) {
		set_wid(f, w);
		verify(h, f, exp(m));
		for (size_t k = 8 + r.below(10); k; --k) {
			int op = int(r.below(8));
			c.op("call", op);
			switch (op) {
				case 0:
				case 1: f(h.L(m[0]), h.D(m[1]), h.S(m[2])); break;
				case 2: f(null, h.D(m[1]), null); break;
				case 3: f(h.L(m[0]), null, h.S(m[2])); break;
				case 4: { // only the value of a format of another kind is taken
					double d = h.D(m[1]);
					f(null, fmt(d, 'g').precision(2).l(3), null);
					break;
				}
				case 5: { // conversions
					int v = int(r.range(-100000, 100000));
					m[0].i = v;
					m[1].d = v;
					f(v, v, null);
					break;
				}
				case 6: {
					char32_t fc = r.coin() ? 0 : U'~';
					f.reset(fc);
					for (auto& q : m)
						q.reset(fc);
					// literals are emptied as well: put everything back
					std::string sep = j ? "|" : "";
					verify(h, f, pad<char>(sep + m[0].text(c) + sep + sep + m[1].text(c) + sep + m[2].text(c) + sep, w, true));
					f.template set<0>("a=");
					f.template set<2>(lit);
					f.template set<5>(".");
					break;
				}
				default: {
					MSlot q[3] = { m[0], m[1], m[2] };
					auto g = f;
					g(h.L(q[0]), h.D(q[1]), null);
					verify(h, g, exp(q));
				}
			}
			verify(h, f, exp(m));
		}
	};
	if (j)
		run(join("|", "a=", s0, lit, s1, s2, "."));
	else
		run(fmt("a=", s0, lit, s1, s2, "."));
}
// positions given once and for all
void functor_pos(Ctx& c)
{
	using namespace seq;
	Hist h(c);
	Rng& r = c.rng;
	MSlot m[3] = { rnd_slot(r, 0), rnd_slot(r, 1), rnd_slot(r, 2) };
	auto f0 = fmt<long>();
	auto f1 = fmt<double>();
	auto f2 = str();
	set_slot(f0, m[0]);
	set_slot(f1, m[1]);
	set_slot(f2, m[2]);
	auto f = fmt(pos<4, 0, 2>(), f0, " + ", f1, " = ", f2);
	Wid w = rnd_wid(r);
	set_wid(f, w);
	auto exp = [&](const MSlot* q) { return pad<char>(q[0].text(c) + " + " + q[1].text(c) + " = " + q[2].text(c), w, true); };
	for (size_t k = 8 + r.below(8); k; --k) {
		int op = int(r.below(7));
		c.op("call", op);
		switch (op) {
			case 0:
			case 1: f(h.S(m[2]), h.L(m[0]), h.D(m[1])); break;
			case 2: f(null, h.L(m[0]), null); break;
			case 3: f(pos<2>(), h.D(m[1])); break;
			case 4: { // formats of the same type replace the options as well
				for (int i = 0; i < 3; ++i)
					m[i] = MSlot(), m[i].kind = i;
				const std::string& s = h.S(m[2]);
				long l = h.L(m[0]);
				double d = h.D(m[1]);
				const auto g = fmt(s, l, d);
				f(g);
				break;
			}
			case 5: {
				m[2].reset(0);
				m[2].w.fill = U'%';
				f(fill('%'), null, null);
				break;
			}
			default: {
				MSlot q[3] = { m[0], m[1], m[2] };
				auto g = *f;
				g(h.S(q[2]), null, h.D(q[1]));
				verify(h, g, exp(q));
			}
		}
		verify(h, f, exp(m));
	}
}
// nested formats as slots
void functor_nested(Ctx& c)
{
	using namespace seq;
	Hist h(c);
	Rng& r = c.rng;
	MSlot m[5] = { rnd_slot(r, 2), rnd_slot(r, 0), rnd_slot(r, 2), rnd_slot(r, 0), rnd_slot(r, 1) };
	auto a = _str();
	auto b = _fmt<long>();
	auto d = _str();
	auto e = _fmt<long>();
	auto g = _fmt<double>();
	set_slot(a, m[0]);
	set_slot(b, m[1]);
	set_slot(d, m[2]);
	set_slot(e, m[3]);
	set_slot(g, m[4]);
	Wid w1 = rnd_wid(r), w2 = rnd_wid(r), w = rnd_wid(r);
	auto n1 = _fmt(a, "/", b);
	auto n2 = _join(";", d, "lit", e);
	set_wid(n1, w1);
	set_wid(n2, w2);
	auto f = fmt("1:", n1, " 2:", n2, " ", g);
	set_wid(f, w);
	auto exp = [&](const MSlot* q) {
		return pad<char>("1:" + pad<char>(q[0].text(c) + "/" + q[1].text(c), w1, true) + " 2:" + pad<char>(q[2].text(c) + ";lit;" + q[3].text(c), w2, true) + " " + q[4].text(c), w, true);
	};
	for (size_t k = 8 + r.below(8); k; --k) {
		int op = int(r.below(6));
		c.op("call", op);
		switch (op) {
			case 0:
			case 1: {
				const std::string &s = h.S(m[0]), &t = h.S(m[2]);
				long l1 = h.L(m[1]), l2 = h.L(m[3]);
				f(fmt(s, l1), fmt(t, l2), h.D(m[4]));
				break;
			}
			case 2: {
				long l = h.L(m[3]);
				f.get<3>()(null, l);
				break;
			}
			case 3: {
				const std::string& s = h.S(m[0]);
				f.get<1>()(s, null);
				break;
			}
			case 4: {
				long l = h.L(m[1]);
				m[0].s = "lit";
				f(pos<1>(), fmt("lit", l));
				break;
			}
			default: {
				MSlot q[5] = { m[0], m[1], m[2], m[3], m[4] };
				auto f3 = f;
				const std::string& s = h.S(q[0]);
				long l = h.L(q[1]);
				f3(fmt(s, l), null, h.D(q[4]));
				verify(h, f3, exp(q));
			}
		}
		verify(h, f, exp(m));
	}
}
// slots of any type
void functor_any(Ctx& c)
{
	using namespace seq;
	Hist h(c);
	Rng& r = c.rng;
	Wid w0 = rnd_wid(r), w1 = rnd_wid(r), w = rnd_wid(r);
	auto a = _a(), b = _any();
	set_wid(a, w0);
	set_wid(b, w1);
	auto f = join("|", a, b, "end");
	set_wid(f, w);
	std::string t[2];
	bool num[2] = { false, false };
	for (size_t k = 8 + r.below(10); k; --k) {
		for (int i = 0; i < 2; ++i) {
			int op = int(r.below(12));
			auto put = [&](const auto& x) {
				if (i)
					f.get<1>()(x);
				else
					f.get<0>()(x);
			};
			c.op("any", i, op);
			num[i] = false;
			Num d;
			switch (op) {
				case 0: {
					int v = rnd_val<int>(r);
					put(v), t[i] = itext(v, d), num[i] = true;
					break;
				}
				case 1: {
					double v = rnd_val<double>(r);
					put(v), t[i] = ftext(c, v, d), num[i] = true;
					break;
				}
				case 2: put("literal"), t[i] = "literal"; break;
				case 3: {
					t[i] = rnd_str<char>(r);
					put(t[i].c_str());
					put(std::string(t[i]));
					break;
				}
				case 4: {
					const std::string& s = h.p.add(t[i] = rnd_str<char>(r));
					put(s.c_str());
					break;
				}
				case 5: {
					tstring s(t[i] = rnd_str<char>(r));
					put(s);
					break;
				}
				case 6: {
					double v = rnd_val<double>(r);
					Num n;
					n.fmt = 'E';
					put(E(v)), t[i] = ftext(c, v, n);
					break;
				}
				case 7: {
					unsigned v = rnd_val<unsigned>(r);
					put(hex(v).r(12).f('0'));
					Num n;
					n.base = 16;
					Wid z;
					z.align = 2, z.w = 12, z.fill = '0';
					t[i] = pad<char>(itext(v, n), z, false);
					break;
				}
				case 8: {
					unsigned v = rnd_val<unsigned>(r);
					auto s = fmt(_u(), "ms");
					put(*s(v)), t[i] = std::to_string(v) + "ms";
					s(v + 1);
					break;
				}
				case 9: {
					float v = rnd_val<float>(r);
					put(v), t[i] = ftext(c, v, d), num[i] = true;
					break;
				}
				case 10: {
					Streamed s{ rnd_val<int>(r), rnd_str<char>(r) };
					put(s), t[i] = s.text();
					break;
				}
				default: {
					unsigned long long v = rnd_val<unsigned long long>(r);
					put(v), t[i] = itext(v, d), num[i] = true;
				}
			}
		}
		std::string e0 = pad<char>(t[0], w0, !num[0]), e1 = pad<char>(t[1], w1, !num[1]);
		routes_std(c, f, pad<char>(e0 + "|" + e1 + "|end", w, true));
		auto g = f;
		g(1, null);
		routes_std(c, g, pad<char>(pad<char>("1", w0, false) + "|" + e1 + "|end", w, true));
		routes_std(c, f, pad<char>(e0 + "|" + e1 + "|end", w, true));
		MON_COUNT("any_calls", 1);
	}
	// dash lines of tables
	Wid z0 = w0, z1 = w1;
	z0.fill = z1.fill = U'-';
	if (w0.align && w1.align) {
		auto l = join("|", a, b, "");
		l("ab", 3);
		c.op("reset", w0.w, w1.w);
		routes_std(c, l, pad<char>("ab", w0, true) + "|" + pad<char>("3", w1, false) + "|");
		l.reset('-');
		routes_std(c, l, pad<char>("", z0, true) + "|" + pad<char>("", z1, true) + "|");
	}
}
// formats used while formatting
void nested_use(Ctx& c)
{
	using namespace seq;
	Rng& r = c.rng;
	for (int k = 0; k < 3; ++k) {
		Tree t = rnd_tree(r, 4);
		std::string e = t.text();
		if (e.size() > 60000)
			continue;
		Wid w = rnd_wid(r);
		c.op("tree", e.size(), w.align, w.w);
		auto f = fmt(t);
		set_wid(f, w);
		routes<char>(c, f, pad<char>(e, w, true));
		auto m = fmt("before ", t, " after ", t.v);
		set_wid(m, w);
		c.op("multi", e.size());
		routes<char>(c, m, pad<char>("before " + e + " after " + std::to_string(t.v), w, true));
		std::vector<Tree> v{ t, rnd_tree(r, 2) };
		auto j = join(", ", v);
		c.op("join", e.size());
		routes<char>(c, j, e + ", " + v[1].text());
		auto g = fmt("x", j, 1.5, fmt(t, "y"));
		c.op("nested", e.size());
		routes<char>(c, g, "x" + e + ", " + v[1].text() + "1.5" + e + "y");
		// in arguments of a functor
		auto fn = fmt("<", _fmt<Tree>(), "|", _a(), ">");
		fn(v[1], t);
		c.op("functor", e.size());
		routes_std(c, fn, "<" + v[1].text() + "|" + e + ">");
		MON_COUNT("nested_texts", 1);
	}
}
FAMILY(fa, "C26/functor", 3000, 100000, 0) { functor_all(c); }
FAMILY(fs, "C26/slots", 3000, 100000, 0) { functor_slots(c); }
FAMILY(fp, "C26/positional", 3000, 100000, 0) { functor_pos(c); }
FAMILY(fn, "C26/nested-slots", 2500, 80000, 0) { functor_nested(c); }
FAMILY(fy, "C26/any-slots", 2000, 60000, 0) { functor_any(c); }
FAMILY(fu, "C26/nested-use", 2500, 80000, 0) { nested_use(c); }
#endif

#if PART == 3
// ---------------------------------------------------------------- C26: threads
void threads(Ctx& c)
{
	using namespace seq;
	Rng& r = c.rng;
	const int N = 2 + int(r.below(4)), M = 8;
	auto proto = fmt("n=", _d(), " ", _g<double>().p(6).l(8), "|", _str().c(12), _a());
	Tree tree = rnd_tree(r, 3);
	std::string te = tree.text();
	const auto shared = fmt("[", 42, ",", fmt(2.5).r(8), ",", tree, "]");
	const std::string se = "[42,     2.5," + te + "]";
	std::vector<int> vec{ 1, 2, 3 };
	const auto sjoin = join(", ", vec);
	uint64_t seed = r.next();
	std::vector<std::string> err(static_cast<size_t>(N));
	std::vector<std::thread> th;
	c.op("threads", N, te.size());
	c.op("shared", se.size());
	c.op("seed", seed);
	c.op("proto", M);
	for (int t = 0; t < N; ++t)
		th.emplace_back([&, t] {
			Rng q(mix(seed, uint64_t(t)));
			auto f = proto;
			auto bad = [&](const std::string& got, const std::string& want, const char* what) {
				if (got != want && err[size_t(t)].empty())
					err[size_t(t)] = std::string(what) + ": [" + got.substr(0, 200) + "] instead of [" + want.substr(0, 200) + "]";
			};
			for (int k = 0; k < M; ++k) {
				int v = int(q.range(-1000000, 1000000));
				double d = double(q.range(-4000, 4000)) / 4;
				std::string s = rnd_str<char>(q, 20);
				char b[64];
				snprintf(b, sizeof b, "%.6g", d);
				Wid l, ce;
				l.align = 1, l.w = 8, ce.align = 3, ce.w = 12;
				std::string want = "n=" + std::to_string(v) + " " + pad<char>(b, l, false) + "|" + pad<char>(s, ce, true) + te;
				f(v, d, s, tree);
				bad(f.template str<std::string>(), want, "own copy");
				std::ostringstream o;
				o << f;
				bad(o.str(), want, "own copy, stream");
				bad(shared.template str<std::string>(), se, "shared");
				std::ostringstream o2;
				o2 << shared << sjoin;
				bad(o2.str(), se + "1, 2, 3", "shared, stream");
				std::string ap = "x";
				sjoin.append(ap);
				bad(ap, "x1, 2, 3", "shared, append");
				if (q.pct(20))
					std::this_thread::yield();
			}
		});
	for (auto& x : th)
		x.join();
	for (auto& s : err)
		c.check(s.empty(), "text", "%s", s.c_str());
	MON_COUNT("texts_checked", uint64_t(5 * M * N));
	c.state(mix(seed, hstr(te.c_str())));
}
FAMILY(ft, "C26/threads", 400, 8000, 0) { threads(c); }
#endif
