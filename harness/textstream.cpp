// C24: the text input streams (buffer, std::istream, FILE) against a naive model working on the whole text, for every
// buffer size, with interleaved reads of numbers, words, lines, characters and blocks, seeks and backward steps.
// Token reading is also compared with std::istream.
#include "mon.hpp"
#include <seq/charconv.hpp>
#include <seq/tiny_string.hpp>
#include <cmath>
#include <cstdio>
#include <memory>
#include <sstream>
#include <string>
using namespace mon;

template<class C>
std::basic_string<C> widen(const std::string& s)
{
	std::basic_string<C> r;
	for (char x : s)
		r.push_back(sizeof(C) == 1 ? static_cast<C>(x) : static_cast<C>(static_cast<unsigned char>(x)));
	return r;
}
inline std::string rnd_text(Rng& r)
{
	static const char* bits[] = { "nan", "inf", "-inf", "1e", "1e+", ".5", "5.", "-", "+", "0x1F", "0X", "1e-400", "1e400", "x", "NaN", ".", "e", "12345678901234567890123", "-.", "0", "-0", "0.0000000000000000000000001", "1.5.5", "3-2", "ff", "zZ", "\xff", "\xff\xff", "\x80" };
	static const char* sp[] = { " ", "  ", "\t", "\n", "\r\n", "\n\n", "\v", "\f", "\r", "" };
	std::string s;
	size_t n = r.below(20);
	for (size_t k = 0; k < n; ++k) {
		switch (r.below(6)) {
			case 0:
				s += bits[r.below(29)];
				break;
			case 1:
				s += std::to_string(static_cast<int64_t>(r.next() >> r.below(64)));
				break;
			case 2: {
				char b[64];
				double m = static_cast<double>(r.next()) / static_cast<double>(1ull << 60);
				snprintf(b, sizeof b, r.coin() ? "%.*g" : "%.*e", int(r.below(20)), m * std::pow(10., double(r.range(-30, 30))));
				s += b;
				break;
			}
			case 3:
				for (size_t j = r.below(r.pct(10) ? 80 : 12); j; --j)
					s += static_cast<char>('a' + r.below(26));
				break;
			case 4:
				for (size_t j = r.below(40); j; --j)
					s += static_cast<char>('0' + r.below(10));
				break;
			default:
				s += static_cast<char>(r.below(256));
		}
		s += sp[r.below(10)];
	}
	return s;
}
template<class C>
bool space(C c)
{
	return c == C(' ') || (c >= C(9) && c <= C(13));
}
template<class C>
std::string show(const std::basic_string<C>& s)
{
	std::string r;
	for (C c : s) {
		unsigned long u = static_cast<unsigned long>(static_cast<typename std::make_unsigned<C>::type>(c));
		if (u >= 32 && u < 127)
			r += static_cast<char>(u);
		else {
			char b[12];
			snprintf(b, sizeof b, "\\x%02lx", u);
			r += b;
		}
	}
	return r;
}
template<class C>
int as_int(C c)
{
	return static_cast<int>(static_cast<typename std::make_unsigned<C>::type>(c));
}

template<class C, class S>
struct Driver
{
	Ctx& c;
	S& st;
	const std::basic_string<C>& text;
	size_t pos;
	bool loose; // position not specified: adopt the one of the stream

	size_t skip_spaces() const
	{
		size_t p = pos;
		while (p < text.size() && space(text[p]))
			++p;
		return p;
	}
	std::string ctx(size_t p) const { return "at " + std::to_string(p) + " of \"" + show(text) + "\""; }
	void position(const char* what, size_t before)
	{
		size_t t = static_cast<size_t>(st.tell());
		c.check(t == pos, "position", "%s: stream at %zu instead of %zu, started %s", what, t, pos, ctx(before).c_str());
		c.state(mix(hstr(what), mix(mix(pos == text.size(), st.is_ok()), pos & 31)));
	}
	void failure(const char* what, size_t before)
	{
		// Either nothing is left but spaces (end of file), or the text does not match (bad input)
		size_t p = skip_spaces();
		c.check(!st.is_ok(), "state-fail", "%s failed %s but the stream is in a valid state", what, ctx(before).c_str());
		if (p == text.size())
			c.check(st.state() == seq::EndOfFile, "state-eof", "%s at the end of the text does not report EndOfFile, %s", what, ctx(before).c_str());
		else
			c.check(st.state() == seq::BadInputFormat || st.state() == seq::EndOfFile, "state-bad", "%s: unknown state", what);
		size_t t = static_cast<size_t>(st.tell());
		c.check(t == before || (p == text.size() && t == text.size()), "position", "%s failed but moved the stream to %zu, started %s", what, t, ctx(before).c_str());
		pos = t;
		MON_COUNT("failed_reads", 1);
	}
	template<class T, class F, class G>
	void number(const char* what, F stream_read, G ref_read)
	{
		size_t before = pos;
		T v = T(77), w = T(78);
		stream_read(v);
		auto q = ref_read(text.data() + pos, text.data() + text.size(), w);
		if (q.ec == std::errc()) {
			pos = static_cast<size_t>(q.ptr - text.data());
			c.check(st.is_ok(), "state", "%s: successful read leaves an error state, %s", what, ctx(before).c_str());
			c.check(v == w || (v != v && w != w), "value", "%s: read %s from the stream, %s from memory, %s", what, std::to_string(v).c_str(), std::to_string(w).c_str(), ctx(before).c_str());
			position(what, before);
			MON_COUNT("numbers", 1);
		}
		else {
			c.check(v == T(0), "value", "%s: failed read leaves the value %s", what, std::to_string(v).c_str());
			failure(what, before);
		}
	}
	template<class T>
	void integer(const char* name, int base)
	{
		number<T>(
		  name, [&](T& v) { base == 10 && c.rng.coin() ? seq::from_stream(st, v) : seq::from_stream(st, v, base); }, [&](const C* a, const C* b, T& v) { return seq::from_chars(a, b, v, base); });
	}
	template<class T>
	void floating(const char* name)
	{
		seq::chars_format f = c.rng.pct(70) ? seq::general : c.rng.coin() ? seq::fixed : seq::scientific;
		char dot = c.rng.pct(90) ? '.' : ',';
		number<T>(
		  name, [&](T& v) { seq::from_stream(st, v, f, dot); }, [&](const C* a, const C* b, T& v) { return seq::from_chars(a, b, v, f, dot); });
	}
	template<class Str>
	void word(const char* name)
	{
		size_t before = pos, p = skip_spaces(), e = p;
		Str s(3, C('?'));
		seq::from_stream(st, s);
		while (e < text.size() && !space(text[e]))
			++e;
		if (p == text.size()) {
			c.check(s.size() == 0, "word", "%s at the end of the text leaves a non empty string", name);
			failure(name, before);
			return;
		}
		c.check(st.is_ok(), "state", "%s: successful read leaves an error state, %s", name, ctx(before).c_str());
		c.check(std::basic_string<C>(s.data(), s.size()) == text.substr(p, e - p), "word", "%s read \"%s\", %s", name, show(std::basic_string<C>(s.data(), s.size())).c_str(), ctx(before).c_str());
		pos = e;
		position(name, before);
		MON_COUNT("words", 1);
	}
	template<class Str>
	void line(const char* name)
	{
		size_t before = pos, p = skip_spaces(), e = p;
		Str s(3, C('?'));
		seq::read_line_from_stream(st, s);
		while (e < text.size() && text[e] != C('\n') && text[e] != C('\r'))
			++e;
		if (p == text.size()) {
			c.check(s.size() == 0, "line", "%s at the end of the text leaves a non empty string", name);
			failure(name, before);
			return;
		}
		c.check(st.is_ok(), "state", "%s: successful read leaves an error state, %s", name, ctx(before).c_str());
		c.check(std::basic_string<C>(s.data(), s.size()) == text.substr(p, e - p), "line", "%s read \"%s\", %s", name, show(std::basic_string<C>(s.data(), s.size())).c_str(), ctx(before).c_str());
		pos = e;
		position(name, before);
		MON_COUNT("lines", 1);
	}
	void chars()
	{
		for (size_t k = 1 + c.rng.below(5); k; --k) {
			size_t before = pos;
			st.reset();
			int g = st.getc();
			if (pos < text.size()) {
				c.check(g == as_int(text[pos]), "getc", "getc returned %d, %s", g, ctx(before).c_str());
				c.check(st.is_ok(), "state", "getc leaves an error state, %s", ctx(before).c_str());
				++pos;
			}
			else {
				c.check(g == EOF, "getc", "getc returned %d at the end of the text, %s", g, ctx(before).c_str());
				c.check(st.state() == seq::EndOfFile, "state", "getc at the end of the text does not report EndOfFile");
			}
			position("getc", before);
			MON_COUNT("chars", 1);
		}
	}
	void block()
	{
		size_t before = pos, n = c.rng.below(c.rng.pct(20) ? 200 : 12), m = std::min(n, text.size() - pos);
		std::unique_ptr<C[]> b(new C[n]);
		st.reset();
		size_t g = static_cast<size_t>(st.read(b.get(), n));
		c.check(g == m, "read", "read(%zu) returned %zu instead of %zu, %s", n, g, m, ctx(before).c_str());
		c.check(std::basic_string<C>(b.get(), m) == text.substr(pos, m), "read", "read(%zu) returned wrong characters, %s", n, ctx(before).c_str());
		c.check(st.is_ok() == (m == n), "state", "read(%zu) of %zu characters: wrong state, %s", n, m, ctx(before).c_str());
		pos += m;
		position("read", before);
		MON_COUNT("blocks", 1);
	}
	void seek()
	{
		size_t before = pos;
		if (c.rng.pct(5)) { // beyond the end: some valid position is left
			size_t q = static_cast<size_t>(st.seek(text.size() + 1 + c.rng.below(5)));
			size_t t = static_cast<size_t>(st.tell());
			c.check(q == t, "seek", "seek beyond the end returned %zu but the stream is at %zu", q, t);
			if (t > text.size()) {
				st.reset();
				c.check(st.getc() == EOF, "seek", "character read beyond the end of the text (position %zu), %s", t, ctx(before).c_str());
				q = static_cast<size_t>(st.seek(before));
				c.check(q == before, "seek", "seek(%zu) returned %zu after a seek beyond the end", before, q);
				t = before;
			}
			st.reset();
			pos = t;
			MON_COUNT("seeks_out_of_range", 1);
			return;
		}
		size_t to = c.rng.coin() ? c.rng.below(text.size() + 1) : pos + c.rng.below(8) - 4;
		if (to > text.size())
			to = pos;
		size_t q = static_cast<size_t>(st.seek(to));
		c.check(q == to, "seek", "seek(%zu) returned %zu, %s", to, q, ctx(before).c_str());
		pos = to;
		position("seek", before);
		MON_COUNT("seeks", 1);
	}
	void back()
	{
		for (size_t k = 1 + c.rng.below(4); k; --k) {
			size_t before = pos;
			st.back();
			if (pos)
				--pos;
			position("back", before);
			MON_COUNT("backs", 1);
		}
	}
	void step()
	{
		Rng& r = c.rng;
		size_t k = r.below(16);
		c.op("step", k, pos);
		switch (k) {
			case 0: integer<int>("int", 10); break;
			case 1: integer<unsigned long long>("u64", 10); break;
			case 2: integer<long>("long", r.coin() ? 16 : int(r.range(2, 36))); break;
			case 3: integer<short>("short", 16); break;
			case 4: floating<double>("double"); break;
			case 5: floating<float>("float"); break;
			case 6: floating<long double>("ldouble"); break;
			case 7: word<std::basic_string<C>>("word"); break;
			case 8: word<seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 0>>("tiny word"); break;
			case 9: line<std::basic_string<C>>("line"); break;
			case 10: line<seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 0>>("tiny line"); break;
			case 11: chars(); break;
			case 12: block(); break;
			case 13: seek(); break;
			default: back(); break;
		}
	}
	void run(size_t n)
	{
		for (size_t k = 0; k < n; ++k)
			step();
	}
};

template<class C>
void buffer_case(Ctx& c)
{
	auto full = widen<C>(rnd_text(c.rng));
	std::unique_ptr<C[]> mem(new C[full.size()]); // exact size
	std::copy(full.begin(), full.end(), mem.get());
	seq::buffer_input_stream<C> st(mem.get(), full.size());
	if (c.rng.pct(20))
		st = seq::buffer_input_stream<C>(full);
	c.check(st.size() == full.size() && st.tell() == 0 && st.is_ok(), "open", "fresh buffer stream");
	c.op("text", show(full).c_str());
	Driver<C, seq::buffer_input_stream<C>> d{ c, st, full, 0, false };
	d.run(3 + c.rng.below(40));
	c.check(st.at_end() == (d.pos == full.size()), "at_end", "at_end() differs from the position");
	st.close();
	c.check(!st.is_open() && st.is_ok() && st.tell() == 0 && st.getc() == EOF, "close", "closed buffer stream");
}
template<class C, unsigned N>
void std_case(Ctx& c)
{
	auto full = widen<C>(rnd_text(c.rng));
	std::basic_istringstream<C> iss(full);
	size_t start = c.rng.coin() ? 0 : c.rng.below(full.size() + 1);
	iss.seekg(static_cast<std::streamoff>(start));
	seq::std_input_stream<C, N> st(iss);
	c.check(st.is_open() && st.tell() == start && st.is_ok(), "open", "std::istream at %zu opened at %zu", start, size_t(st.tell()));
	c.op("text", show(full).c_str());
	Driver<C, seq::std_input_stream<C, N>> d{ c, st, full, start, false };
	d.run(3 + c.rng.below(40));
	st.close();
	c.check(!st.is_open() && st.is_ok() && st.tell() == 0, "close", "closed stream");
	// the std::istream carries on from there
	c.check(iss.good() && iss.tellg() == std::streamoff(d.pos), "handback", "std::istream left at %lld instead of %zu (state %d) of \"%s\"", static_cast<long long>(iss.tellg()), d.pos, int(iss.rdstate()), show(full).c_str());
	auto ch = iss.get();
	c.check(d.pos < full.size() ? ch == std::char_traits<C>::to_int_type(full[d.pos]) : ch == std::char_traits<C>::eof(), "handback", "std::istream continues with another character");
	MON_COUNT("streams_handed_back", 1);
}
template<unsigned N>
void file_case(Ctx& c)
{
	auto full = rnd_text(c.rng);
	struct Close
	{
		void operator()(FILE* f) const { fclose(f); }
	};
	FILE* tmp = tmpfile();
	c.check(tmp != nullptr, "setup", "tmpfile");
	fwrite(full.data(), 1, full.size(), tmp);
	size_t start = c.rng.coin() ? 0 : c.rng.below(full.size() + 1);
	fseek(tmp, static_cast<long>(start), SEEK_SET);
	c.op("text", show(full).c_str());
	bool own = c.rng.coin();
	std::unique_ptr<FILE, Close> guard(own ? nullptr : tmp);
	{
		seq::file_input_stream<N> st(nullptr, false);
		if (c.rng.coin())
			st.open(tmp, own);
		else {
			st.~file_input_stream();
			new (&st) seq::file_input_stream<N>(tmp, own);
		}
		c.check(st.is_open() && st.tell() == start && st.is_ok(), "open", "FILE at %zu opened at %zu", start, size_t(st.tell()));
		Driver<char, seq::file_input_stream<N>> d{ c, st, full, start, false };
		d.run(3 + c.rng.below(40));
		start = d.pos;
		if (c.rng.coin()) {
			st.close();
			c.check(!st.is_open() && st.is_ok() && st.tell() == 0, "close", "closed stream");
		}
	}
	if (!own) {
		c.check(ftell(tmp) == long(start), "handback", "FILE left at %ld instead of %zu", ftell(tmp), start);
		int ch = fgetc(tmp);
		c.check(ch == (start < full.size() ? as_int(full[start]) : EOF), "handback", "FILE continues with another character");
		MON_COUNT("files_handed_back", 1);
	}
	else
		MON_COUNT("files_owned", 1);
}

// Well formed tokens: same values as operator>>.
template<class C, class S>
void read_tokens(Ctx& c, S& st, const std::basic_string<C>& text, const std::vector<int>& kinds)
{
	std::basic_istringstream<C> ref(text);
	for (size_t k = 0; k < kinds.size(); ++k) {
		if (kinds[k] == 0) {
			long long a = 0, b = 0;
			seq::from_stream(st, a);
			ref >> b;
			c.check(a == b && st.is_ok(), "token-int", "token %zu: %lld instead of %lld", k, a, b);
		}
		else if (kinds[k] == 1) {
			double a = 0, b = 0;
			seq::from_stream(st, a);
			ref >> b;
			c.check(st.is_ok() && std::fabs(a - b) <= 1e-14 * std::fabs(b), "token-double", "token %zu: %.17g instead of %.17g", k, a, b);
		}
		else if (kinds[k] == 2) {
			std::basic_string<C> a, b;
			seq::from_stream(st, a);
			ref >> b;
			c.check(st.is_ok() && a == b, "token-word", "token %zu: \"%s\" instead of \"%s\"", k, show(a).c_str(), show(b).c_str());
		}
		else {
			std::basic_string<C> a, b;
			seq::read_line_from_stream(st, a);
			ref >> std::ws;
			std::getline(ref, b);
			c.check(st.is_ok() && a == b, "token-line", "token %zu: \"%s\" instead of \"%s\"", k, show(a).c_str(), show(b).c_str());
		}
		c.op("token", kinds[k]);
		MON_COUNT("tokens_as_istream", 1);
	}
	std::basic_string<C> w;
	seq::from_stream(st, w);
	c.check(w.empty() && st.state() == seq::EndOfFile && !st, "token-end", "no EndOfFile after the last token");
}
template<class C>
void token_case(Ctx& c)
{
	Rng& r = c.rng;
	std::string s;
	std::vector<int> kinds;
	for (size_t n = r.below(30); n; --n) {
		kinds.push_back(int(r.below(4)));
		char b[80];
		switch (kinds.back()) {
			case 0:
				s += std::to_string(static_cast<int64_t>(r.next()) >> r.below(64));
				break;
			case 1: {
				double m = (static_cast<double>(r.next()) / static_cast<double>(1ull << 63) - 1) * std::pow(10., double(r.range(-40, 40)));
				snprintf(b, sizeof b, r.coin() ? "%.*g" : "%.*e", int(1 + r.below(20)), m);
				s += b;
				break;
			}
			case 2:
				for (size_t j = 1 + r.below(40); j; --j)
					s += static_cast<char>('!' + r.below(90));
				break;
			default:
				s += '!' + r.below(90);
				for (size_t j = r.below(40); j; --j)
					s += static_cast<char>(' ' + r.below(90));
				s += '\n';
		}
		static const char* sp[] = { " ", "  ", "\t", "\n", "\n\n", " \n" };
		if (n > 1 || r.coin())
			s += sp[r.below(6)];
	}
	auto text = widen<C>(s);
	c.op("tokens", s.c_str());
	{
		seq::buffer_input_stream<C> st(text);
		read_tokens<C>(c, st, text, kinds);
	}
	{
		std::basic_istringstream<C> iss(text);
		seq::std_input_stream<C, 1> st(iss);
		read_tokens<C>(c, st, text, kinds);
	}
	{
		std::basic_istringstream<C> iss(text);
		seq::std_input_stream<C> st(iss);
		read_tokens<C>(c, st, text, kinds);
	}
	if constexpr (sizeof(C) == 1) {
		FILE* tmp = tmpfile();
		fwrite(text.data(), 1, text.size(), tmp);
		rewind(tmp);
		seq::file_input_stream<5> st(tmp, true);
		read_tokens<C>(c, st, text, kinds);
	}
}
#if PART == 0
static Reg b0("C24/buffer/char", 12000, 400000, &buffer_case<char>);
static Reg b1("C24/buffer/wchar_t", 6000, 200000, &buffer_case<wchar_t>);
static Reg b2("C24/buffer/char16_t", 6000, 200000, &buffer_case<char16_t>);
#endif
#if PART == 1
static Reg s0("C24/istream/char/1", 5000, 200000, &std_case<char, 1>);
static Reg s1("C24/istream/char/2", 5000, 200000, &std_case<char, 2>);
static Reg s2("C24/istream/char/7", 5000, 200000, &std_case<char, 7>);
static Reg s3("C24/istream/char/32", 8000, 200000, &std_case<char, 32>);
static Reg s4("C24/istream/wchar_t/3", 5000, 200000, &std_case<wchar_t, 3>);
#endif
#if PART == 2
static Reg f0("C24/file/1", 4000, 150000, &file_case<1>);
static Reg f1("C24/file/3", 4000, 150000, &file_case<3>);
static Reg f2("C24/file/32", 6000, 150000, &file_case<32>);
#endif
#if PART == 3
static Reg t0("C24/tokens/char", 4000, 150000, &token_case<char>);
static Reg t1("C24/tokens/wchar_t", 2000, 100000, &token_case<wchar_t>);
#endif
