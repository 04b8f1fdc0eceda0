// C09/C10: UTF conversions against a reference written from the Unicode tables.
// SOURCES: Basic.cpp Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp
#include <Strings/Conversion.h>
#include "drv.h"
#include <clocale>
using namespace vl; using namespace vl::encoding; using namespace drv;
typedef std::vector<unsigned> V;
static std::string show(const V& v) { std::string r; char b[16]; for (auto x : v) { snprintf(b, 16, " %X", x); r += b; } return r; }
// encodings as unit values; -1 (empty) when the value has none
static V e8(unsigned c)
{
	if (c <= 0x7F) return { c };
	if (c >= 0xD800 && c <= 0xDFFF) return {};
	int n = c <= 0x7FF ? 2 : c <= 0xFFFF ? 3 : c <= 0x1FFFFF ? 4 : c <= 0x3FFFFFF ? 5 : c <= 0x7FFFFFFF ? 6 : 0;
	if (!n) return {};
	static const unsigned lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC }; V v(n);
	for (int i = n - 1; i > 0; i--) { v[i] = 0x80 + c % 64; c /= 64; }
	v[0] = lead[n] + c; return v;
}
static V e16(unsigned c)
{
	if (c >= 0xD800 && c <= 0xDFFF) return {};
	if (c <= 0xFFFF) return { c };
	if (c > 0x10FFFF) return {};
	return { 0xD800 + (c - 0x10000) / 1024, 0xDC00 + (c - 0x10000) % 1024 };
}
static unsigned sw(unsigned x) { return (x % 256) * 256 + x / 256; }
static V ebe(unsigned c) { V v = e16(c); for (auto& x : v) x = sw(x); return v; }
static V e32(unsigned c) { return { c }; }
template<typename T> unsigned raw(T c) { return (unsigned)(std::make_unsigned_t<std::conditional_t<std::is_same_v<T, wchar_t>, int, std::conditional_t<sizeof(T) == 1, char, T>>>)c; }
static unsigned raw(char32_t c) { return c; } static unsigned raw(char16_t c) { return c; } static unsigned raw(char8_t c) { return c; } static unsigned raw(char16be_t c) { return c.value; } static unsigned raw(wchar_t c) { return (unsigned)c; }
template<typename T> T mk(unsigned x) { return (T)x; }
template<> char16be_t mk<char16be_t>(unsigned x) { char16be_t r; r.value = (char16_t)x; return r; }
template<typename T> struct Enc; 
template<> struct Enc<char8_t> { static V e(unsigned c) { return e8(c); } static constexpr int N = 6; static constexpr const char* nm = "UTF-8"; };
template<> struct Enc<char16_t> { static V e(unsigned c) { return e16(c); } static constexpr int N = 2; static constexpr const char* nm = "UTF-16"; };
template<> struct Enc<char16be_t> { static V e(unsigned c) { return ebe(c); } static constexpr int N = 2; static constexpr const char* nm = "UTF-16BE"; };
template<> struct Enc<wchar_t> { static V e(unsigned c) { return e32(c); } static constexpr int N = 1; static constexpr const char* nm = "wide"; };
template<> struct Enc<char32_t> { static V e(unsigned c) { return e32(c); } static constexpr int N = 1; static constexpr const char* nm = "UTF-32"; };
// first character of a sequence, by definition: the code point whose encoding is a prefix of it
template<typename T> bool first(const V& s, size_t at, unsigned& c, int& n)
{
	V t(s.begin() + at, s.end());
	auto tryc = [&](unsigned k) { V v = Enc<T>::e(k); if (!v.empty() && v.size() <= t.size() && std::equal(v.begin(), v.end(), t.begin())) { c = k; n = (int)v.size(); return true; } return false; };
	if (t.empty()) return false;
	if (Enc<T>::N == 1) return tryc(t[0]);
	if (Enc<T>::N == 2)
	{
		bool be = std::is_same_v<T, char16be_t>; unsigned a = be ? sw(t[0]) : t[0], b = t.size() > 1 ? be ? sw(t[1]) : t[1] : 0;
		return tryc(a) || (a >= 0xD800 && b >= 0xDC00 && tryc((a - 0xD800) * 1024 + (b - 0xDC00) + 0x10000));
	}
	unsigned a = t[0];
	if (tryc(a)) return true;
	for (int k = 2; k <= 6 && k <= (int)t.size(); k++)
	{
		static const unsigned lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC }, top[] = { 0, 0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE };
		if (a < lead[k] || a >= top[k]) continue;
		unsigned x = a - lead[k]; for (int i = 1; i < k; i++) x = x * 64 + (t[i] & 63);
		if (tryc(x)) return true;
	}
	return false;
}
template<typename T> void from(unsigned c)
{
	T d[Enc<T>::N]; V v = Enc<T>::e(c); vint n = UtfConversion<T>::From32((char32_t)c, d);
	if (n != (v.empty() ? -1 : (vint)v.size())) fail(S(Enc<T>::nm, ": From32(", c, ") returns ", n));
	for (size_t i = 0; i < v.size(); i++) if (raw(d[i]) != v[i]) fail(S(Enc<T>::nm, ": From32(", c, ") unit ", i, " is ", raw(d[i]), ", expected", show(v)));
}
template<typename T> void to(const V& s)
{
	std::vector<T> b; for (auto x : s) b.push_back(mk<T>(x));
	T* p = (T*)malloc(sizeof(T) * (s.size() ? s.size() : 1)); for (size_t i = 0; i < b.size(); i++) p[i] = b[i];
	unsigned c = 0; int n = -1; bool ok = first<T>(s, 0, c, n); char32_t d = 0xABCDEF;
	vint r = UtfConversion<T>::To32(p, (vint)s.size(), d);
	if (r != (ok ? n : -1)) fail(S(Enc<T>::nm, ": To32 of", show(s), " returns ", r, ", expected ", ok ? n : -1));
	if (ok && d != c) fail(S(Enc<T>::nm, ": To32 of", show(s), " gives ", (unsigned)d, ", expected ", c));
	free(p);
}
static unsigned rcp(bool valid)
{
	static const unsigned edge[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0x103FF, 0x10400, 0x3FF, 0x400 };
	static const unsigned bad[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu };
	if (!valid && rnd() % 4 == 0) return bad[rnd() % 12];
	switch (rnd() % 5) { case 0: return edge[rnd() % 15]; case 1: return 1 + rnd() % 0x7F; case 2: return 0x80 + rnd() % 0x780; default: { unsigned c = 1 + rnd() % 0x10FFFF; return c >= 0xD800 && c <= 0xDFFF ? 0xE000 : c; } }
}
template<typename T> V rtext(bool valid)
{
	V s; long n = rnd(0, 6);
	for (long i = 0; i < n; i++) { unsigned c = rcp(true); if (sizeof(T) == 1 && !valid && rnd() % 4 == 0) c = rnd() % 2 ? 0x200000 + rnd() % 0x3E00000 : 0x4000000 + rnd() % 0x7C000000; V v = Enc<T>::e(c); s.insert(s.end(), v.begin(), v.end()); }
	if (!valid && rnd() % 3 == 0) return s;
	if (!valid) { if (!s.empty() && rnd() % 2) s.erase(s.begin() + rnd() % s.size()); else { unsigned x = 1 + rnd() % (sizeof(T) == 1 ? 255 : 65535); if (Enc<T>::N == 1) x = rcp(false); if (Enc<T>::N == 2) x = rnd() % 2 ? 0xD800 + rnd() % 0x800 : x; if (std::is_same_v<T, char16be_t>) x = sw(x); if (!x) x = 1; s.insert(s.begin() + rnd() % (s.size() + 1), x); } }
	return s;
}
struct Cl { unsigned u; vint ci, cs; };
// expected units: those of the longest convertible prefix
template<typename A, typename B> std::vector<Cl> expect(const V& s, bool& whole)
{
	std::vector<Cl> r; size_t at = 0; whole = true;
	constexpr bool direct = Enc<A>::N == 1 && Enc<B>::N == 1;
	while (at < s.size())
	{
		unsigned c; int n; if (!first<A>(s, at, c, n)) { whole = false; break; }
		V v = Enc<B>::e(c); if (v.empty() && !direct) { whole = false; break; }
		for (auto u : v) r.push_back({ u, (vint)at, n });
		at += n;
	}
	return r;
}
template<typename A, typename B> void text(bool valid)
{
	V s = rtext<A>(valid); bool whole; auto e = expect<A, B>(s, whole);
	log(S(Enc<A>::nm, " -> ", Enc<B>::nm, " of", show(s)));
	std::vector<A> b; for (auto u : s) b.push_back(mk<A>(u)); 
	std::unique_ptr<A[]> z(new A[s.size() + 1]), x(new A[s.size() ? s.size() : 1]); for (size_t i = 0; i < b.size(); i++) z[i] = x[i] = b[i]; z[s.size()] = mk<A>(0);
	auto run = [&](auto&& r, const char* w)
	{
		for (size_t i = 0; i < e.size(); i++)
		{
			unsigned u = raw(r.Read());
			if (u != e[i].u) fail(S(w, ": unit ", i, " is ", u, ", expected ", e[i].u));
			if (r.ReadingIndex() != (vint)i) fail(S(w, ": ReadingIndex after unit ", i, " is ", r.ReadingIndex()));
			auto c = r.SourceCluster(); if (c.index != e[i].ci || c.size != e[i].cs) fail(S(w, ": SourceCluster of unit ", i, " is ", c.index, "+", c.size, ", expected ", e[i].ci, "+", e[i].cs));
		}
		for (int k = 0; k < 3; k++)
		{
			unsigned u = raw(r.Read()); if (u) fail(S(w, ": unit after the end is ", u));
			if (!whole) continue;
			if (r.ReadingIndex() != (vint)e.size()) fail(S(w, ": ReadingIndex at the end is ", r.ReadingIndex()));
			auto c = r.SourceCluster(); if (c.index != (vint)s.size() || c.size != 0) fail(S(w, ": SourceCluster at the end is ", c.index, "+", c.size));
		}
	};
	if constexpr (!std::is_same_v<A, char16be_t>) run(UtfStringToStringReader<A, B>(z.get()), "UtfStringToStringReader");
	run(UtfStringRangeToStringRangeReader<A, B>(x.get(), x.get() + s.size()), "UtfStringRangeToStringRangeReader");
	run(UtfStringRangeToStringRangeReader<A, B>(x.get(), (vint)s.size()), "UtfStringRangeToStringRangeReader(count)");
	if constexpr (!std::is_same_v<A, char16be_t> && !std::is_same_v<B, char16be_t>)
	{
		vint n = _utftoutf<A, B>(z.get(), nullptr, 0); check(n == (vint)e.size() + 1, S("_utftoutf needs ", n, " units, expected ", e.size() + 1));
		vint m = rnd(0, n + 1); B* d = (B*)malloc(sizeof(B) * (m ? m : 1)); vint k = _utftoutf<A, B>(z.get(), d, m);
		check(k == std::min(m, n), S("_utftoutf writes ", k, " units"));
		for (vint i = 0; i < k; i++) if (raw(d[i]) != (i < n - 1 ? e[i].u : 0)) fail(S("_utftoutf: unit ", i, " is ", raw(d[i])));
		free(d);
	}
	trace.clear();
}
template<typename A, typename B, typename F> void strs(F f, const char* w)
{
	V s = rtext<A>(rnd() % 3); bool whole; auto e = expect<A, B>(s, whole); log(S(w, " of", show(s)));
	if (!whole && Enc<A>::N == 1 && Enc<B>::N == 1) return;
	std::basic_string<A> t; for (auto u : s) t += mk<A>(u);
	auto same = [&](const ObjectString<B>& r, const char* k) { if (r.Length() != (vint)e.size()) fail(S(w, k, ": length ", r.Length(), ", expected ", e.size())); for (size_t i = 0; i < e.size(); i++) if (raw(r[(vint)i]) != e[i].u) fail(S(w, k, ": unit ", i, " is ", raw(r[(vint)i]))); check(r.Buffer()[r.Length()] == 0, "terminated"); };
	same(f(ObjectString<A>(t.c_str())), ""); same(f(ObjectString<A>::Unmanaged(t.c_str())), "(unmanaged)");
	std::basic_string<A> pad = std::basic_string<A>(1, (A)'a') + t + std::basic_string<A>(2, (A)'b'); ObjectString<A> p(pad.c_str()); same(f(p.Sub(1, (vint)t.size())), "(view)");
	trace.clear();
}
int main(int argc, char** argv)
{
	setlocale(LC_ALL, "C.UTF-8"); init(argc, argv); long n = 0;
	if (prop != "C10")
	{
		for (unsigned c = 0; c <= 0x220000; c++) { from<char8_t>(c); from<char16_t>(c); from<char16be_t>(c); from<wchar_t>(c); n++; if (c % 7 == 0 || c < 0x11000) { to<char8_t>(e8(c)); to<char16_t>(e16(c)); to<char16be_t>(ebe(c)); to<wchar_t>({ c }); } }
		for (int sh = 0; sh < 32; sh++) for (int d = -2; d <= 2; d++) { unsigned c = (1u << sh) + d; from<char8_t>(c); from<char16_t>(c); from<char16be_t>(c); from<wchar_t>(c); to<char8_t>(e8(c)); }
		for (unsigned a = 0; a < 256; a++) for (unsigned b = 0; b < 256; b++) { to<char8_t>({ a, b }); to<char8_t>({ a, b, 0x80 }); to<char8_t>({ a, b, 0x80, 0x80 }); to<char8_t>({ a, 0x80, b, 0x90, 0x80, 0x80 }); to<char8_t>({ a, 0x90, 0x80, b }); to<char8_t>({ a, b, 0xBF, 0xBF, 0xBF, 0xBF }); }
		for (unsigned a = 0xD700; a <= 0xE000; a += 3) for (unsigned b = 0xD700; b <= 0xE0FF; b += 5) { to<char16_t>({ a, b }); to<char16be_t>({ sw(a), sw(b) }); to<char16_t>({ a }); }
		to<char8_t>({}); to<char16_t>({}); to<char16be_t>({}); to<wchar_t>({});
	}
	while (more())
	{
		if (prop != "C10") { V s; long k = rnd(0, 7); static const unsigned l[] = { 0, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0x9F, 0xA0, 0x90, 0x8F }; for (long i = 0; i < k; i++) s.push_back(rnd() % 3 ? l[rnd() % 24] : rnd() % 256); to<char8_t>(s); if (rnd() % 2) to<char16_t>(rtext<char16_t>(false)); else to<char16be_t>(rtext<char16be_t>(false)); n++; }
		if (prop == "C09") continue;
		bool v = rnd() % 3;
		text<char8_t, char16_t>(v); text<char8_t, char16be_t>(v); text<char8_t, wchar_t>(v); text<char8_t, char32_t>(v);
		text<char16_t, char8_t>(v); text<char16_t, wchar_t>(v); text<char16_t, char32_t>(v); text<char16_t, char16be_t>(v); text<char16be_t, char8_t>(v); text<char16be_t, char32_t>(v); text<char16be_t, char16_t>(v);
		text<wchar_t, char8_t>(v); text<wchar_t, char16_t>(v); text<wchar_t, char32_t>(v); text<char32_t, char8_t>(v); text<char32_t, char16_t>(v); text<char32_t, wchar_t>(v);
		strs<wchar_t, char8_t>([](auto s) { return wtou8(s); }, "wtou8"); strs<char8_t, wchar_t>([](auto s) { return u8tow(s); }, "u8tow"); strs<wchar_t, char16_t>([](auto s) { return wtou16(s); }, "wtou16"); strs<char16_t, wchar_t>([](auto s) { return u16tow(s); }, "u16tow");
		strs<char8_t, char16_t>([](auto s) { return u8tou16(s); }, "u8tou16"); strs<char16_t, char8_t>([](auto s) { return u16tou8(s); }, "u16tou8"); strs<char32_t, char8_t>([](auto s) { return u32tou8(s); }, "u32tou8"); strs<char8_t, char32_t>([](auto s) { return u8tou32(s); }, "u8tou32");
		strs<char32_t, char16_t>([](auto s) { return u32tou16(s); }, "u32tou16"); strs<char16_t, char32_t>([](auto s) { return u16tou32(s); }, "u16tou32"); strs<char32_t, wchar_t>([](auto s) { return u32tow(s); }, "u32tow"); strs<wchar_t, char32_t>([](auto s) { return wtou32(s); }, "wtou32");
		{
			V s = rtext<wchar_t>(true); std::wstring t; for (auto u : s) t += (wchar_t)u; log(S("wtoa of", show(s))); V e; for (auto c : s) { V x = e8(c); e.insert(e.end(), x.begin(), x.end()); }
			{ std::string bt = "ab"; bt += (char)0xFF; bt += "cd"; AString ba(bt.c_str()); WString bw = atow(ba); check(bw.Length() == 0 && bw.Buffer()[0] == 0, "atow: text that is not local text"); wchar_t wt[] = { L'a', L'b', (wchar_t)0xD800, L'c', 0 }; AString b2 = wtoa(WString(wt)); check(b2.Length() == 0 && b2.Buffer()[0] == 0, "wtoa: text without local form"); }
			AString a = wtoa(WString(t.c_str())); check(a.Length() == (vint)e.size(), "wtoa: length"); for (size_t i = 0; i < e.size(); i++) check((unsigned char)a[(vint)i] == e[i], "wtoa: character");
			WString b = atow(a); check(b.Length() == (vint)s.size(), "atow: length"); for (size_t i = 0; i < s.size(); i++) check((unsigned)b[(vint)i] == s[i], "atow: character"); trace.clear();
		}
		n++;
	}
	printf("%ld rounds agreed\n", n); return 0;
}
