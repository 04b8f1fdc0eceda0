// C21: numbers as text and letter case against the C library and an independent decimal reader
// SOURCES: Basic.cpp Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp
#include <Strings/Conversion.h>
#include "drv.h"
#include <cwctype>
#include <cctype>
using namespace vl; using namespace drv;
typedef __int128 Big;
static std::string dec(Big v) { if (v == 0) return "0"; bool n = v < 0; if (n) v = -v; std::string s; while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return n ? "-" + s : s; }
template<typename T> std::basic_string<T> wide(const std::string& s) { std::basic_string<T> r; for (char c : s) r += (T)(unsigned char)c; return r; }
static bool canonical(const std::string& s, Big& v)
{
	size_t i = s.size() && s[0] == '-'; if (i >= s.size() || s.size() > 30) return false;
	v = 0; for (size_t k = i; k < s.size(); k++) { if (s[k] < '0' || s[k] > '9') return false; v = v * 10 + (s[k] - '0'); }
	if (i) v = -v;
	return dec(v) == s;
}
// text as a view into a longer text, or whole, or unmanaged
template<typename T> ObjectString<T> mk(const std::basic_string<T>& t, std::basic_string<T>& keep, int how)
{
	keep = t;
	if (how == 0) return ObjectString<T>::CopyFrom(keep.c_str(), (vint)keep.size());
	if (how == 1) return ObjectString<T>::Unmanaged(keep.c_str());
	std::basic_string<T> l = wide<T>("12") + t + wide<T>("34");
	return ObjectString<T>::CopyFrom(l.c_str(), (vint)l.size()).Sub(2, (vint)t.size());
}
static void parse(const std::string& t)
{
	Big v = 0; bool ok = canonical(t, v);
	auto in = [&](Big lo, Big hi) { return ok && v >= lo && v <= hi; };
	for (int how = 0; how < 3; how++)
	{
		if (how == 1 && t.find('\0') != t.npos) continue;
		std::string ka; std::wstring kw; AString a = mk<char>(t, ka, how); WString w = mk<wchar_t>(wide<wchar_t>(t), kw, how);
#define P(f, s, lo, hi) { bool b = false; auto r = f##_test(s, b); bool e = in(lo, hi); if (b != e || (e && (Big)r != v)) fail(S(#f "_test(\"", t, "\") success=", b, " value=", dec((Big)r))); auto q = f(s); if ((Big)q != (e ? v : 0)) fail(S(#f "(\"", t, "\") = ", dec((Big)q))); }
		const Big M31 = (Big)1 << 31, M32 = (Big)1 << 32, M63 = (Big)1 << 63, M64 = (Big)1 << 64;
		P(atoi, a, -M31, M31 - 1) P(wtoi, w, -M31, M31 - 1) P(atoi64, a, -M63, M63 - 1) P(wtoi64, w, -M63, M63 - 1)
		P(atou, a, 0, M32 - 1) P(wtou, w, 0, M32 - 1) P(atou64, a, 0, M64 - 1) P(wtou64, w, 0, M64 - 1)
		if (a.Length() != (vint)t.size() || memcmp(a.Buffer(), t.data(), t.size())) fail("text changed by reading a number");
	}
}
static void print(int64_t x)
{
	std::string s = dec((Big)x), u = dec((Big)(uint64_t)x);
	check(std::string(itoa(x).Buffer()) == s && itoa(x).Length() == (vint)s.size(), S("itoa(", s, ")")); check(std::string(i64toa(x).Buffer()) == s, S("i64toa(", s, ")"));
	check(std::string(utoa((uint64_t)x).Buffer()) == u, S("utoa(", u, ")")); check(std::string(u64toa((uint64_t)x).Buffer()) == u, S("u64toa(", u, ")"));
	check(std::wstring(itow(x).Buffer()) == wide<wchar_t>(s) && itow(x).Length() == (vint)s.size(), S("itow(", s, ")")); check(std::wstring(i64tow(x).Buffer()) == wide<wchar_t>(s), S("i64tow(", s, ")"));
	check(std::wstring(utow((uint64_t)x).Buffer()) == wide<wchar_t>(u), S("utow(", u, ")")); check(std::wstring(u64tow((uint64_t)x).Buffer()) == wide<wchar_t>(u), S("u64tow(", u, ")"));
}
template<typename T> void letters(ObjectString<T>(*f)(const ObjectString<T>&), int(*g)(int), const char* nm)
{
	std::basic_string<T> t, k; long n = rnd(0, 12);
	for (long i = 0; i < n; i++) { T c; do c = sizeof(T) == 1 || rnd() % 2 ? (T)rnd(1, 255) : (T)rnd(1, 0x10FFFF); while (!c); t += c; }
	for (int how = 0; how < 3; how++)
	{
		auto s = mk<T>(t, k, how); auto other = s; auto r = f(s);
		auto show = [&](const T* p, vint l) { std::string o; for (vint i = 0; i < l; i++) o += S(" ", (long)p[i]); return o; };
		if (r.Length() != (vint)t.size()) fail(S(nm, ": length ", r.Length(), " for characters", show(t.data(), t.size())));
		for (size_t i = 0; i < t.size(); i++) { T e = (T)g(sizeof(T) == 1 ? (unsigned char)t[i] : (int)t[i]); if (r[i] != e) fail(S(nm, ": character ", i, " of", show(t.data(), t.size()), " gives ", (long)r[i], ", expected ", (long)e)); }
		if (r.Buffer()[r.Length()] != 0) fail(S(nm, ": result not zero-terminated"));
		for (size_t i = 0; i < t.size(); i++) if (s[i] != t[i] || other[i] != t[i] || k[i] != t[i]) fail(S(nm, ": argument changed, characters", show(t.data(), t.size())));
	}
}
int main(int argc, char** argv)
{
	init(argc, argv);
	std::vector<int64_t> edge; for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) { edge.push_back((int64_t)((1ull << b) + d)); edge.push_back((int64_t)(0 - (1ull << b) + d)); }
	for (uint64_t p = 1, i = 0; i < 20; i++, p *= 10) for (int d = -1; d <= 1; d++) { edge.push_back((int64_t)(p + d)); edge.push_back((int64_t)(0 - p + d)); }
	for (auto x : edge) { print(x); parse(dec(x)); parse(dec((uint64_t)x)); }
	for (auto s : { "", "-", "+", "+1", "-0", "00", "01", "-01", " 1", "1 ", "\t1", "1a", "a", "0x10", "1.0", "1e3", "--1", "99999999999999999999", "-99999999999999999999", "18446744073709551616", "-9223372036854775809", "9223372036854775808", "340282366920938463463374607431768211456" }) parse(s);
	parse(std::string("1\0", 2)); parse(std::string("\0", 1)); parse(std::string("1\0002", 3));
	while (more())
	{
		int64_t x = (int64_t)(rnd() >> (rnd() % 64)); if (rnd() % 2) x = -x; print(x);
		std::string t = dec((Big)x * (rnd() % 8 ? 1 : (long)rnd(1, 1000))); parse(t);
		long n = rnd(1, 2); for (long i = 0; i < n; i++) { size_t at = rnd() % (t.size() + 1); char c = "0123456789-+ \t.xaE"[rnd() % 18]; if (rnd() % 2 && at < t.size()) t[at] = c; else if (rnd() % 2) t.insert(at, 1, c); else if (at < t.size()) t.erase(at, 1); }
		parse(t);
		letters<char>(alower, [](int c) { return tolower(c); }, "alower"); letters<char>(aupper, [](int c) { return toupper(c); }, "aupper");
		letters<wchar_t>(wlower, [](int c) { return (int)towlower(c); }, "wlower"); letters<wchar_t>(wupper, [](int c) { return (int)towupper(c); }, "wupper");
	}
	return 0;
}
