// C06/C07/C08: differential execution of ObjectString<T> against std::basic_string<T>
#include <Strings/String.h>
#include "drv.h"
#include <thread>
#include <atomic>
using namespace vl; using namespace drv;
template<typename F> bool raises(F f) { try { f(); } catch (const Error&) { return true; } return false; }
template<typename T> struct Str
{
	typedef ObjectString<T> O; typedef std::basic_string<T> M;
	struct Ent { O o; M m; };
	std::vector<std::unique_ptr<Ent>> pool;
	std::vector<std::unique_ptr<M>> texts;    // outlive every unmanaged string
	static std::string show(const M& m) { std::string r = "\""; for (auto c : m) if (c >= 33 && c < 127) r += (char)c; else r += S("\\", (long)c, ";"); return r + "\""; }
	static int sg(std::strong_ordering r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
	static int cmp(const M& a, const M& b)
	{
		size_t n = std::min(a.size(), b.size());
		for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
		return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
	}
	static T rc() { switch (rnd() % 12) { case 0: return (T)0x7F; case 1: return (T)0x80; case 2: return (T)0xFF; case 3: return sizeof(T) == 1 ? (T)0x81 : (T)0xD800; case 4: return sizeof(T) < 4 ? (T)-1 : (T)0x10FFFF; default: return (T)('a' + rnd() % 3); } }
	M rm(long mx) { M m; long n = rnd(0, mx); for (long i = 0; i < n; i++) m += rc(); return m; }
	static void same(const O& o, const M& m, const char* w, bool buf)
	{
		if (o.Length() != (vint)m.size()) fail(S(w, ": Length() is ", o.Length(), ", expected ", m.size()));
		for (vint i = 0; i < (vint)m.size(); i++) if (o[i] != m[i]) fail(S(w, ": character ", i, " is ", (long)o[i], ", expected ", (long)m[i]));
		for (vint i : { (vint)-1, o.Length(), (vint)INT64_MIN, (vint)INT64_MAX }) if (!raises([&] { o[i]; })) fail(S(w, ": operator[](", i, ") did not raise"));
		if (!(o == m.c_str()) || !(m.c_str() == o)) fail(S(w, ": not equal to its own text"));
		if (buf)
		{
			const T* b = o.Buffer();
			for (size_t i = 0; i < m.size(); i++) if (b[i] != m[i]) fail(S(w, ": Buffer()[", i, "] differs"));
			if (b[m.size()] != 0) fail(S(w, ": Buffer() is not zero-terminated"));
			if (o.Length() != (vint)m.size()) fail(S(w, ": Length() changed by Buffer()"));
		}
	}
	void all(const char* w, bool buf) { for (auto& e : pool) same(e->o, e->m, w, buf); }
	void add(O&& o, const M& m, const char* w, bool check = true) { if (check) same(o, m, w, false); if (pool.size() > 12) pool.erase(pool.begin() + rnd() % pool.size()); pool.push_back(std::unique_ptr<Ent>(new Ent{ std::move(o), m })); }
	Ent& pick() { return *pool[rnd() % pool.size()]; }
	void compare(const O& a, const M& ma, const O& b, const M& mb)
	{
		int e = cmp(ma, mb);
		std::string in = S(show(ma), " and ", show(mb));
		check(sg(a <=> b) == e, S("<=> of ", in)); check((a == b) == (e == 0), S("== of ", in)); check((a != b) == (e != 0), S("!= of ", in));
		check((a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0), S("relational operator of ", in));
		check(sg(a <=> mb.c_str()) == e, S("<=> with text of ", in)); check((a == mb.c_str()) == (e == 0), S("== with text of ", in)); check((a < mb.c_str()) == (e < 0), S("< with text of ", in));
		check(sg(ma.c_str() <=> b) == e, S("text <=> of ", in)); check((ma.c_str() == b) == (e == 0), S("text == of ", in));
		check(sg(b <=> a) == -e, S("reversed <=> of ", in));
	}
	static vint arg(vint n) { switch (rnd() % 14) { case 0: return -1; case 1: return n + 1; case 2: return INT64_MAX; case 3: return INT64_MIN; case 4: return n; case 5: return 0; case 6: return -rnd(1, 4); default: return rnd(0, n); } }
	void step()
	{
		if (pool.empty()) add(O(), M(), "default");
		Ent& a = pick(); Ent& b = pick();
		M am = a.m, bm = b.m; vint n = am.size();
		long op = rnd() % 24;
		switch (op)
		{
		case 0: { M m = rm(9); log(S("construct from text ", show(m))); texts.push_back(std::make_unique<M>(m)); add(O(texts.back()->c_str()), m, "ObjectString(const T*)"); break; }
		case 1: { M m = rm(9); log(S("Unmanaged ", show(m))); texts.push_back(std::make_unique<M>(m)); auto u = O::Unmanaged(texts.back()->c_str()); check(u.Buffer() == texts.back()->c_str(), "Unmanaged refers to another text"); add(std::move(u), m, "Unmanaged"); break; }
		case 2: { M m = rm(9); T* p = new T[m.size() + 1]; memcpy(p, m.c_str(), (m.size() + 1) * sizeof(T)); log(S("TakeOver ", show(m))); auto u = O::TakeOver(p, m.size()); check(u.Buffer() == p, "TakeOver copied"); add(std::move(u), m, "TakeOver"); break; }
		case 3: { M m = rm(9); T* p = new T[m.size()]; memcpy(p, m.c_str(), m.size() * sizeof(T)); log(S("CopyFrom ", show(m))); auto u = O::CopyFrom(p, m.size()); delete[] p; add(std::move(u), m, "CopyFrom"); break; }
		case 4: { T c = rc(); log("FromChar"); add(O::FromChar(c), M(1, c), "FromChar"); break; }
		case 5: { log("copy"); add(O(a.o), am, "copy constructor"); break; }
		case 6: { if (&a == &b) break; log("move constructor"); O x(std::move(a.o)); a.m = M(); add(std::move(x), am, "move constructor"); break; }
		case 7: { log("assign"); a.o = b.o; a.m = bm; break; }
		case 8: { if (&a == &b) break; log("move assign"); a.o = std::move(b.o); a.m = bm; b.m = M(); break; }
		case 9: { if (n > 60 || bm.size() > 60) break; log("+="); a.o += b.o; a.m = am + bm; break; }
		case 10: { if (n > 60) break; M m = rm(5); log("+= text"); a.o += m.c_str(); a.m = am + m; break; }
		case 11: { if (n > 60 || bm.size() > 60) break; log("+"); add(a.o + b.o, am + bm, "+"); break; }
		case 12: { if (n > 60) break; M m = rm(5); log("+ text"); add(a.o + m.c_str(), am + m, "+ text"); break; }
		case 13: { if (n > 60) break; M m = rm(5); log("text +"); add(m.c_str() + a.o, m + am, "text +"); break; }
		case 14: { vint i = arg(n); log(S("Left ", i, " of ", n)); bool bad = i<0 || i>n; O r; bool e = raises([&] { r = a.o.Left(i); }); check(e == bad, "Left: Error exactly for an argument out of range"); if (!bad) add(std::move(r), am.substr(0, i), "Left"); break; }
		case 15: { vint i = arg(n); log(S("Right ", i, " of ", n)); bool bad = i<0 || i>n; O r; bool e = raises([&] { r = a.o.Right(i); }); check(e == bad, "Right: Error exactly for an argument out of range"); if (!bad) add(std::move(r), am.substr(n - i), "Right"); break; }
		case 16: case 17: { vint i = arg(n), c = arg(i >= 0 && i <= n ? n - i : n); log(S("Sub ", i, ",", c, " of ", n)); bool bad = i<0 || i>n || c<0 || c>n - i; O r; bool e = raises([&] { r = a.o.Sub(i, c); }); check(e == bad, "Sub: Error exactly for an argument out of range"); if (!bad) add(std::move(r), am.substr(i, c), "Sub"); break; }
		case 18: case 19: { vint i = arg(n), c = arg(i >= 0 && i <= n ? n - i : n); log(S("Remove ", i, ",", c, " of ", n)); bool bad = i<0 || i>=n || c<0 || c>n - i; O r; bool e = raises([&] { r = a.o.Remove(i, c); }); check(e == bad, "Remove: Error exactly for an argument out of range"); if (!bad) add(std::move(r), am.substr(0, i) + am.substr(i + c), "Remove"); break; }
		case 20: { if (n > 60 || bm.size() > 60) break; vint i = arg(n); log(S("Insert ", i, " of ", n)); bool bad = i<0 || i>n; O r; bool e = raises([&] { r = a.o.Insert(i, b.o); }); check(e == bad, "Insert: Error exactly for an argument out of range"); if (!bad) add(std::move(r), am.substr(0, i) + bm + am.substr(i), "Insert"); break; }
		case 21: { T c = rc(); auto p = am.find(c); check(a.o.IndexOf(c) == (p == M::npos ? -1 : (vint)p), "IndexOf"); break; }
		case 22: { log("Buffer"); same(a.o, am, "Buffer", true); break; }
		case 23: { check(raises([&] { O x((const T*)nullptr); }), "null text did not raise"); check(raises([&] { O::Unmanaged((const T*)nullptr); }), "null text did not raise"); break; }
		}
		Ent& x = pick(); Ent& y = pick();
		compare(x.o, x.m, y.o, y.m);
		all("after operation", false);
	}
	void exhaustive()
	{
		// every pair of texts up to length 3 over an alphabet with sign/extreme values, as views into larger texts
		std::vector<M> ms{ M() }; T al[] = { (T)'a', (T)'b', sizeof(T) < 4 ? (T)-1 : (T)0x10FFFF };
		for (size_t i = 0; i < ms.size(); i++) if (ms[i].size() < 3) for (T c : al) ms.push_back(ms[i] + c);
		std::vector<O> os; for (auto& m : ms) { M big = M(1, (T)'x') + m + M(1, (T)'a'); os.push_back(O(big.c_str()).Sub(1, m.size())); }
		for (size_t i = 0; i < ms.size(); i++) for (size_t j = 0; j < ms.size(); j++) compare(os[i], ms[i], os[j], ms[j]);
	}
	void run()
	{
		exhaustive();
		while (more())
		{
			trace.clear(); pool.clear(); texts.clear(); log(S("sizeof(T)=", sizeof(T), " signed=", (T)-1 < (T)0));
			for (int i = 0; i < 40 && more(); i++) step();
			all("end", true);
			if (elapsed() - last > budget / 8) { last = elapsed(); break; }
		}
		pool.clear(); texts.clear();
	}
	inline static double last = 0;
	static void threads()
	{
		// concurrent copying and dropping of strings that share one text
		trace.clear(); log("strings sharing one text are copied and dropped by 4 threads");
		for (int r = 0; r < 20; r++)
		{
			O s(M(5, (T)'q').c_str());
			std::vector<std::thread> ts;
			for (int t = 0; t < 4; t++) ts.emplace_back([s] { for (int i = 0; i < 3000; i++) { O a(s); O b = a.Sub(1, 3); O c(std::move(a)); if (b.Length() != 3 || b[0] != (T)'q') fail("text changed"); } });
			for (auto& t : ts) t.join();
			for (int t = 0; t < 30; t++) { O y(s); }
			same(s, M(5, (T)'q'), "after threads", true);
		}
		// two threads drop the last two strings at the same time; a text released by none of them is reported by LeakSanitizer
		O slot; std::atomic<int> go{ 0 }, done{ 0 }; std::atomic<bool> stop{ false };
		std::thread t([&] { int r = 0; while (true) { int g; while ((g = go.load()) == r) if (stop) return; r = g; slot = O(); done = r; } });
		double e = elapsed() + budget / 8;
		for (int r = 1; r <= 200000 && elapsed() < e; r++)
		{
			O p = O::CopyFrom(M(5, (T)'q').c_str(), 5); slot = p; go = r; for (volatile int k = 0; k < r % 64; k++); p = O();
			while (done.load() != r);
		}
		stop = true; t.join();
	}
};
int main(int argc, char** argv)
{
	init(argc, argv);
	Str<char>::threads(); Str<wchar_t>::threads();
	while (more()) { Str<wchar_t>().run(); Str<char>().run(); Str<char16_t>().run(); Str<char32_t>().run(); Str<char8_t>().run(); }
	U32String u(U"abc\x10FFFF"); WString w = WString::UnsafeCastFrom(u); check(w.Length() == 4 && w[3] == (wchar_t)0x10FFFF && w.Buffer()[4] == 0, "UnsafeCastFrom");
	return 0;
}
