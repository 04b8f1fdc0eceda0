// Common part of the native replay drivers: seeded generation, time budget, lifetime tracking element,
// reporting. A driver exits 0 when every comparison against its reference model agreed, 1 otherwise.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <chrono>
#include <functional>
#include <algorithm>
#include <compare>
#include <sstream>
namespace drv
{
	inline uint64_t rs = 88172645463325252ull;
	inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
	inline long rnd(long lo, long hi) { return lo + (long)(rnd() % (uint64_t)(hi - lo + 1)); }
	inline double budget = 20;
	inline std::chrono::steady_clock::time_point t0;
	inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
	inline bool more(double frac = 1.0) { return elapsed() < budget * frac; }
	inline std::string prop;
	inline std::vector<std::string> trace;
	inline void log(const std::string& s) { trace.push_back(s); }
	[[noreturn]] inline void fail(const std::string& why)
	{
		printf("FAILING HISTORY (real code):\n");
		for (auto& s : trace) printf("  %s\n", s.c_str());
		printf("VIOLATED: %s\n", why.c_str());
		fflush(stdout);
		_Exit(1);
	}
	inline void check(bool b, const std::string& why) { if (!b) fail(why); }
	inline void init(int argc, char** argv)
	{
		prop = argc > 1 ? argv[1] : "";
		uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
		budget = argc > 3 ? atof(argv[3]) : 20;
		for (uint64_t i = 0; i < seed % 1000; i++) rnd();
		rs += seed * 0x9E3779B97F4A7C15ull; if (!rs) rs = 1;
		t0 = std::chrono::steady_clock::now();
	}
	template<typename... A> std::string S(A&&... a) { std::ostringstream o; (o << ... << a); return o.str(); }

	// element with lifetime tracking: construction only on raw storage, everything else on a live object
	struct Tr
	{
		static std::unordered_set<const void*>& live() { static std::unordered_set<const void*> s; return s; }
		long v;
		void born() { if (!live().insert(this).second) fail("element constructed over a live element"); }
		void alive(const char* w)const { if (!live().count(this)) fail(std::string("element not alive: ") + w); }
		Tr(long x = 0) :v(x) { born(); }
		Tr(const Tr& o) { o.alive("copied from"); v = o.v; born(); }
		Tr(Tr&& o) { o.alive("moved from"); v = o.v; o.v = -777; born(); }
		~Tr() { alive("destroyed"); live().erase(this); v = -999; }
		Tr& operator=(const Tr& o) { o.alive("assigned from"); alive("assigned to"); v = o.v; return *this; }
		Tr& operator=(Tr&& o) { o.alive("move-assigned from"); alive("assigned to"); long x = o.v; o.v = -777; v = x; return *this; }
		bool operator==(const Tr& o)const { alive("compared"); o.alive("compared"); return v == o.v; }
		std::strong_ordering operator<=>(const Tr& o)const { alive("compared"); o.alive("compared"); return v <=> o.v; }
	};
	inline void leakcheck(const char* w) { if (!Tr::live().empty()) fail(std::string("elements leaked: ") + w); }
	inline long val(long x) { return x; }
	inline long val(const Tr& x) { x.alive("read"); return x.v; }
}
