// C12/C13: Nullable, Variant, Pair, Tuple against std::optional-like models, lifetimes tracked
// SOURCES: Basic.cpp
#include <Primitives/Variant.h>
#include <Primitives/Nullable.h>
#include <Primitives/Tuple.h>
#include <Collections/Pair.h>
#include <cmath>
#include "drv.h"
using namespace vl; using namespace vl::collections; using namespace drv;
template<typename F> bool raises(F f) { try { f(); } catch (const Error&) { return true; } return false; }
struct A : Tr { A(long x = 0) :Tr(x) {} A(const A&) = default; A(A&&) = default; A& operator=(const A&) = default; A& operator=(A&&) = default; std::strong_ordering operator<=>(const A&)const = default; };
struct B2 : Tr { long pad = 7; B2(long x = 0) :Tr(x) {} ~B2() { if (pad != 7) fail("object destroyed as another class"); pad = 0; } B2(const B2&) = default; B2(B2&&) = default; B2& operator=(const B2&) = default; B2& operator=(B2&&) = default; std::strong_ordering operator<=>(const B2&)const = default; };
struct K { Tr t; K(long x) :t(x) {} K(const K&) = default; K(K&&) = default; K& operator=(const K&) = delete; long v()const { t.alive("read"); return t.v; } };
typedef Variant<A, B2, long> V;
struct MV { int k; long v; };
void sameV(V& v, MV m, const char* w)
{
	const V& c = v;
	check(v.Index() == m.k, S(w, ": Index is ", v.Index(), ", expected ", m.k));
	check((v.TryGet<A>() != 0) == (m.k == 0) && (v.TryGet<B2>() != 0) == (m.k == 1) && (c.TryGet<long>() != 0) == (m.k == 2), S(w, ": TryGet"));
	check(raises([&] { v.Get<A>(); }) == (m.k != 0) && raises([&] { c.Get<B2>(); }) == (m.k != 1) && raises([&] { v.Get<long>(); }) == (m.k != 2), S(w, ": Get of another type"));
	int seen = -1, n = 0; long x = 0;
	auto cb = Overloading([&](A& a) { seen = 0; n++; x = val(a); }, [&](B2& b) { seen = 1; n++; x = val(b); }, [&](long& l) { seen = 2; n++; x = l; });
	v.Apply(cb);
	check(seen == m.k && n == 1 && x == m.v, S(w, ": Apply saw type ", seen, " value ", x, ", expected ", m.k, " value ", m.v));
	n = 0; auto cc = Overloading([&](const A& a) { seen = 0; n++; x = val(a); }, [&](const B2& b) { seen = 1; n++; x = val(b); }, [&](const long& l) { seen = 2; n++; x = l; });
	c.Apply(cc); check(seen == m.k && n == 1 && x == m.v, S(w, ": const Apply"));
	n = 0; bool r = v.TryApply([&](B2& b) { n++; x = val(b); }); check(r == (m.k == 1) && n == (m.k == 1) && (!r || x == m.v), S(w, ": TryApply"));
	n = 0; r = c.TryApply([&](const A& b) { n++; x = val(b); }); check(r == (m.k == 0) && n == (m.k == 0) && (!r || x == m.v), S(w, ": const TryApply"));
}
V* mk(MV m) { switch (m.k) { case 0: return rnd(0, 1) ? new V(A(m.v)) : new V(VariantIndex<0>(), m.v); case 1: { B2 b(m.v); return new V(b); } default: return new V(m.v); } }
void variants()
{
	MV a{ (int)rnd(0, 2), rnd(0, 5) }, b{ (int)rnd(0, 2), rnd(0, 5) };
	int op = rnd(0, 9);
	log(S("variant of type ", a.k, " value ", a.v, ", other of type ", b.k, " value ", b.v, ", op ", op));
	V* v = mk(a), * w = mk(b); bool mvd = false;
	sameV(*v, a, "construction"); sameV(*w, b, "construction");
	switch (op)
	{
	case 0: { V x(*v); sameV(x, a, "copy construction"); break; }
	case 1: { V x(std::move(*v)); sameV(x, a, "move construction"); mvd = true; break; }
	case 2: *w = *v; b = a; break;
	case 3: *w = std::move(*v); b = a; mvd = true; break;
	case 4: { V& r = *v; *v = r; break; }
	case 5: { A x(b.v); *v = x; check(x.v == b.v, "argument changed"); a = { 0, b.v }; break; }
	case 6: *v = B2(b.v); a = { 1, b.v }; break;
	case 7: *v = b.v; a = { 2, b.v }; break;
	case 8: v->Set(VariantIndex<1>(), b.v); a = { 1, b.v }; break;
	case 9: { V x; check(x.Index() == 0, "default construction"); x = *v; sameV(x, a, "assignment to a default constructed variant"); break; }
	}
	if (!mvd) sameV(*v, a, "afterwards");
	sameV(*w, b, "afterwards (other)");
	delete v; delete w;
}
template<typename T> long rd(const T& t) { if constexpr (std::is_same_v<T, K>) return t.v(); else return val(t); }
template<typename T> void sameN(Nullable<T>& n, bool has, long v, const char* w)
{
	check((bool)n == has, S(w, ": null or not"));
	check(raises([&] { n.Value(); }) == !has, S(w, ": Value of a null"));
	if (has) check(rd(n.Value()) == v, S(w, ": value is ", rd(n.Value()), ", expected ", v));
}
template<typename T> void nullables()
{
	typedef Nullable<T> N;
	bool ha = rnd(0, 1), hb = rnd(0, 1); long a = rnd(0, 3), b = rnd(0, 3); int op = rnd(0, 10);
	log(S("nullables ", ha, " ", a, " / ", hb, " ", b, " op ", op));
	N* x = ha ? new N(T(a)) : new N, * y = hb ? new N(T(b)) : new N;
	if (hb && rnd(0, 1)) { T t(b); delete y; y = new N(t); check(rd(t) == b, "argument changed"); }
	switch (op)
	{
	case 0: { N z(*x); sameN(z, ha, a, "copy construction"); break; }
	case 1: { N z(std::move(*x)); sameN(z, ha, a, "move construction"); ha = false; break; }
	case 2: *y = *x; hb = ha; b = a; break;
	case 3: *y = std::move(*x); hb = ha; b = a; ha = false; break;
	case 4: { N& r = *x; *x = r; break; }
	case 5: { T t(b); *x = t; check(rd(t) == b, "argument changed"); ha = true; a = b; break; }
	case 6: *x = T(b); ha = true; a = b; break;
	case 7: x->Reset(); ha = false; break;
	case 8: if (ha) *x = x->Value(); break;
	case 9: { N& r = *x; *x = std::move(r); break; }
	case 10: check(!N::Empty, "Empty is null"); *x = N::Empty; ha = false; break;
	}
	sameN(*x, ha, a, "afterwards"); sameN(*y, hb, b, "afterwards (other)");
	if constexpr (!std::is_same_v<T, K>)
	{
		long c = ha && hb ? (a < b ? -1 : a > b) : ha ? 1 : hb ? -1 : 0;
		auto o = *x <=> *y; check((o < 0 ? -1 : o > 0 ? 1 : 0) == c, S("<=> of ", ha, " ", a, " and ", hb, " ", b));
		check((*x == *y) == (c == 0) && (*x != *y) == (c != 0) && (*x < *y) == (c < 0) && (*x >= *y) == (c >= 0), "comparison of nullables");
	}
	delete x; delete y;
}
void tuples()
{
	long a[3], b[3]; for (int i = 0; i < 3; i++) a[i] = rnd(0, 2), b[i] = rnd(0, 2);
	log(S("(", a[0], ",", a[1], ",", a[2], ") and (", b[0], ",", b[1], ",", b[2], ")"));
	auto lex = [&](int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; };
	auto sg = [](auto o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 9; };
	{
		typedef Pair<Tr, A> P; Tr k(a[0]); A l(a[1]);
		P p(k, l), q(Tr{ b[0] }, A{ b[1] }); check(k.v == a[0] && l.v == a[1], "argument changed");
		auto is = [&](P& p, long* x, const char* w) { auto& [m, n] = p; check(val(p.key) == x[0] && val(p.value) == x[1] && val(m) == x[0] && val(n) == x[1] && val(p.get<0>()) == x[0] && val(((const P&)p).get<1>()) == x[1], S("Pair: ", w)); };
		is(p, a, "construction"); is(q, b, "construction");
		int c = lex(2); check(sg(p <=> q) == c && (p < q) == (c < 0) && (p > q) == (c > 0) && (p <= q) == (c <= 0) && (p == q) == (c == 0) && (p != q) == (c != 0), "Pair: comparison");
		P r(p); is(r, a, "copy"); r = q; is(r, b, "assignment"); P s(std::move(r)); is(s, b, "move"); s = std::move(p); is(s, a, "move assignment");
		Pair<Tr, int> pi(Tr(a[0]), (int)a[1]); Pair<Tr, long> pl(pi); check(pl.key.v == a[0] && pl.value == a[1], "Pair: conversion"); Pair<Tr, long> pm(std::move(pi)); check(pm.key.v == a[0] && pm.value == a[1], "Pair: conversion");
	}
	{
		typedef Tuple<Tr, A, long> T; Tr k(a[0]); A l(a[1]);
		T p(k, l, a[2]), q(Tr{ b[0] }, A{ b[1] }, b[2]); check(k.v == a[0] && l.v == a[1], "argument changed");
		auto is = [&](T& p, long* x, const char* w) { auto& [m, n, o] = p; check(val(m) == x[0] && val(n) == x[1] && o == x[2] && val(p.get<0>()) == x[0] && val(((const T&)p).get<1>()) == x[1] && vl::get<2>(p) == x[2] && vl::get<2>((const T&)p) == x[2], S("Tuple: ", w)); };
		is(p, a, "construction"); is(q, b, "construction");
		int c = lex(3); check(sg(p <=> q) == c && (p < q) == (c < 0) && (p > q) == (c > 0) && (p <= q) == (c <= 0) && (p == q) == (c == 0) && (p != q) == (c != 0), "Tuple: comparison");
		T r((const T&)p); is(r, a, "copy"); r = q; is(r, b, "assignment"); T s(std::move(r)); is(s, b, "move"); s = std::move(p); is(s, a, "move assignment");
		Tuple<Tr, A, int> pi(Tr(a[0]), A(a[1]), (int)a[2]); const auto& ci = pi; check(sg(q <=> ci) == -c && (q == ci) == (c == 0), "Tuple: comparison with other component types");
		T x(ci); is(x, a, "conversion"); x = q; x = ci; is(x, a, "converting assignment"); T y(std::move(pi)); is(y, a, "conversion");
		double nn = std::nan(""); auto fp = [&](long z) { return z == 2 ? nn : (double)z; };
		auto pc = [&](int n) { std::partial_ordering r = std::partial_ordering::equivalent; for (int i = 0; i < n && r == 0; i++) r = fp(a[i]) <=> fp(b[i]); return r; };
		auto ord = [&](auto&& l, auto&& r, int n, const char* w) { auto e = pc(n); bool eq = true; for (int i = 0; i < n; i++) eq = eq && fp(a[i]) == fp(b[i]); check(sg(l <=> r) == sg(e) && (l < r) == (e < 0) && (l >= r) == (e >= 0) && (l == r) == eq, S(w, ": comparison with NaN (2 stands for NaN)")); };
		ord(Pair<double, double>(fp(a[0]), fp(a[1])), Pair<double, double>(fp(b[0]), fp(b[1])), 2, "Pair");
		ord(Tuple<double, double, double>(fp(a[0]), fp(a[1]), fp(a[2])), Tuple<double, double, double>(fp(b[0]), fp(b[1]), fp(b[2])), 3, "Tuple");
		long u = a[0], v = a[1]; Tuple<long&, long&> t(u, v); t.get<0>() = 77; check(u == 77 && &t.get<1>() == &v, "Tuple of references");
	}
}
int main(int argc, char** argv)
{
	init(argc, argv); long n = 0;
	while (more())
	{
		trace.clear();
		if (prop != "C13") { variants(); trace.clear(); nullables<Tr>(); trace.clear(); nullables<K>(); trace.clear(); nullables<long>(); }
		trace.clear();
		if (prop != "C12") tuples();
		trace.clear(); leakcheck("values"); n++;
	}
	printf("%ld rounds agreed\n", n); return 0;
}
