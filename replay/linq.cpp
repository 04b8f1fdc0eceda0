// C15/C16/C17/C23: differential execution of LazyList, Sort and CopyFrom against vectors
// SOURCES: Basic.cpp Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Exception.cpp
#include <cmath>
#include <Primitives/Nullable.h>
#include <Collections/Dictionary.h>
#include <Collections/Operation.h>
#include "drv.h"
using namespace vl; using namespace vl::collections; using namespace drv;
template<typename F> bool raises(F f) { try { f(); } catch (const Error&) { return true; } return false; }
typedef std::vector<long> V; typedef LazyList<Tr> L;
std::string show(const V& v) { std::string s = "["; for (auto x : v) s += S(x, " "); return s + "]"; }
template<typename T> void walk(IEnumerator<T>* e, const V& v, size_t from, const char* w)
{
	for (size_t i = from; i < v.size(); i++)
	{
		check(e->Next(), S(w, ": ended after ", i, " of ", show(v)));
		check(e->Index() == (vint)i, S(w, ": Index is ", e->Index(), ", expected ", i));
		check(val(e->Current()) == v[i], S(w, ": element ", i, " is ", val(e->Current()), ", expected ", v[i], " in ", show(v)));
	}
	check(!e->Next(), S(w, ": more elements than ", show(v)));
	check(!e->Next(), S(w, ": Next true after the end"));
}
template<typename T> void same(const LazyList<T>& l, const V& v)
{
	for (int round = 0; round < 2; round++)
	{
		auto e = l.CreateEnumerator();
		check(e->Index() == -1, S("Index before the first element is ", e->Index()));
		size_t k = rnd(0, v.size());
		for (size_t i = 0; i < k; i++) check(e->Next() && val(e->Current()) == v[i], S("element ", i, " of ", show(v)));
		auto c = e->Clone();
		if (k) check(val(c->Current()) == v[k - 1] && c->Index() == (vint)k - 1, "Clone is at another position");
		if (rnd(0, 1)) { walk<T>(c, v, k, "clone"); if (k) check(val(e->Current()) == v[k - 1] && e->Index() == (vint)k - 1, "the enumerator moved with its clone"); walk<T>(e, v, k, "cloned enumerator"); }
		else { walk<T>(e, v, k, "cloned enumerator"); if (k) check(val(c->Current()) == v[k - 1], "the clone moved with its original"); walk<T>(c, v, k, "clone"); }
		if (rnd(0, 1)) { e->Reset(); k = rnd(0, v.size()); for (size_t i = 0; i < k; i++) e->Next(); }
		auto d = e->Clone(); d->Reset(); check(d->Index() == -1, "Index after Reset"); walk<T>(d, v, 0, "clone after Reset"); delete d;
		e->Reset(); check(e->Index() == -1, "Index after Reset"); walk<T>(e, v, 0, "after Reset");
		delete e; c->Reset(); walk<T>(c, v, 0, "clone after Reset"); delete c;
	}
	vint i = 0;
	for (auto& x : l) { check(i < (vint)v.size() && val(x) == v[i], S("range-based for: element ", i)); i++; }
	check(i == (vint)v.size(), "range-based for: number of elements");
	i = 0;
	for (auto [x, k] : indexed(l)) { check(k == i && i < (vint)v.size() && val(x) == v[i], S("indexed: element ", i)); i++; }
	check(i == (vint)v.size(), "indexed: number of elements");
}
V distinct(const V& v) { V r; for (auto x : v) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x); return r; }
L base(V& v)
{
	v.clear(); long n = rnd(0, 6); for (long i = 0; i < n; i++) v.push_back(rnd(0, 6));
	log(S("source ", show(v)));
	auto l = Ptr(new List<Tr>()); for (auto x : v) l->Add(Tr(x));
	switch (rnd(0, 3)) { case 0: return L(l); case 1: return From(*l.Obj()).Evaluate(true); case 2: { auto a = new Array<Tr>(v.size()); for (size_t i = 0; i < v.size(); i++) a->Set(i, Tr(v[i])); return L(Ptr<Array<Tr>>(a)); } default: return L(l).Where([](Tr) {return true; }); }
}
L step(L l, V& v)
{
	V w; L m;
	switch (rnd(0, 15))
	{
	case 0: { long k = rnd(-1, 7); log(S("Take ", k)); if (k < 0) v.clear(); else if (k < (long)v.size()) v.resize(k); return l.Take(k); }
	case 1: { long k = rnd(-1, 7); log(S("Skip ", k)); if (k > 0) v.erase(v.begin(), v.begin() + std::min(k, (long)v.size())); return l.Skip(k); }
	case 2: { long k = rnd(-1, 3); log(S("Repeat ", k)); w = v; v.clear(); for (long i = 0; i < k; i++) v.insert(v.end(), w.begin(), w.end()); if (v.size() > 60) { v.resize(60); return l.Repeat(k).Take(60); } return l.Repeat(k); }
	case 3: log("Distinct"); v = distinct(v); return l.Distinct();
	case 4: log("Reverse"); std::reverse(v.begin(), v.end()); return l.Reverse();
	case 5: { log("Concat"); m = base(w); v.insert(v.end(), w.begin(), w.end()); return l.Concat(m); }
	case 6: { log("Intersect"); m = base(w); V r; for (auto x : v) if (std::find(w.begin(), w.end(), x) != w.end()) r.push_back(x); v = distinct(r); return l.Intersect(m); }
	case 7: { log("Except"); m = base(w); V r; for (auto x : v) if (std::find(w.begin(), w.end(), x) == w.end()) r.push_back(x); v = distinct(r); return l.Except(m); }
	case 8: { log("Union"); m = base(w); v.insert(v.end(), w.begin(), w.end()); v = distinct(v); return l.Union(m); }
	case 9: { long k = rnd(0, 6); log(S("Where != ", k)); v.erase(std::remove(v.begin(), v.end(), k), v.end()); return l.Where([k](Tr x) { return x.v != k; }); }
	case 10: { long k = rnd(1, 3); log(S("Select / ", k)); for (auto& x : v) x /= k; return l.Select([k](Tr x) { return Tr(x.v / k); }); }
	case 11: { bool f = rnd(0, 1); log(S("Evaluate ", f)); return l.Evaluate(f); }
	case 12: { log("Pairwise"); m = base(w); V r; for (size_t i = 0; i < std::min(v.size(), w.size()); i++) r.push_back(v[i] * 7 + w[i]); v = r; for (auto& x : v) x %= 7; return l.Pairwise(m).Select([](Pair<Tr, Tr> p) { return Tr((p.key.v * 7 + p.value.v) % 7); }); }
	case 13: { log("OrderBySelf"); std::sort(v.begin(), v.end()); return rnd(0, 1) ? l.OrderBySelf() : rnd(0, 1) ? l.OrderBy([](const Tr& a, const Tr& b) { return a.v <=> b.v; }) : l.OrderByKey([](const Tr& a) { return a.v; }); }
	case 14: { log("SelectMany"); V r; for (auto x : v) { r.push_back(x); if (x % 2) r.push_back(6 - x); } v = r; if (v.size() > 40) return L(l).Take(0).Concat(l.SelectMany([](Tr x) { auto p = Ptr(new List<Tr>()); p->Add(x); if (x.v % 2) p->Add(Tr(6 - x.v)); return L(p); })); return l.SelectMany([](Tr x) { auto p = Ptr(new List<Tr>()); p->Add(x); if (x.v % 2) p->Add(Tr(6 - x.v)); return L(p); }); }
	default: { log("copy and assignment"); L a(l), b; b = a; L c((L&&)a); b = c; b = (L&&)c; return b; }
	}
}
struct B_ { long v; B_(long x) :v(x) {} virtual ~B_() {} }; struct D_ : B_ { D_(long x) :B_(x) {} };
void aggregates(const L& l, const V& v)
{
	check(l.Count() == (vint)v.size(), S("Count is ", l.Count(), " for ", show(v)));
	check(l.IsEmpty() == v.empty(), "IsEmpty");
	check(l.First(Tr(99)).v == (v.empty() ? 99 : v.front()) && l.Last(Tr(99)).v == (v.empty() ? 99 : v.back()), "First/Last with default");
	for (long k = 0; k < 3; k++)
	{
		check(l.All([k](Tr x) { return x.v != k; }) == std::all_of(v.begin(), v.end(), [k](long x) { return x != k; }), S("All != ", k, " over ", show(v)));
		check(l.Any([k](Tr x) { return x.v == k; }) == std::any_of(v.begin(), v.end(), [k](long x) { return x == k; }), S("Any == ", k, " over ", show(v)));
	}
	long h = 5; for (auto x : v) h = (h * 31 + x) % 1000003;
	check(l.Aggregate(5l, [](long a, Tr b) { return (a * 31 + b.v) % 1000003; }) == h, "Aggregate(init, f)");
	if (v.empty())
		check(raises([&] { l.First(); }) && raises([&] { l.Last(); }) && raises([&] { l.Max(); }) && raises([&] { l.Min(); }) && raises([&] { l.Aggregate([](Tr a, Tr b) { return a; }); }), "an empty list did not raise");
	else
	{
		h = v[0]; for (size_t i = 1; i < v.size(); i++) h = (h * 31 + v[i]) % 1000003;
		check(l.Aggregate([](Tr a, Tr b) { return Tr((a.v * 31 + b.v) % 1000003); }).v == h, "Aggregate(f)");
		check(l.First().v == v.front() && l.Last().v == v.back(), "First/Last");
		check(l.Max().v == *std::max_element(v.begin(), v.end()) && l.Min().v == *std::min_element(v.begin(), v.end()), S("Max/Min of ", show(v)));
	}
}
void groups(const L& l, const V& v)
{
	std::vector<std::pair<long, V>> g;
	for (auto x : v) { size_t i = 0; while (i < g.size() && g[i].first != x % 3) i++; if (i == g.size()) g.push_back({ x % 3,{} }); g[i].second.push_back(x); }
	size_t gi = 0;
	for (auto& p : l.GroupBy([](Tr x) { return x.v % 3; })) { check(gi < g.size() && p.key == g[gi].first, "GroupBy: key"); same(p.value, g[gi].second); gi++; }
	check(gi == g.size(), "GroupBy: number of groups");
	auto o = Ptr(new List<Ptr<B_>>()); V d; for (auto x : v) { if (x % 2) { o->Add(Ptr<B_>(new D_(x))); d.push_back(x); } else o->Add(Ptr<B_>(new B_(x))); }
	size_t di = 0; for (auto& p : From(*o.Obj()).FindType<D_>()) { check(di < d.size() && p->v == d[di], "FindType"); di++; } check(di == d.size(), "FindType: number");
	di = 0; for (auto& p : From(*o.Obj()).Cast<D_>()) { check(di < v.size() && (p ? p->v == v[di] && v[di] % 2 : v[di] % 2 == 0), "Cast"); di++; } check(di == v.size(), "Cast: number");
}
void compare(const V& a, const V& b)
{
	log(S("CompareEnumerable ", show(a), " ", show(b)));
	List<Tr> x, y; for (auto v : a) x.Add(Tr(v)); for (auto v : b) y.Add(Tr(v));
	auto o = CompareEnumerable(x, y); auto w = std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end());
	check((o < 0) == (w < 0) && (o > 0) == (w > 0) && (o == 0) == (w == 0), "CompareEnumerable");
}
void sorts()
{
	V v; long n = rnd(0, rnd(0, 3) ? 12 : rnd(0, 5) ? 70 : 700), m = rnd(1, rnd(0, 1) ? 12 : 100); for (long i = 0; i < n; i++) v.push_back(rnd(0, m));
	log(S("Sort ", show(v)));
	std::vector<Tr> t(v.begin(), v.end()); std::sort(v.begin(), v.end());
	bool desc = rnd(0, 1);
	if (desc) { Sort(t.data(), n, [](const Tr& a, const Tr& b) { return b <=> a; }); std::reverse(v.begin(), v.end()); } else Sort(t.data(), n);
	for (long i = 0; i < n; i++) check(val(t[i]) == v[i], S("Sort: element ", i, " is ", val(t[i]), ", expected ", show(v)));
	V w; n = rnd(0, 12); for (long i = 0; i < n; i++) w.push_back(rnd(0, 3)); std::vector<Tr> u(w.begin(), w.end());
	log(S("Sort with keys equal modulo 2 ", show(w)));
	SortLambda(u.data(), n, [](const Tr& a, const Tr& b) { return a.v % 2 <=> b.v % 2; });
	V r; for (auto& x : u) r.push_back(val(x));
	for (long i = 1; i < n; i++) check(r[i - 1] % 2 <= r[i] % 2, S("Sort with equal keys: ", show(r)));
	std::sort(r.begin(), r.end()); std::sort(w.begin(), w.end()); check(r == w, "Sort: elements lost or duplicated");
	// LazyList
	V q; auto l = Ptr(new List<Tr>()); for (long i = rnd(0, 10); i > 0; i--) { q.push_back(rnd(0, 9)); l->Add(Tr(q.back())); }
	log(S("OrderBy ", show(q))); L z(l); V sq = q; std::sort(sq.begin(), sq.end());
	auto is = [&](L y, auto k, const char* what) { V o; for (auto& x : y) o.push_back(val(x)); for (size_t i = 1; i < o.size(); i++) check(k(o[i - 1]) <= k(o[i]), S(what, ": order ", show(o))); std::sort(o.begin(), o.end()); check(o == sq, S(what, ": elements")); };
	is(z.OrderBySelf(), [](long v) { return v; }, "OrderBySelf"); is(z.OrderByKey([](Tr x) { return -x.v; }), [](long v) { return -v; }, "OrderByKey");
	is(z.OrderBy([](const Tr& a, const Tr& b) { return b.v % 4 <=> a.v % 4; }), [](long v) { return -(v % 4); }, "OrderBy");
	same(z, q);
	// partial orders
	std::vector<double> d; for (long i = rnd(0, 12); i > 0; i--) d.push_back(rnd(0, 30) ? rnd(0, 9) : NAN); auto e = d; bool nan = false; for (auto x : d) nan = nan || x != x;
	log(S("Sort of ", d.size(), " doubles", nan ? " with NaN" : "")); bool err = false;
	try { Sort(e.data(), (vint)e.size()); } catch (const Error&) { err = true; }
	check(!err || nan, "Sort of ordered values raises Error"); if (nan && d.size() > 1) check(err, "Sort with unordered values does not raise");
	auto bits = [](std::vector<double> v) { std::sort(v.begin(), v.end(), [](double a, double b) { return std::isnan(a) ? !std::isnan(b) : a < b; }); std::string r; for (auto x : v) r += std::to_string(x) + " "; return r; };
	check(bits(d) == bits(e), "Sort of doubles: elements lost or duplicated"); if (!nan) check(std::is_sorted(e.begin(), e.end()), "Sort of doubles: order");
}
template<typename Ds> void check_list(const Ds& d, V v, bool sorted, const char* w)
{
	if (sorted) std::sort(v.begin(), v.end());
	check(d.Count() == (vint)v.size(), S(w, ": count ", d.Count(), ", expected ", show(v)));
	for (size_t i = 0; i < v.size(); i++) check(val(d[i]) == v[i], S(w, ": element ", i));
}
void copies()
{
	V a, b; for (long i = rnd(0, 6); i > 0; i--) a.push_back(rnd(0, 5)); for (long i = rnd(0, 6); i > 0; i--) b.push_back(rnd(0, 5));
	bool ap = rnd(0, 1); log(S("CopyFrom ", show(a), " <- ", show(b), ap ? " append" : ""));
	V x; if (ap) x = a; x.insert(x.end(), b.begin(), b.end());
	auto fill = [](auto& l, const V& v) { for (auto k : v) l.Add(Tr(k)); };
	V sb = b; std::sort(sb.begin(), sb.end()); V xs; if (ap) xs = a; xs.insert(xs.end(), sb.begin(), sb.end());
	List<Tr> lb; fill(lb, b); SortedList<Tr> sl; fill(sl, b); Array<Tr> ab(b.size()); for (size_t i = 0; i < b.size(); i++) ab.Set(i, Tr(b[i]));
	std::vector<Tr> raw(b.begin(), b.end()); auto lz = From(lb).Where([](Tr) { return true; });
	auto each = [&](auto mk, bool so, const char* w)
	{
		{ auto d = mk(); CopyFrom(*d, lb, ap); check_list(*d, x, so, S(w, " from List").c_str()); delete d; }
		{ auto d = mk(); CopyFrom(*d, sl, ap); check_list(*d, xs, so, S(w, " from SortedList").c_str()); delete d; }
		{ auto d = mk(); CopyFrom(*d, ab, ap); check_list(*d, x, so, S(w, " from Array").c_str()); delete d; }
		{ auto d = mk(); CopyFrom(*d, lz, ap); check_list(*d, x, so, S(w, " from LazyList").c_str()); delete d; }
		{ auto d = mk(); CopyFrom(*d, raw.data(), (vint)raw.size(), ap); check_list(*d, x, so, S(w, " from pointer and count").c_str()); delete d; }
		{ auto d = mk(); CopyFrom(*d, (const Tr*)raw.data(), (const Tr*)raw.data() + raw.size(), ap); check_list(*d, x, so, S(w, " from pointers").c_str()); delete d; }
		check_list(lb, b, false, "source"); check_list(sl, b, true, "source"); check_list(ab, b, false, "source");
	};
	each([&] { auto d = new List<Tr>(); fill(*d, a); return d; }, false, "List");
	each([&] { auto d = new SortedList<Tr>(); fill(*d, a); return d; }, true, "SortedList");
	each([&] { auto d = new Array<Tr>(a.size()); for (size_t i = 0; i < a.size(); i++) d->Set(i, Tr(a[i])); return d; }, false, "Array");
	// maps
	{
		std::map<long, long> ma, mb; for (size_t i = 0; i < a.size(); i++) ma[a[i]] = i; for (size_t i = 0; i < b.size(); i++) mb[b[i]] = 100 + i;
		Dictionary<Tr, Tr> da, db; for (auto& [k, v] : ma) da.Set(Tr(k), Tr(v)); for (auto& [k, v] : mb) db.Set(Tr(k), Tr(v));
		auto m = ap ? ma : std::map<long, long>(); for (auto& [k, v] : mb) m[k] = v;
		CopyFrom(da, db, ap); check(da.Count() == (vint)m.size(), "Dictionary: number of entries"); for (auto& [k, v] : m) check(da.Keys().Contains(Tr(k)) && val(da[Tr(k)]) == v, "Dictionary: entry");
		Group<Tr, Tr> ga, gb; std::map<long, V> na, nb; for (size_t i = 0; i < a.size(); i++) { ga.Add(Tr(a[i]), Tr(i)); na[a[i]].push_back(i); } for (size_t i = 0; i < b.size(); i++) { gb.Add(Tr(b[i]), Tr(i)); nb[b[i]].push_back(i); }
		auto n = ap ? na : std::map<long, V>(); for (auto& [k, v] : nb) n[k].insert(n[k].end(), v.begin(), v.end());
		CopyFrom(ga, gb, ap); check(ga.Count() == (vint)n.size(), "Group: number of keys"); for (auto& [k, v] : n) { check(ga.Contains(Tr(k)), "Group: key"); check_list(ga[Tr(k)], v, false, "Group"); }
	}
	{
		WString s = WString::Unmanaged(L""); std::wstring e; if (rnd(0, 1)) { e = L"abc"; s = WString::CopyFrom(e.c_str(), 3); }
		std::wstring t; for (auto k : b) t += (wchar_t)(L'a' + k); List<wchar_t> l; for (auto c : t) l.Add(c);
		std::wstring y = ap ? e + t : t;
		CopyFrom(s, l, ap); check(s == WString::CopyFrom(y.c_str(), y.size()), "string from List");
		List<wchar_t> back; CopyFrom(back, s, false); check(back.Count() == (vint)y.size(), "List from string: length"); for (size_t i = 0; i < y.size(); i++) check(back[i] == y[i], "List from string: character");
	}
}
int main(int argc, char** argv)
{
	init(argc, argv);
	while (more())
	{
		trace.clear();
		if (prop == "C17" || prop == "") sorts();
		if (prop == "C23" || prop == "") copies();
		if (prop == "C15" || prop == "C16" || prop == "")
		{
			V v; L l = base(v); long n = rnd(0, 3);
			for (long i = 0; i < n; i++) l = step(l, v);
			if (prop != "C16") { same(l, v); groups(l, v); }
			if (prop != "C15") { aggregates(l, v); V w; L m = base(w); compare(v, w); if (rnd(0, 2) == 0) { w = v; if (w.size() && rnd(0, 1)) w.pop_back(); compare(v, w); compare(w, v); V c; for (long i = rnd(0, 40); i > 0; i--) c.push_back(rnd(0, 2)); V x = c, y = c; x.insert(x.end(), v.begin(), v.end()); y.insert(y.end(), w.begin(), w.end()); compare(x, y); compare(y, x); V z = x; if (z.size()) z[rnd(0, z.size() - 1)] += rnd(-1, 1); compare(x, z); } }
			if (prop != "C16") { long s = rnd(-3, 3), k = rnd(-1, 5); log(S("Range ", s, " ", k)); V r; for (long i = 0; i < k; i++) r.push_back(s + i); same(Range<vint>(s, k), r); long arr[] = { 3,1,2 }; same(From(arr), V{ 3,1,2 }); same(From((const long*)arr, (const long*)arr + 2), V{ 3,1 }); same(L(), V{}); same(L(new EmptyEnumerator<Tr>()), V{}); }
		}
		leakcheck("after releasing everything");
	}
}
