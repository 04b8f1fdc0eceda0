// C04/C05/C24: differential execution of Dictionary and Group against std::map
// SOURCES: Basic.cpp
#include <Collections/Dictionary.h>
#include <Collections/OperationForEach.h>
#include "drv.h"
using namespace vl; using namespace vl::collections; using namespace drv;
template<typename F> bool raises(F f) { try { f(); } catch (const Error&) { return true; } return false; }
typedef std::map<long, long> M; typedef std::map<long, std::vector<long>> MM;
typedef Dictionary<Tr, Tr> D; typedef Group<Tr, Tr> G;

template<typename E, typename X> void enumerate(E* e, const X& flat, const char* w)
{
	auto walk = [&](E* e, const char* w2, size_t from)
	{
		for (size_t i = from; i < flat.size(); i++)
		{
			check(e->Next(), S(w, w2, ": Next ended early"));
			check(e->Index() == (vint)i, S(w, w2, ": Index is ", e->Index(), ", expected ", i));
			auto& c = e->Current();
			check(val(c.key) == flat[i].first && val(c.value) == flat[i].second, S(w, w2, ": Current at ", i));
		}
		check(!e->Next(), S(w, w2, ": Next past the end"));
	};
	walk(e, " enumerator", 0); e->Reset(); walk(e, " enumerator after Reset", 0); e->Reset();
	size_t k = flat.size() ? rnd(0, flat.size() - 1) : 0;
	for (size_t i = 0; i < k; i++) e->Next();
	auto c = e->Clone();
	if (k) { auto& x = c->Current(); check(val(x.key) == flat[k - 1].first && val(x.value) == flat[k - 1].second && c->Index() == (vint)k - 1, S(w, ": Clone at another position")); }
	walk((E*)c, " clone", k); delete c;
	walk(e, " enumerator after Clone", k);
	delete e;
}
void same(const D& d, const M& m, const char* op, bool full)
{
	check(d.Count() == (vint)m.size(), S(op, ": Count is ", d.Count(), ", expected ", m.size()));
	check(d.Keys().Count() == d.Count() && d.Values().Count() == d.Count(), S(op, ": Keys/Values count"));
	vint i = 0; std::vector<std::pair<long, long>> flat;
	for (auto& [k, v] : m)
	{
		check(val(d.Keys()[i]) == k && val(d.Values()[i]) == v, S(op, ": entry ", i)); i++;
		check(val(d.Get(Tr(k))) == v && val(d[Tr(k)]) == v, S(op, ": value of key ", k)); flat.push_back({ k,v });
	}
	for (long k = -1; k < 14; k++) if (!m.count(k)) { check(raises([&] { d.Get(Tr(k)); }) && raises([&] { d[Tr(k)]; }), S(op, ": lookup of absent key ", k, " did not raise")); }
	if (full) enumerate(d.CreateEnumerator(), flat, "Dictionary");
}
void same(const G& g, const MM& m, const char* op, bool full)
{
	check(g.Count() == (vint)m.size() && g.Keys().Count() == g.Count(), S(op, ": Count is ", g.Count(), ", expected ", m.size()));
	vint i = 0; std::vector<std::pair<long, long>> flat;
	for (auto& [k, v] : m)
	{
		check(val(g.Keys()[i]) == k, S(op, ": key ", i)); 
		for (auto* l : { &g.Get(Tr(k)), &g[Tr(k)], &g.GetByIndex(i) })
		{
			check(l->Count() == (vint)v.size(), S(op, ": number of values of key ", k, " is ", l->Count(), ", expected ", v.size()));
			for (size_t j = 0; j < v.size(); j++) check(val(l->Get(j)) == v[j], S(op, ": value ", j, " of key ", k));
		}
		for (long x : v) flat.push_back({ k,x });
		i++;
	}
	for (long k = -1; k < 14; k++)
	{
		check(g.Contains(Tr(k)) == (m.count(k) != 0), S(op, ": Contains(", k, ")"));
		for (long v = -1; v < 6; v++) check(g.Contains(Tr(k), Tr(v)) == (m.count(k) && std::count(m.at(k).begin(), m.at(k).end(), v)), S(op, ": Contains(", k, ",", v, ")"));
		if (!m.count(k)) check(raises([&] { g.Get(Tr(k)); }) && raises([&] { g[Tr(k)]; }), S(op, ": lookup of absent key ", k, " did not raise"));
	}
	check(raises([&] { g.GetByIndex(-1); }) && raises([&] { g.GetByIndex(m.size()); }), S(op, ": GetByIndex out of range did not raise"));
	if (full) enumerate(g.CreateEnumerator(), flat, "Group");
}
D* opD(D* d, M& m, bool full)
{
	Tr k(rnd(0, 12)), v(rnd(0, 5)); long kv = k.v, vv = v.v; bool has = m.count(kv), r = false, er = false;
	int op = rnd(0, 16);
	log(S("Dictionary op ", op, " key ", kv, " value ", vv));
	switch (op)
	{
	case 0: r = d->Set(k, v); break; case 1: r = d->Set(k, Tr(vv)); break; case 2: r = d->Set(Tr(kv), v); break; case 3: r = d->Set(Tr(kv), Tr(vv)); break;
	case 4: er = raises([&] { r = d->Add(k, v); }); break; case 5: er = raises([&] { r = d->Add(k, Tr(vv)); }); break;
	case 6: er = raises([&] { r = d->Add(Tr(kv), v); }); break; case 7: er = raises([&] { r = d->Add(Tr(kv), Tr(vv)); }); break;
	case 8: { Pair<Tr, Tr> p(k, v); er = raises([&] { r = d->Add(p); }); check(p.key.v == kv && p.value.v == vv, "Add changed the pair"); break; }
	case 9: { Pair<Tr, Tr> p(k, v); er = raises([&] { r = d->Add(std::move(p)); }); break; }
	case 10: case 11: r = d->Remove(k); check(r == has, "Remove: result"); m.erase(kv); break;
	case 12: if (rnd(0, 8) == 0) { check(d->Clear(), "Clear: result"); m.clear(); } break;
	case 13: if (d->Count()) { long j = rnd(0, d->Count() - 1); long kk = d->Keys()[j].v; check(d->Remove(d->Keys()[j]), "Remove of an own key"); m.erase(kk); } break;
	case 14: { D* e = new D(std::move(*d)); check(d->Count() == 0, "moved-from Dictionary is empty"); delete d; d = e; break; }
	case 15: { D* e = new D; for (long j = rnd(0, 3); j > 0; j--) e->Set(Tr(j * 3), Tr(j)); *e = std::move(*d); check(d->Count() == 0, "moved-from Dictionary is empty"); delete d; d = e; break; }
	case 16: if (d->Count()) { long j = rnd(0, d->Count() - 1); long x = d->Values()[j].v; r = d->Set(k, d->Values()[j]); check(r, "Set: result"); m[kv] = x; } break;
	}
	if (op <= 3) { check(r, "Set: result"); m[kv] = vv; }
	if (op >= 4 && op <= 9) { check(er == has, "Add: Error exactly for a present key"); if (!er) { check(r, "Add: result"); m[kv] = vv; } }
	check(k.v == kv && v.v == vv, "an argument was changed");
	same(*d, m, "after the operation", full);
	return d;
}
G* opG(G* g, MM& m, bool full)
{
	Tr k(rnd(0, 9)), v(rnd(0, 4)); long kv = k.v, vv = v.v; bool has = m.count(kv), r = false;
	int op = rnd(0, 15);
	log(S("Group op ", op, " key ", kv, " value ", vv));
	switch (op)
	{
	case 0: r = g->Add(k, v); break; case 1: r = g->Add(k, Tr(vv)); break; case 2: r = g->Add(Tr(kv), v); break; case 3: r = g->Add(Tr(kv), Tr(vv)); break;
	case 4: { Pair<Tr, Tr> p(k, v); r = g->Add(p); check(p.key.v == kv && p.value.v == vv, "Add changed the pair"); break; }
	case 5: { Pair<Tr, Tr> p(k, v); r = g->Add(std::move(p)); break; }
	case 6: case 7: if (op == 6 || rnd(0, 1)) { r = g->Remove(k); check(r == has, "Remove: result"); m.erase(kv); } break;
	case 8: case 9: case 10: case 11:
	{
		r = g->Remove(k, v); bool e = false;
		if (has) { auto& l = m[kv]; auto it = std::find(l.begin(), l.end(), vv); if (it != l.end()) { e = true; l.erase(it); if (l.empty()) m.erase(kv); } }
		check(r == e, "Remove(key, value): result"); break;
	}
	case 12: if (rnd(0, 8) == 0) { check(g->Clear(), "Clear: result"); m.clear(); } break;
	case 13: if (g->Count()) { long j = rnd(0, g->Count() - 1); long kk = g->Keys()[j].v; check(g->Remove(g->Keys()[j]), "Remove of an own key"); m.erase(kk); } break;
	case 14: { G* e = new G(std::move(*g)); check(g->Count() == 0, "moved-from Group is empty"); delete g; g = e; break; }
	case 15: { G* e = new G; for (long j = rnd(0, 3); j > 0; j--) e->Add(Tr(j * 3), Tr(j)); *e = std::move(*g); check(g->Count() == 0, "moved-from Group is empty"); delete g; g = e; break; }
	}
	if (op <= 5) { check(r, "Add: result"); m[kv].push_back(vv); }
	check(k.v == kv && v.v == vv, "an argument was changed");
	same(*g, m, "after the operation", full);
	return g;
}
template<typename L> void walk(const L& l, const std::vector<long>& v, const char* w)
{
	log(S(w, " of ", v.size(), " elements: enumerating"));
	auto e = l.CreateEnumerator(); long k = rnd(0, v.size());
	auto go = [&](auto e, long from) { for (size_t i = from; i < v.size(); i++) { check(e->Next(), S(w, ": Next ended early")); check(e->Index() == (vint)i, S(w, ": Index")); check(val(e->Current()) == v[i], S(w, ": Current")); } for (int i = 0; i < 3; i++) check(!e->Next(), S(w, ": Next past the end")); };
	check(e->Index() == -1, S(w, ": Index at the start")); for (long i = 0; i < k; i++) e->Next();
	auto c = e->Clone(); check(c->Index() == e->Index(), S(w, ": Index of the clone")); go(e, k); go(c, k); delete c; check(e->Evaluated(), S(w, ": Evaluated")); e->Reset(); check(e->Index() == -1, S(w, ": Index after Reset")); go(e, 0); delete e;
	size_t i = 0; for (auto&& x : l) { check(i < v.size() && val(x) == v[i], S(w, ": range-based for")); i++; } check(i == v.size(), S(w, ": range-based for ended early"));
	i = 0; for (auto&& [x, n] : indexed(l)) { check(i < v.size() && n == (vint)i && val(x) == v[i], S(w, ": indexed for")); i++; } check(i == v.size(), S(w, ": indexed for ended early"));
	i = 0; for (auto&& x : l) { if (i == (size_t)k) break; i++; } for (auto&& [x, n] : indexed(l)) { if (n == k) break; }
}
void lists()
{
	std::vector<long> v; for (long i = rnd(0, 7); i > 0; i--) v.push_back(rnd(0, 5));
	{ List<Tr> l; for (auto x : v) l.Add(Tr(x)); walk(l, v, "List"); }
	{ Array<Tr> l(v.size()); for (size_t i = 0; i < v.size(); i++) l.Set(i, Tr(v[i])); walk(l, v, "Array"); }
	{ SortedList<Tr> l; for (auto x : v) l.Add(Tr(x)); std::sort(v.begin(), v.end()); walk(l, v, "SortedList"); }
}
// inner join of two groups over a key only the first or both hold
void join()
{
	G a, b; MM ma, mb; for (long i = rnd(0, 6); i > 0; i--) { long k = rnd(0, 5); a.Add(Tr(k), Tr(i)); ma[k].push_back(i); } for (long i = rnd(0, 6); i > 0; i--) { long k = rnd(0, 5); b.Add(Tr(k), Tr(i)); mb[k].push_back(i); }
	log(S("GroupInnerJoin of ", ma.size(), " and ", mb.size(), " keys")); std::vector<int> got, want;
	auto l1 = [&](const Tr& k, const List<Tr>& x) { check(ma.count(val(k)) && !mb.count(k.v), "discard first"); check(&x == &a[k], "values of the first"); got.push_back(3 * k.v); };
	auto l2 = [&](const Tr& k, const List<Tr>& x) { check(mb.count(val(k)) && !ma.count(k.v), "discard second"); check(&x == &b[k], "values of the second"); got.push_back(3 * k.v + 1); };
	auto l3 = [&](const Tr& k, const List<Tr>& x, const List<Tr>& y) { check(mb.count(val(k)) && ma.count(k.v), "join"); check(&x == &a[k] && &y == &b[k], "values of the join"); got.push_back(3 * k.v + 2); };
	for (long k = 0; k < 6; k++) if (ma.count(k) || mb.count(k)) want.push_back(3 * k + (!mb.count(k) ? 0 : !ma.count(k) ? 1 : 2));
	GroupInnerJoin(a, b, l1, l2, l3);
	check(got == want, "GroupInnerJoin: callbacks");
}
int main(int argc, char** argv)
{
	init(argc, argv);
	bool en = prop == "C24" || prop == "";
	long it = 0;
	while (more())
	{
		trace.clear();
		long n = rnd(1, 60);
		if (prop != "C05") { D* d = new D; M m; for (long i = 0; i < n; i++) d = opD(d, m, en); delete d; leakcheck("Dictionary"); }
		trace.clear();
		if (en) { lists(); join(); leakcheck("lists"); trace.clear(); }
		if (prop != "C04") { G* g = new G; MM m; for (long i = 0; i < n; i++) g = opG(g, m, en); delete g; leakcheck("Group"); }
		it++;
	}
	printf("%ld histories agreed\n", it);
	return 0;
}
