// C19: PartialOrderingProcessor against reachability computed by Floyd-Warshall
// SOURCES: Basic.cpp Exception.cpp GlobalStorage.cpp Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Collections/PartialOrdering.cpp
#include <Collections/PartialOrdering.h>
#include "drv.h"
#include <vector>
#include <set>
#include <map>
using namespace vl; using namespace vl::collections; using namespace drv;
typedef std::vector<std::vector<char>> Rel;
// dep[a][b]: node a depends on node b; what a sorted processor must show
static void verify(PartialOrderingProcessor& p, vint n, const Rel& dep)
{
	Rel r(n, std::vector<char>(n, 0));
	for (vint a = 0; a < n; a++) for (vint b = 0; b < n; b++) r[a][b] = dep[a][b] || a == b;
	for (vint k = 0; k < n; k++) for (vint a = 0; a < n; a++) if (r[a][k]) for (vint b = 0; b < n; b++) if (r[k][b]) r[a][b] = 1;
	if (p.nodes.Count() != n) fail(S("nodes: ", p.nodes.Count(), " instead of ", n));
	std::vector<int> seen(n, 0), at(n, -1);
	for (vint c = 0; c < p.components.Count(); c++)
	{
		auto& k = p.components[c]; if (k.nodeCount < 1) fail("component without nodes");
		for (vint i = 0; i < k.nodeCount; i++)
		{
			vint x = k.firstNode[i]; if (x < 0 || x >= n) fail(S("component ", c, " holds node ", x)); if (seen[x]++) fail(S("node ", x, " is in two places"));
			at[x] = (int)c; if (p.nodes[x].component != c) fail(S("node ", x, " says component ", p.nodes[x].component, ", is in ", c));
			if (i && k.firstNode + i != &k.firstNode[0] + i) fail("order");
		}
		if (c && p.components[c - 1].firstNode + p.components[c - 1].nodeCount != k.firstNode) fail("components are not contiguous");
	}
	for (vint x = 0; x < n; x++) if (!seen[x]) fail(S("node ", x, " is in no component"));
	for (vint a = 0; a < n; a++) for (vint b = 0; b < n; b++)
	{
		if ((at[a] == at[b]) != (r[a][b] && r[b][a])) fail(S("nodes ", a, " and ", b, at[a] == at[b] ? " share a component but do not depend on each other" : " depend on each other but are in different components"));
		if (dep[a][b] && at[b] > at[a]) fail(S("node ", a, " depends on ", b, " but comes first"));
	}
	for (vint a = 0; a < n; a++)
	{
		auto& d = p.nodes[a]; if (!d.ins || !d.outs) fail("ins or outs missing");
		for (vint b = 0; b < n; b++) { if (d.ins->Contains(b) != (bool)dep[a][b]) fail(S("ins of ", a, " about ", b)); if (d.outs->Contains(b) != (bool)dep[b][a]) fail(S("outs of ", a, " about ", b)); }
	}
}
template<typename L> static void one(bool named)
{
	trace.clear();
	vint n = rnd() % 4 == 0 ? rnd(0, 3) : rnd() % 12 == 0 ? rnd(10, 40) : rnd(1, 9); std::vector<vint> v; std::set<vint> u; while ((vint)u.size() < n) { vint x = rnd(0, 90); if (u.insert(x).second) v.push_back(x); }
	Rel dep(n, std::vector<char>(n, 0)); int kind = rnd() % 4, den = rnd(2, 8);
	for (vint a = 0; a < n; a++) for (vint b = 0; b < n; b++) { if (kind == 0 ? rnd() % den == 0 : kind == 1 ? a > b && rnd() % den == 0 : kind == 2 ? b == a + 1 || (b < a && rnd() % (2 * den) == 0) : (a / 3 == b / 3 || (a > b && rnd() % (3 * den) == 0)) && rnd() % 4) dep[a][b] = 1; }
	std::string s = "items"; for (auto x : v) s += " " + std::to_string(x); s += "; dependencies"; for (vint a = 0; a < n; a++) for (vint b = 0; b < n; b++) if (dep[a][b]) s += " " + std::to_string(v[a]) + "->" + std::to_string(v[b]); log(s);
	L items; if constexpr (std::is_same_v<L, Array<vint>>) { items.Resize(n); for (vint i = 0; i < n; i++) items[i] = v[i]; } else for (auto x : v) items.Add(x);
	auto idx = [&](vint x) { for (vint i = 0; i < n; i++) if (items[i] == x) return i; fail("item"); return (vint)-1; };
	Rel d2(n, std::vector<char>(n, 0)); Group<vint, vint> g; std::vector<std::pair<vint, vint>> es;
	for (vint a = 0; a < n; a++) for (vint b = 0; b < n; b++) if (dep[a][b]) { d2[idx(v[a])][idx(v[b])] = 1; es.push_back({ v[a], v[b] }); }
	for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[rnd() % i]); for (auto& e : es) { g.Add(e.first, e.second); if (rnd() % 6 == 0) g.Add(e.first, e.second); }
	{ log("InitWithGroup"); PartialOrderingProcessor p; p.InitWithGroup(items, g); p.Sort(); verify(p, n, d2); if (n) { try { p.Sort(); fail("second Sort accepted"); } catch (const Error&) {} try { p.InitWithGroup(items, g); fail("second Init accepted"); } catch (const Error&) {} } }
	{ log("InitWithFunc"); PartialOrderingProcessor p; p.InitWithFunc(items, [&](vint a, vint b) { return (bool)d2[idx(a)][idx(b)]; }); p.Sort(); verify(p, n, d2); }
	if (n) { Group<vint, vint> h; for (auto& e : es) h.Add(e.first, e.second); if (rnd() % 2) h.Add(v[0], 1000); else h.Add(1000, v[0]); PartialOrderingProcessor p; log("unknown item"); try { p.InitWithGroup(items, h); fail("dependency on an unknown item accepted"); } catch (const Error&) {} }
	{
		// sub classes: some items in classes, the rest alone
		log("InitWithSubClass"); Dictionary<vint, vint> sc; int nc = rnd(1, 4); std::string t = "classes"; for (auto x : v) if (rnd() % 3) { sc.Add(x, rnd(1, nc) * 7); t += S(" ", x, ":", sc[x]); } log(t);
		PartialOrderingProcessor p; p.InitWithSubClass(items, g, sc);
		std::map<vint, std::set<vint>> cls; vint m = 0; { std::set<vint> cs; for (auto x : v) { if (sc.Keys().Contains(x)) cs.insert(sc[x]); else m++; } m += cs.size(); }
		if (p.nodes.Count() != m) fail(S("sub classes: ", p.nodes.Count(), " nodes instead of ", m));
		std::vector<vint> of(n, -1);
		for (vint i = 0; i < m; i++) for (vint j = 0; j < p.nodes[i].subClassItemCount; j++) { vint q = p.nodes[i].firstSubClassItem[j]; if (q < 0 || q >= n || of[q] != -1) fail(S("sub class item ", q)); of[q] = i; }
		for (vint a = 0; a < n; a++) { if (of[a] == -1) fail(S("item ", a, " is in no sub class")); for (vint b = 0; b < n; b++) { bool same = a == b || (sc.Keys().Contains(items[a]) && sc.Keys().Contains(items[b]) && sc[items[a]] == sc[items[b]]); if (same != (of[a] == of[b])) fail(S("sub class of items ", a, " and ", b)); } }
		Rel d3(m, std::vector<char>(m, 0)); for (vint a = 0; a < n; a++) for (vint b = 0; b < n; b++) if (d2[a][b]) d3[of[a]][of[b]] = 1;
		if (n && rnd() % 2) { log("second Init"); try { p.InitWithSubClass(items, g, sc); fail("second Init accepted"); } catch (const Error&) {} }
		p.Sort(); verify(p, m, d3);
		if (n) { log("second Init"); try { if (rnd() % 2) p.InitWithSubClass(items, g, sc); else p.InitWithFunc(items, [](vint, vint) { return false; }); fail("second Init accepted"); } catch (const Error&) {} try { p.Sort(); fail("second Sort accepted"); } catch (const Error&) {} }
		if (n) { Group<vint, vint> h; for (auto& e : es) h.Add(e.first, e.second); if (rnd() % 2) h.Add(v[0], 1000); else h.Add(1000, v[0]); PartialOrderingProcessor q; log("unknown item"); try { q.InitWithSubClass(items, h, sc); fail("dependency on an unknown item accepted"); } catch (const Error&) {} }
	}
}
int main(int argc, char** argv)
{
	init(argc, argv);
	while (more()) { one<List<vint>>(false); one<Array<vint>>(false); one<SortedList<vint>>(false); }
	return 0;
}
