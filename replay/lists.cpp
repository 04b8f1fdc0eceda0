// C01/C02: differential execution of Array, List, SortedList against std::vector
#include <Collections/List.h>
#include "drv.h"
using namespace vl; using namespace vl::collections; using namespace drv;
typedef std::vector<long> V;

template<typename C> void same(const C& l, const V& m, const char* op)
{
	if (l.Count() != (vint)m.size()) fail(S(op, ": Count() is ", l.Count(), ", expected ", m.size()));
	for (vint i = 0; i < l.Count(); i++)
	{
		if (val(l.Get(i)) != m[i]) fail(S(op, ": element ", i, " is ", val(l.Get(i)), ", expected ", m[i]));
		if (val(l[i]) != m[i]) fail(S(op, ": element [", i, "] is ", val(l[i]), ", expected ", m[i]));
	}
}
template<typename F> bool raises(F f) { try { f(); } catch (const Error&) { return true; } return false; }
template<typename C> void observers(const C& l, const V& m, long mx)
{
	vint n = m.size();
	for (long x = -1; x <= mx; x++)
	{
		auto it = std::find(m.begin(), m.end(), x);
		vint e = it == m.end() ? -1 : it - m.begin();
		if (l.IndexOf(x) != e) fail(S("IndexOf(", x, ") is ", l.IndexOf(x), ", expected ", e));
		if (l.Contains(x) != (e != -1)) fail(S("Contains(", x, ")"));
	}
	for (vint i : { (vint)-1, n, n + 1, (vint)INT64_MIN, (vint)INT64_MAX })
	{
		if (!raises([&] { l.Get(i); })) fail(S("Get(", i, ") did not raise"));
		if (!raises([&] { l[i]; })) fail(S("operator[](", i, ") did not raise"));
	}
	same(l, m, "observers");
}
template<typename T> void fill(List<T>& l, const V& m) { for (auto x : m) l.Add(T(x)); }

template<typename T> void listOp(List<T>& l, V& m, long mx, bool random, int op, long a, long b)
{
	vint n = m.size();
	switch (op)
	{
	case 0: case 1: case 2: case 3:   // Insert at a (possibly invalid), value b
	{
		if (random) log(S(op & 2 ? "Insert(T&&)" : "Insert(const T&)", " at ", a, " value ", b));
		bool bad = a<0 || a>n;
		vint r = -5; bool er;
		if (op & 2) er = raises([&] { r = l.Insert(a, T(b)); }); else { T x(b); er = raises([&] { r = l.Insert(a, x); }); check(val(x) == b, "Insert changed its argument"); }
		check(er == bad, "Insert: Error exactly for an index out of range");
		if (!bad) { check(r == a, "Insert: returned index"); m.insert(m.begin() + a, b); }
		break;
	}
	case 4: { if (random) log(S("Add(const T&) ", b)); T x(b); check(l.Add(x) == n, "Add: returned index"); m.push_back(b); break; }
	case 5: { if (random) log(S("Add(T&&) ", b)); check(l.Add(T(b)) == n, "Add: returned index"); m.push_back(b); break; }
	case 6: { if (random) log(S("RemoveAt ", a)); bool bad = a<0 || a>=n; bool er = raises([&] { check(l.RemoveAt(a), "RemoveAt: result"); }); check(er == bad, "RemoveAt: Error exactly for an index out of range"); if (!bad) m.erase(m.begin() + a); break; }
	case 7: { if (random) log(S("RemoveRange ", a, ",", b)); bool bad = a<0 || a>n || b<0 || b>n - a; bool er = raises([&] { check(l.RemoveRange(a, b), "RemoveRange: result"); }); check(er == bad, "RemoveRange: Error exactly for a range out of range"); if (!bad) m.erase(m.begin() + a, m.begin() + a + b); break; }
	case 8: { if (random) log("Clear"); check(l.Clear(), "Clear: result"); m.clear(); break; }
	case 9: { if (random) log(S("Remove ", b)); T x(b); auto it = std::find(m.begin(), m.end(), b); bool r = l.Remove(x); check(r == (it != m.end()), "Remove: result"); if (it != m.end()) m.erase(it); break; }
	case 10: { if (random) log(S("Set(const T&) ", a, ",", b)); T x(b); bool bad = a<0 || a>=n; bool er = raises([&] { check(l.Set(a, x), "Set: result"); }); check(er == bad, "Set: Error exactly for an index out of range"); check(val(x) == b, "Set changed its argument"); if (!bad) m[a] = b; break; }
	case 11: { if (random) log(S("Set(T&&) ", a, ",", b)); bool bad = a<0 || a>=n; bool er = raises([&] { check(l.Set(a, T(b)), "Set: result"); }); check(er == bad, "Set: Error exactly for an index out of range"); if (!bad) m[a] = b; break; }
	case 12: { if (random) log(S("[] = ", a, ",", b)); bool bad = a<0 || a>=n; bool er = raises([&] { l[a] = T(b); }); check(er == bad, "operator[]: Error exactly for an index out of range"); if (!bad) m[a] = b; break; }
	case 13: { if (n == 0) break; vint j = (b % n + n) % n; if (random) log(S("Insert(", a, ", l[", j, "]) (own element)")); if (a < 0 || a > n) break; long x = m[j]; l.Insert(a, l.Get(j)); m.insert(m.begin() + a, x); break; }
	case 14: { if (n == 0) break; vint j = (b % n + n) % n; if (random) log(S("Add(l[", j, "]) (own element)")); long x = m[j]; l.Add(l.Get(j)); m.push_back(x); break; }
	case 15: { if (random) log("move to another list and back"); List<T> o(std::move(l)); same(o, m, "move construction"); check(l.Count() == 0, "moved-from list is empty"); l = std::move(o); check(o.Count() == 0, "moved-from list is empty"); break; }
	case 16: { if (random) log("move-assign a fresh list"); List<T> o; V w; for (long i = 0; i < (a & 7); i++) { o.Add(T(b + i)); w.push_back(b + i); } l = std::move(o); check(o.Count() == 0, "moved-from list is empty"); m = w; break; }
	}
	same(l, m, "after the operation");
	(void)mx;
}
template<typename T> void listAll(bool deep)
{
	// every operation on every small list, with the capacity each history leaves behind
	for (int extra = 0; extra < 3; extra++)
	for (vint n = 0; n <= 12; n++)
		for (int op = 0; op <= 16; op++)
			for (long a = -2; a <= n + 2; a++)
				for (long b = (op == 7 ? -3 : 0); b <= (op == 7 || op == 13 || op == 14 ? n + 1 : 2); b++)
				{
					if (op == 4 || op == 5 || op == 8 || op == 9 || op == 15) if (a != 0) continue;
					trace.clear();
					{
						V m; List<T> l;
						for (vint i = 0; i < n; i++) m.push_back(op == 9 ? i % 3 : 10 + i);
						log(S("list with elements 0..", n, " built by Add", extra == 1 ? " after adding and removing 20 more" : extra == 2 ? " by inserting at the front" : ""));
						if (extra == 2) for (vint i = n - 1; i >= 0; i--) l.Insert(0, T(m[i])); else fill(l, m);
						if (extra == 1) { for (int i = 0; i < 20; i++) l.Add(T(i)); l.RemoveRange(n, 20); }
						same(l, m, "building");
						listOp(l, m, 3, true, op, a, b);
						observers(l, m, 4);
					}
					leakcheck("after destroying the list");
				}
	for (long big : { (long)INT64_MAX, (long)INT64_MIN, (long)INT64_MAX - 1 })
		for (int op : { 0, 6, 7, 10, 12 }) for (long b : { 0l, 1l, (long)INT64_MAX, (long)INT64_MIN })
		{
			if (op != 7 && b > 1) continue; if (op != 7 && b < 0) continue;
			trace.clear(); List<T> l; V m{ 1,2,3 }; fill(l, m);
			listOp(l, m, 3, true, op, big, b);
			listOp(l, m, 3, true, op == 7 ? 7 : op, op == 7 ? 1 : big, b);
		}
	while (more(deep ? 0.35 : 0.12))
	{
		trace.clear();
		{
			List<T> l; V m; long mx = rnd(1, 30);
			int steps = rnd(1, 120), mode = rnd(0, 3);
			for (int i = 0; i < steps; i++)
			{
				int op = rnd(0, 16); vint n = m.size();
				if (mode == 1 && rnd(0, 3)) op = rnd(0, 5);
				if (mode == 2 && rnd(0, 3) && n > 40) op = 6;
				if (op == 8 && rnd(0, 5)) op = 4;
				long a = rnd(-1, n + 1), b = op == 7 ? rnd(-1, n / 3 + 1) : rnd(0, mx);
				listOp(l, m, mx, true, op, a, b);
				if (!rnd(0, 9)) observers(l, m, mx);
			}
		}
		leakcheck("after destroying the list");
	}
}
template<typename T> void arrayAll()
{
	for (vint n = -1; n <= 10; n++)
	{
		trace.clear(); log(S("Array(", n, ")"));
		{
			bool er = raises([&] { Array<T> a(n); check(a.Count() == n, "Count"); if constexpr (!std::is_trivial_v<T>) for (vint i = 0; i < n; i++) check(val(a[i]) == 0, "default element"); });
			check(er == (n < 0), "Array(size): Error exactly for negative size");
			if (n < 0) { T x[1]; check(raises([&] { Array<T> b(x, n); }), "Array(ptr, size): Error for negative size"); continue; }
			V m; for (vint i = 0; i < n; i++) m.push_back(5 + i * 3);
			{
				std::vector<T> src; for (auto x : m) src.push_back(T(x));
				Array<T> b(src.data(), n); same(b, m, "Array(const T*, size)"); observers(b, m, 20);
				for (vint i = 0; i < n; i++) check(val(src[i]) == m[i], "source unchanged");
				for (vint i = -1; i <= n; i++) for (int k = 0; k < 3; k++)
				{
					bool bad = i < 0 || i >= n; long x = 100 + i * 3 + k; T t(x);
					bool er = raises([&] { if (k == 0) check(b.Set(i, t), "Set"); else if (k == 1) check(b.Set(i, T(x)), "Set"); else b[i] = t; });
					check(er == bad, "Array::Set/operator[]: Error exactly out of range"); if (!bad) m[i] = x; same(b, m, "Set");
				}
				Array<T> c(std::move(b)); check(b.Count() == 0, "moved-from array is empty"); same(c, m, "move construction");
				Array<T> d(3); d = std::move(c); check(c.Count() == 0, "moved-from array is empty"); same(d, m, "move assignment");
				for (vint k = -1; k <= 14; k++)
				{
					log(S("Resize(", k, ")"));
					Array<T> e(m.size()); for (size_t i = 0; i < m.size(); i++) e[i] = T(m[i]);
					bool er = raises([&] { e.Resize(k); }); check(er == (k < 0), "Resize: Error exactly for negative size");
					if (k < 0) { same(e, m, "unchanged"); continue; }
					check(e.Count() == k, "Resize: Count");
					for (vint i = 0; i < k && i < n; i++) check(val(e[i]) == m[i], "Resize keeps elements");
					if constexpr (!std::is_trivial_v<T>) for (vint i = n; i < k; i++) check(val(e[i]) == 0, "Resize default-constructs new elements");
				}
			}
		}
		leakcheck("array");
	}
}
template<typename T> void sortedAll()
{
	for (int round = 0; round < 100000 && more(0.9); round++)
	{
		trace.clear();
		{
			SortedList<T> l; V m; long mx = round < 400 ? 1 + round % 6 : rnd(1, 40); int steps = round < 400 ? 1 + round % 14 : rnd(1, 100);
			for (int i = 0; i < steps; i++)
			{
				long x = rnd(0, mx); vint n = m.size(); int op = rnd(0, 9);
				if (op <= 5 || n == 0)
				{
					vint r; if (op == 5 && n) { vint j = rnd(0, n - 1); x = m[j]; log(S("SortedList::Add(own element ", j, ")")); r = l.Add(l.Get(j)); } else if (op & 1) { log(S("SortedList::Add(T&&) ", x)); r = l.Add(T(x)); } else { log(S("SortedList::Add ", x)); T t(x); r = l.Add(t); check(val(t) == x, "argument unchanged"); }
					m.insert(std::upper_bound(m.begin(), m.end(), x), x);
					check(r >= 0 && r < l.Count() && val(l[r]) == x, "SortedList::Add: result is the index of the added element");
				}
				else if (op == 6) { log(S("SortedList::Remove ", x)); T t(x); auto it = std::find(m.begin(), m.end(), x); bool r = l.Remove(t); check(r == (it != m.end()), "SortedList::Remove: result"); if (r) m.erase(it); }
				else if (op == 7) { vint j = rnd(-1, n); log(S("SortedList::RemoveAt ", j)); bool bad = j < 0 || j >= n; bool er = raises([&] { l.RemoveAt(j); }); check(er == bad, "RemoveAt: Error"); if (!bad) m.erase(m.begin() + j); }
				else if (op == 8 && !rnd(0, 4)) { log("SortedList::Clear"); l.Clear(); m.clear(); }
				else if (op == 9) { log("SortedList move"); SortedList<T> o(std::move(l)); check(l.Count() == 0, "moved-from"); same(o, m, "move"); l = std::move(o); }
				same(l, m, "SortedList after the operation");
				for (long y = -1; y <= mx + 1; y++)
				{
					T t(y); bool has = std::binary_search(m.begin(), m.end(), y); vint r = l.IndexOf(t);
					check(l.Contains(t) == has, "SortedList::Contains"); check(has ? r >= 0 && r < l.Count() && val(l[r]) == y : r == -1, "SortedList::IndexOf");
				}
			}
		}
		leakcheck("SortedList");
	}
}
int main(int argc, char** argv)
{
	init(argc, argv);
	if (prop == "C03") { sortedAll<Tr>(); budget *= 1.4; sortedAll<long>(); return 0; }
	arrayAll<Tr>(); arrayAll<long>();
	listAll<Tr>(false); budget *= 1.5; listAll<long>(false);
	return 0;
}
