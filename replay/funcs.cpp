// C14: Func and Event against recorded calls, lifetimes tracked
// SOURCES: Basic.cpp
#include <Primitives/Function.h>
#include <Primitives/Event.h>
#include "drv.h"
using namespace vl; using namespace vl::collections; using namespace drv;
struct Call { int who; long a, b; };
static std::vector<Call> calls;
struct Arg : Tr { Arg(long x = 0) :Tr(x) {} Arg(const Arg&) = default; Arg(Arg&&) = default; };
long sf(Arg a, long b) { calls.push_back({ -1, val(a), b }); return a.v * 3 + b; }
struct C { int id; long mf(Arg a, long b) { calls.push_back({ id, val(a), b }); return a.v * 5 + b + id; } void me(Arg a, long& b) { calls.push_back({ id, val(a), b }); b++; } };
struct FO { Tr state; FO(long i) :state(i) {} long operator()(Arg a, long b)const { calls.push_back({ (int)val(state), val(a), b }); return a.v * 7 + b + state.v; } };
struct GO { Tr state; GO(long i) :state(i) {} int operator()(const Arg& a, long b)const { calls.push_back({ (int)val(state), val(a), b }); return (int)(a.v * 11 + b + state.v); } };
typedef Func<long(Arg, long)> FN; typedef Func<int(const Arg&, long)> FG;
struct M { int kind; int id; };   // 0 empty 1 static 2 member 3 object 4 converted object 5 converted Func
static C objs[4] = { {100},{101},{102},{103} };
FN mk(M m)
{
	switch (m.kind)
	{
	case 1: return FN(&sf);
	case 2: return FN(&objs[m.id], &C::mf);
	case 3: if (rnd(0, 1)) return FN(FO(m.id)); else { FO f(m.id); FN r(f); check(val(f.state) == m.id, "construction changed its argument"); return r; }
	case 4: { GO g(m.id); return FN(g); }
	case 5: { FG g{ GO(m.id) }; if (rnd(0, 1)) return FN(g); else { const FG& c = g; return FN(c); } }
	case 6: { FG g; const FG& c = g; return rnd(0, 1) ? FN(g) : FN(c); }
	}
	return FN();
}
void same(const FN& f, M m, const char* w)
{
	bool empty = m.kind == 0 || m.kind == 6;
	check((bool)f == !empty, S(w, ": emptiness"));
	if (empty) return;
	long a = rnd(-5, 5), b = rnd(-5, 5); Arg x(a);
	calls.clear();
	long r = rnd(0, 1) ? f(x, b) : f(Arg(a), b);
	check(val(x) == a, S(w, ": call changed the caller's argument"));
	int who = m.kind == 1 ? -1 : m.kind == 2 ? objs[m.id].id : m.id;
	long e = m.kind == 1 ? a * 3 + b : m.kind == 2 ? a * 5 + b + who : m.kind == 3 ? a * 7 + b + who : a * 11 + b + who;
	check(calls.size() == 1 && calls[0].who == who && calls[0].a == a && calls[0].b == b, S(w, ": the function called is not the one given, or its arguments differ"));
	check(r == e, S(w, ": result ", r, ", expected ", e));
}
void funcs()
{
	M a{ (int)rnd(0, 6), (int)rnd(0, 3) }, b{ (int)rnd(0, 6), (int)rnd(0, 3) };
	int op = rnd(0, 5);
	log(S("Func of kind ", a.kind, ", other of kind ", b.kind, ", op ", op));
	{
		FN f = mk(a), g = mk(b);
		same(f, a, "construction"); same(g, b, "construction");
		bool bothEmpty = !f && !g;
		check((f == g) == bothEmpty && (f != g) == !bothEmpty, "independent functions compare equal");
		switch (op)
		{
		case 0: { FN h(f); same(h, a, "copy"); check(h == f && !(h != f), "copy differs from its original"); break; }
		case 1: { FN h(std::move(f)); same(h, a, "move"); f = FN(); a = { 0,0 }; break; }
		case 2: g = f; b = a; check(g == f, "assigned differs"); break;
		case 3: { FN t(f); g = std::move(t); b = a; break; }
		case 4: { FN& r = f; f = r; break; }
		case 5: { FN* h = new FN(f); f = FN(); M z = a; a = { 0,0 }; same(*h, z, "copy outliving its original"); delete h; break; }
		}
		same(f, a, "afterwards"); same(g, b, "afterwards (other)");
	}
	leakcheck("functions");
}
struct Ha { int id; Tr t; Ha(int i) :id(i), t(i) {} void operator()(Arg a, long& b)const { t.alive("handler"); calls.push_back({ id, val(a), b }); b++; } };
static void stat(Arg a, long& b) { calls.push_back({ -1, val(a), b }); b++; }
typedef Event<void(Arg, long&)> EV;
void events()
{
	{
		EV* e = new EV, other; std::vector<std::pair<int, Ptr<EventHandler>>> hs, gone; int next = 0;
		int n = rnd(1, 12); bool usedStatic = false, usedMember = false;
		for (int i = 0; i < n; i++)
		{
			int op = rnd(0, 5);
			if (op <= 2)
			{
				int id = next++; Ptr<EventHandler> h;
				if (op == 1 && !usedStatic) { id = -1; usedStatic = true; h = e->Add(&stat); }
				else if (op == 2 && !usedMember) { id = objs[0].id; usedMember = true; h = e->Add(&objs[0], &C::me); }
				else { Func<void(Arg, long&)> f{ Ha(id) }; h = e->Add(f); }
				log(S("Add handler ", id));
				check(h && h->IsAttached(), "Add: returned handler is not attached");
				for (auto& x : hs) check(x.second.Obj() != h.Obj(), "Add: returned handler is not new");
				hs.push_back({ id, h });
			}
			else if (op == 3 && hs.size())
			{
				int k = rnd(0, (long)hs.size() - 1); log(S("Remove handler ", hs[k].first));
				check(!other.Remove(hs[k].second), "Remove: handler of another event");
				check(hs[k].second->IsAttached(), "Remove: handler of another event detached");
				check(e->Remove(hs[k].second), "Remove: attached handler not removed");
				check(!hs[k].second->IsAttached(), "Remove: handler still attached");
				gone.push_back(hs[k]); hs.erase(hs.begin() + k);
			}
			else if (op == 4 && gone.size())
			{
				log("Remove again"); check(!e->Remove(gone[rnd(0, (long)gone.size() - 1)].second), "Remove: removed handler removed again");
			}
			else if (op == 5) { log("Remove null"); check(!e->Remove(Ptr<EventHandler>()), "Remove of null"); }
			for (auto& x : hs) check(x.second->IsAttached(), "handler not attached");
			long a = rnd(-5, 5), b = 0; calls.clear(); Arg x(a); bool mv = rnd(0, 1);
			log(S("call with ", mv ? "rvalue" : "lvalue", " ", a));
			if (mv) (*e)(Arg(a), b); else (*e)(x, b);
			check(val(x) == a, "call changed the caller's argument");
			check(calls.size() == hs.size() && b == (long)hs.size(), S("call: ", calls.size(), " handlers called, ", hs.size(), " attached"));
			for (auto& h : hs)
			{
				int c = 0; for (auto& k : calls) if (k.who == h.first) { c++; check(k.a == a, S("handler ", h.first, " received ", k.a, ", expected ", a)); }
				check(c == 1, S("handler ", h.first, " called ", c, " times"));
			}
		}
		if (rnd(0, 1)) { hs.clear(); delete e; gone.clear(); } else { delete e; }
	}
	leakcheck("handlers");
}
int main(int argc, char** argv)
{
	init(argc, argv);
	while (more()) { trace.clear(); if (rnd(0, 1)) funcs(); else events(); }
	return 0;
}
