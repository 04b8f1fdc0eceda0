// C11: random histories of Ptr / ComPtr against explicit ownership sets
// SOURCES: Basic.cpp
#include <Primitives/Pointer.h>
#include "drv.h"
#include <thread>
using namespace vl; using namespace drv;
static std::map<const void*, int> liveObj; static int made, dead;
struct Other { long pad = 5; virtual void f() {} };
struct Base { int id; Base() { id = made++; liveObj[this] = id; } virtual void g() {} ~Base() { if (!liveObj.count(this)) fail("object destroyed twice"); liveObj.erase(this); dead++; } };
struct Derived : Other, Base { long x = 7; };
struct Com { int id; Com() { id = made++; liveObj[this] = id; } void Release() { if (!liveObj.count(this)) fail("object released twice"); liveObj.erase(this); dead++; delete this; } };
template<typename T> bool alive(T* p) { return liveObj.count((const void*)p); }

static void ptrs()
{
	trace.clear();
	{
		const int N = 5;
		Ptr<Base> b[N]; Ptr<Derived> d[N]; Base* mb[N] = {}; Derived* md[N] = {};
		std::vector<Base*> loose;
		for (int step = 0; step < 60; step++)
		{
			int i = rnd(0, N - 1), j = rnd(0, N - 1);
			switch (rnd() % 16)
			{
			case 0: log(S("b", i, " = Ptr(new Base)")); b[i] = Ptr<Base>(mb[i] = new Base); break;
			case 1: log(S("d", i, " = Ptr(new Derived)")); d[i] = Ptr<Derived>(md[i] = new Derived); break;
			case 2: log(S("b", i, " = b", j)); b[i] = b[j]; mb[i] = mb[j]; break;
			case 3: log(S("b", i, " = move(b", j, ")")); b[i] = std::move(b[j]); if (i != j) { mb[i] = mb[j]; mb[j] = nullptr; } break;
			case 4: log(S("b", i, " = d", j)); b[i] = d[j]; mb[i] = md[j]; break;
			case 5: log(S("b", i, " = move(d", j, ")")); b[i] = std::move(d[j]); mb[i] = md[j]; md[j] = nullptr; break;
			case 6: log(S("d", i, " = b", j, ".Cast")); d[i] = b[j].Cast<Derived>(); md[i] = dynamic_cast<Derived*>(mb[j]); break;
			case 7: log(S("b", i, " = nullptr")); b[i] = nullptr; mb[i] = nullptr; break;
			case 8: log(S("d", i, " = nullptr")); d[i] = nullptr; md[i] = nullptr; break;
			case 9: { log(S("Ptr x(b", i, "); b", i, "=x")); Ptr<Base> x(b[i]); Ptr<Base> y(std::move(x)); check(!x, "moved-from pointer is not empty"); b[j] = y; mb[j] = mb[i]; break; }
			case 10: { log(S("d", i, " = d", j)); d[i] = d[j]; md[i] = md[j]; break; }
			case 11: { log(S("d", i, " = move(d", j, ")")); d[i] = std::move(d[j]); if (i != j) { md[i] = md[j]; md[j] = nullptr; } break; }
			case 12: { if (rnd() % 4) break; log(S("b", i, ".Detach()")); Base* o = mb[i]; check(b[i].Detach() == o, "Detach: result"); mb[i] = nullptr; if (o) { bool other = false; for (int k = 0; k < N; k++) if (mb[k] == o || md[k] == o) other = true; if (!other) loose.push_back(o); } break; }
			case 15: { log(S("b", i, " = d", j, ".Cast<Other>().Cast<Base>()")); Ptr<Other> x = d[j].Cast<Other>(); d[j] = nullptr; b[i] = x.Cast<Base>(); mb[i] = md[j]; md[j] = nullptr; break; }
			case 13: { check((b[i] == b[j]) == (mb[i] == mb[j]), "=="); check((b[i] == mb[j]) == (mb[i] == mb[j]), "== raw"); check((b[i] < b[j]) == (mb[i] < mb[j]) && (b[i] > mb[j]) == (mb[i] > mb[j]), "order"); break; }
			case 14: { Ptr<Base> e((Base*)nullptr); check(!e, "null"); e = b[i]; Ptr<Base> f(nullptr); f = e; f = f; f = std::move(e); check(f.Obj() == mb[i], "copy chain"); break; }
			}
			std::set<int> owned;
			for (int k = 0; k < N; k++)
			{
				check(b[k].Obj() == mb[k] && d[k].Obj() == md[k] && (bool)b[k] == (mb[k] != nullptr) && b[k].operator->() == mb[k], S("pointer ", k, " refers to another object"));
				if (mb[k]) { check(alive((Base*)mb[k]), "referenced object was destroyed"); owned.insert(mb[k]->id); }
				if (md[k]) { check(alive((Base*)md[k]), "referenced object was destroyed"); owned.insert(md[k]->id); check(md[k]->x == 7 && md[k]->pad == 5, "object damaged"); }
			}
			for (auto o : loose) { check(alive(o), "detached object was destroyed"); owned.insert(o->id); }
			check(owned.size() == liveObj.size(), "an object without references was not destroyed");
		}
		for (auto o : loose) if (auto x = dynamic_cast<Derived*>(o)) delete x; else delete o;
	}
	check(liveObj.empty(), "objects not destroyed when the last pointer went away");
}
static void coms()
{
	trace.clear();
	{
		const int N = 5; ComPtr<Com> b[N]; Com* mb[N] = {};
		for (int step = 0; step < 60; step++)
		{
			int i = rnd(0, N - 1), j = rnd(0, N - 1);
			switch (rnd() % 8)
			{
			case 0: log(S("c", i, " = ComPtr(new)")); b[i] = ComPtr<Com>(mb[i] = new Com); break;
			case 1: log(S("c", i, " = raw new")); b[i] = (mb[i] = new Com); break;
			case 2: log(S("c", i, " = c", j)); b[i] = b[j]; mb[i] = mb[j]; break;
			case 3: log(S("c", i, " = move(c", j, ")")); b[i] = std::move(b[j]); if (i != j) { mb[i] = mb[j]; mb[j] = nullptr; } break;
			case 4: log(S("c", i, " = nullptr")); b[i] = nullptr; mb[i] = nullptr; break;
			case 5: { log("copy/move construct"); ComPtr<Com> x(b[i]); ComPtr<Com> y(std::move(x)); check(!x, "moved-from pointer is not empty"); b[j] = y; mb[j] = mb[i]; break; }
			case 6: check((b[i] == b[j]) == (mb[i] == mb[j]) && (b[i] == mb[j]) == (mb[i] == mb[j]) && (b[i] < b[j]) == (mb[i] < mb[j]), "comparison"); break;
			case 7: log(S("c", i, " = (Com*)null")); b[i] = (Com*)nullptr; mb[i] = nullptr; break;
			}
			std::set<int> owned;
			for (int k = 0; k < N; k++) { check(b[k].Obj() == mb[k] && (bool)b[k] == (mb[k] != nullptr) && b[k].operator->() == mb[k], "pointer refers to another object"); if (mb[k]) { check(alive(mb[k]), "referenced object was released"); owned.insert(mb[k]->id); } }
			check(owned.size() == liveObj.size(), "an object without references was not released");
		}
	}
	check(liveObj.empty(), "objects not released when the last pointer went away");
}
struct Node { Ptr<Node> next; int v; Node(int x) :v(x) {} };
struct CNode { ComPtr<CNode> next; int v; CNode(int x) :v(x) {} void Release() { delete this; } };
static std::atomic<int> tdead;
struct TObj { int v = 3; ~TObj() { v = 0; tdead++; } };
// Detach of the last reference leaks its 8-byte counter (listed in known-findings.txt)
extern "C" const char* __lsan_default_suppressions() { return "leak:CreateCounter\n"; }
int main(int argc, char** argv)
{
	init(argc, argv);
	trace.clear(); log("head = head->next over a chain");
	for (int mv = 0; mv < 2; mv++)
	{
		Ptr<Node> h; for (int i = 9; i >= 0; i--) { Ptr<Node> n(new Node(i)); n->next = h; h = n; }
		for (int i = 0; i < 10; i++) { check(h->v == i, "chain"); if (mv) h = std::move(h->next); else h = h->next; }
		check(!h, "chain end");
		ComPtr<CNode> c; for (int i = 9; i >= 0; i--) { ComPtr<CNode> n(new CNode(i)); n->next = c; c = n; }
		for (int i = 0; i < 10; i++) { check(c->v == i, "chain"); if (mv) c = std::move(c->next); else c = c->next; }
		check(!c, "chain end");
	}
	trace.clear(); log("threads copy and drop pointers to one object");
	for (int r = 0; r < 200 && more(0.5); r++)
	{
		Ptr<TObj> p(new TObj); int d0 = tdead;
		std::vector<std::thread> ts;
		for (int t = 0; t < 4; t++) ts.emplace_back([p, d0] { for (int i = 0; i < 2000; i++) { Ptr<TObj> a(p); Ptr<TObj> b; b = a; a = nullptr; if (b->v != 3) fail("object changed"); } });
		for (auto& t : ts) t.join();
		check(tdead == d0, "object destroyed while referenced"); p = nullptr; check(tdead == d0 + 1, "object not destroyed with its last reference");
	}
	{
		// two threads drop the last two references at the same time
		trace.clear(); log("two threads drop the last two pointers to one object at the same time");
		Ptr<TObj> slot; ComPtr<CNode> cslot; std::atomic<int> go{ 0 }, done{ 0 }; std::atomic<bool> stop{ false };
		std::thread t([&] { int r = 0; while (true) { int g; while ((g = go.load()) == r) if (stop) return; r = g; slot = nullptr; done = r; } });
		for (int r = 1; r <= 300000 && more(0.7); r++)
		{
			int d0 = tdead; Ptr<TObj> p(new TObj); slot = p; go = r; for (volatile int k = 0; k < r % 64; k++); p = nullptr;
			while (done.load() != r); check(tdead == d0 + 1, "object not destroyed exactly once with its last reference");
		}
		stop = true; t.join();
	}
	while (more()) { ptrs(); coms(); }
	return 0;
}
