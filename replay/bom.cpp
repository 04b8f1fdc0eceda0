// C22: ByteObjectMap and PushOnlyAllocator against reference maps
// SOURCES: Basic.cpp
#include <Collections/List.h>
#include "drv.h"
#include <vector>
#include <set>
using namespace vl; using namespace vl::collections; using namespace drv;
static long alive_ = 0; struct Cnt { long v; Cnt() :v(0) { alive_++; } ~Cnt() { alive_--; } };
template<typename T> static void allocator(long bs, long n, bool def)
{
	log(S("PushOnlyAllocator with blocks of ", def ? 65536 : bs));
	PushOnlyAllocator<T>* a = def ? new PushOnlyAllocator<T>() : new PushOnlyAllocator<T>(bs); std::vector<T*> v; std::set<T*> seen;
	check(a->Get(0) == nullptr, "Get(0) without objects");
	for (long i = 0; i < n; i++)
	{
		T* p = a->Create(); check(p != nullptr, "Create returned null"); 
		if (!seen.insert(p).second) fail(S("Create returned the object ", i, " again"));
		*(long*)p = i * 7 + 1; v.push_back(p);
		check(a->Get(i + 1) == nullptr, S("Get(", i + 1, ") after ", i + 1, " objects")); check(a->Get(i + bs) == nullptr, S("Get(", i + bs, ") after ", i + 1, " objects"));
		long j = rnd(0, i); if (a->Get(j) != v[j]) fail(S("Get(", j, ") is not object ", j, " of ", i + 1));
	}
	for (long i = 0; i < n; i++) { if (a->Get(i) != v[i]) fail(S("Get(", i, ") is not object ", i, " of ", n)); if (*(long*)v[i] != i * 7 + 1) fail(S("content of object ", i, " lost")); }
	delete a; if (alive_ != 0) fail(S("objects leaked or destroyed twice: ", alive_));
}
int main(int argc, char** argv)
{
	init(argc, argv);
	for (long r = 0; r < 100000 && (r < 12 || more()); r++)
	{
		trace.clear();
		if (r == 10) { allocator<long>(65536, 140000, true); continue; }
		long bs = r < 8 ? r + 1 : rnd(1, 300), n = rnd(0, 4) * bs + rnd(0, 2 * bs);
		if (r % 2) allocator<Cnt>(bs, n, false); else allocator<long>(bs, n, false);
		trace.clear();
		ByteObjectMap<long>::Allocator al(rnd(1, 40)); ByteObjectMap<long> m[2]; static long obj[300]; long* ref[2][256] = {};
		auto all = [&](const std::string& w) { for (int q = 0; q < 2; q++) for (int k = 0; k < 256; k++) if (m[q].Get((vuint8_t)k) != ref[q][k]) fail(S("key ", k, " of map ", q, " has the wrong object after ", w)); };
		all("construction");
		long ops = r % 3 == 0 ? 600 : rnd(1, 60);
		for (long i = 0; i < ops; i++)
		{
			int q = (int)rnd(0, 1), k = r % 3 == 0 && i < 512 ? (q = (int)(i / 256), (int)(i % 256)) : (int)rnd(0, 255); long* p = rnd(0, 9) == 0 ? nullptr : &obj[rnd(0, 299)];
			std::string w = S("map ", q, ": Set(", k, p ? ", object)" : ", null)"); log(w);
			m[q].Set((vuint8_t)k, p, al); ref[q][k] = p; all(w);
		}
	}
	return 0;
}
