#include <Collections/List.h>
#include "common.h"
using namespace vl; using namespace vl::collections;
struct Val { vint x; };
typedef PushOnlyAllocator<Val> PA; typedef ByteObjectMap<Val> BM; typedef BM::Allocator NA; typedef List<Val*> PL;
OBJ(PL, PL) MK(PL, PL) FIELD(PL, buffer, PL) FIELD(PL, count, PL) FIELD(PL, capacity, PL)
OBJ(PA, PA) FIELD(PA, blockSize, PA) FIELD(PA, allocatedSize, PA) FIELD(PA, blocks, PA)
extern "C" void mk_PA(PA* p) { new(p) PA(1); }
OBJ(BM, BM) MK(BM, BM) FIELD(BM, root, BM)
OBJ(NA, NA) MK(NA, NA)
API(void, PA_mk, (PA* p, vint n), (void)new(p) PA(n))
API(void, PA_mkd, (PA* p), (void)new(p) PA())
API(void, PA_dtor, (PA* p), p->~PA())
API(Val*, PA_Get, (PA* p, vint i), p->Get(i))
API(Val*, PA_Create, (PA* p), p->Create())
API(void, BM_mk, (BM* p), (void)new(p) BM())
API(Val*, BM_Get, (BM* p, unsigned char i), p->Get(i))
API(void, BM_Set, (BM* p, unsigned char i, Val* v, NA* a), p->Set(i, v, *a))
API(void, BM_dtor, (BM* p), p->~BM())
