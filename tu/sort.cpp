#include <Primitives/Nullable.h>
#include <Collections/Operation.h>
#include "common.h"
using namespace vl; using namespace vl::collections;
// opaque comparers: weak order given by a key, or partial (some pairs unordered)
struct ORDW { F state; std::weak_ordering operator()(const E&, const E&) const noexcept; };
struct ORDP { F state; std::partial_ordering operator()(const E&, const E&) const noexcept; };
OBJ(ORDW, ORDW) OBJ(ORDP, ORDP)
API(void, SortSelf, (E* p, vint n), Sort(p, n))
API(void, SortW, (E* p, vint n, const ORDW* f), Sort(p, n, *f))
API(void, SortP, (E* p, vint n, const ORDP* f), Sort(p, n, *f))
API(void, SortLW, (E* p, vint n, ORDW* f), SortLambda(p, n, *f))
