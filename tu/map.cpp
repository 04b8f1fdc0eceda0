#include <Collections/Dictionary.h>
#include "common.h"
using namespace vl; using namespace vl::collections;
typedef Dictionary<E, F> DI; typedef Group<E, F> GR;
typedef SortedList<E> KL; typedef List<F> VL; typedef List<List<F>*> PL;
#define LISTOBJ(id) OBJ(id, id) MK(id, id) FIELD(id, buffer, id) FIELD(id, count, id) FIELD(id, capacity, id)
LISTOBJ(KL) LISTOBJ(VL) LISTOBJ(PL)
OBJ(DI, DI) MK(DI, DI) FIELD(DI, keys, DI) FIELD(DI, values, DI)
OBJ(GR, GR) MK(GR, GR) FIELD(GR, keys, GR) FIELD(GR, values, GR)
typedef Pair<E, F> PR;
OBJ(PR, PR) FIELD(PR, key, PR) FIELD(PR, value, PR)
API(vint, DI_Count, (const DI* d), d->Count())
API(const KL*, DI_Keys, (const DI* d), &d->Keys())
API(const VL*, DI_Values, (const DI* d), &d->Values())
API(const F*, DI_Get, (const DI* d, const E* k), &d->Get(*k))
API(const F*, DI_at, (const DI* d, const E* k), &(*d)[*k])
API(bool, DI_Set_cc, (DI* d, const E* k, const F* v), d->Set(*k, *v))
API(bool, DI_Set_cm, (DI* d, const E* k, F* v), d->Set(*k, std::move(*v)))
API(bool, DI_Set_mc, (DI* d, E* k, const F* v), d->Set(std::move(*k), *v))
API(bool, DI_Set_mm, (DI* d, E* k, F* v), d->Set(std::move(*k), std::move(*v)))
API(bool, DI_Add_cc, (DI* d, const E* k, const F* v), d->Add(*k, *v))
API(bool, DI_Add_cm, (DI* d, const E* k, F* v), d->Add(*k, std::move(*v)))
API(bool, DI_Add_mc, (DI* d, E* k, const F* v), d->Add(std::move(*k), *v))
API(bool, DI_Add_mm, (DI* d, E* k, F* v), d->Add(std::move(*k), std::move(*v)))
API(bool, DI_Add_pc, (DI* d, const PR* p), d->Add(*p))
API(bool, DI_Add_pm, (DI* d, PR* p), d->Add(std::move(*p)))
API(bool, DI_Remove, (DI* d, const E* k), d->Remove(*k))
API(bool, DI_Clear, (DI* d), d->Clear())
API(void, DI_mctor, (DI* d, DI* s), (void)new(d) DI(std::move(*s)))
API(void, DI_massign, (DI* d, DI* s), (void)(*d = std::move(*s)))
API(void, DI_dtor, (DI* d), d->~DI())
API(vint, GR_Count, (const GR* d), d->Count())
API(const KL*, GR_Keys, (const GR* d), &d->Keys())
API(const VL*, GR_Get, (const GR* d, const E* k), &d->Get(*k))
API(const VL*, GR_at, (const GR* d, const E* k), &(*d)[*k])
API(const VL*, GR_GetByIndex, (const GR* d, vint i), &d->GetByIndex(i))
API(bool, GR_Contains, (const GR* d, const E* k), d->Contains(*k))
API(bool, GR_Contains2, (const GR* d, const E* k, const F* v), d->Contains(*k, *v))
API(bool, GR_Add_cc, (GR* d, const E* k, const F* v), d->Add(*k, *v))
API(bool, GR_Add_cm, (GR* d, const E* k, F* v), d->Add(*k, std::move(*v)))
API(bool, GR_Add_mc, (GR* d, E* k, const F* v), d->Add(std::move(*k), *v))
API(bool, GR_Add_mm, (GR* d, E* k, F* v), d->Add(std::move(*k), std::move(*v)))
API(bool, GR_Add_pc, (GR* d, const PR* p), d->Add(*p))
API(bool, GR_Add_pm, (GR* d, PR* p), d->Add(std::move(*p)))
API(bool, GR_Remove, (GR* d, const E* k), d->Remove(*k))
API(bool, GR_Remove2, (GR* d, const E* k, const F* v), d->Remove(*k, *v))
API(bool, GR_Clear, (GR* d), d->Clear())
API(void, GR_mctor, (GR* d, GR* s), (void)new(d) GR(std::move(*s)))
API(void, GR_massign, (GR* d, GR* s), (void)(*d = std::move(*s)))
API(void, GR_dtor, (GR* d), d->~GR())
