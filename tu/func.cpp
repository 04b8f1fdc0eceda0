#include <Primitives/Function.h>
#include <Primitives/Event.h>
#include "common.h"
using namespace vl; using namespace vl::collections;
// opaque callables: known only by their contract (record the call, return an arbitrary value)
long sf(E, long) noexcept; void sv(const E&, long&) noexcept;
struct C { long pad; long mf(E, long) noexcept; void mv(const E&, long&) noexcept; };
struct FO { F state; long operator()(E, long) const noexcept; };
struct FV { F state; void operator()(const E&, long&) const noexcept; };
struct GO { F state; int operator()(const E&, long) const noexcept; };      // callable with converted arguments and result
typedef Func<long(E, long)> FN; typedef Func<void(const E&, long&)> FR; typedef Func<int(const E&, long)> FG;
OBJ(FN, FN) OBJ(FR, FR) OBJ(FG, FG) OBJ(FO, FO) OBJ(FV, FV) OBJ(GO, GO) OBJ(C, C)
FIELD(FO, state, FO) FIELD(FV, state, FV) FIELD(GO, state, GO)
#define FUNC(id, T, FOBJ) \
	API(void, id##_ctor, (T* o), (void)new(o) T()) \
	API(void, id##_cctor, (T* o, const T* s), (void)new(o) T(*s)) \
	API(void, id##_mctor, (T* o, T* s), (void)new(o) T(std::move(*s))) \
	API(void, id##_dtor, (T* o), o->~T()) \
	API(T*, id##_cassign, (T* o, const T* s), &(*o = *s)) \
	API(T*, id##_massign, (T* o, T* s), &(*o = std::move(*s))) \
	API(bool, id##_bool, (const T* o), (bool)*o) \
	API(bool, id##_eq, (const T* a, const T* b), *a == *b) \
	API(bool, id##_ne, (const T* a, const T* b), *a != *b) \
	API(void, id##_objc, (T* o, const FOBJ* f), (void)new(o) T(*f)) \
	API(void, id##_objm, (T* o, FOBJ* f), (void)new(o) T(std::move(*f)))
FUNC(FN, FN, FO) FUNC(FR, FR, FV) FUNC(FG, FG, GO)
API(void, FN_static, (FN* o), (void)new(o) FN(&sf))
API(void, FR_static, (FR* o), (void)new(o) FR(&sv))
API(void, FN_member, (FN* o, C* c), (void)new(o) FN(c, &C::mf))
API(void, FR_member, (FR* o, C* c), (void)new(o) FR(c, &C::mv))
API(void, FN_conv, (FN* o, const FG* s), (void)new(o) FN(*s))
API(void, FN_convm, (FN* o, FG* s), (void)new(o) FN(std::move(*s)))
API(void, FN_convl, (FN* o, FG* s), (void)new(o) FN(*s))
API(void, FN_objg, (FN* o, const GO* f), (void)new(o) FN(*f))
API(long, FN_call, (const FN* o, const E* a, long b), (*o)(*a, b))
API(long, FN_callm, (const FN* o, E* a, long b), (*o)(std::move(*a), b))
API(void, FR_call, (const FR* o, const E* a, long* b), (*o)(*a, *b))
API(int, FG_call, (const FG* o, const E* a, long b), (*o)(*a, b))
// Event
typedef Event<void(E, long&)> EV; typedef Func<void(E, long&)> FE;
typedef EV::EventHandlerImpl EI;
typedef Ptr<EI> PI; typedef Ptr<EventHandler> PH; typedef SortedList<PI> HL;
struct FQ { F state; void operator()(E, long&) const noexcept; };
OBJ(FQ, FQ) FIELD(FQ, state, FQ)
OBJ(FE, FE) OBJ(EV, EV) MK(EV, EV) FIELD(EV, handlers, EV) OBJ(EI, EI) FIELD(EI, attached, EI) FIELD(EI, function, EI) FIELD(FE, invoker, FE)
OBJ(PI, PI) OBJ(PH, PH) OBJ(HL, HL) MK(HL, HL) FIELD(HL, buffer, HL) FIELD(HL, count, HL) FIELD(HL, capacity, HL)
FIELD(PI, reference, PI) FIELD(PI, counter, PI)
FUNC(FE, FE, FQ)
void se(E, long&) noexcept; struct CE { long pad; void me(E, long&) noexcept; };
OBJ(CE, CE)
API(void, EV_Add, (PH* r, EV* e, const FE* f), (void)new(r) PH(e->Add(*f)))
API(void, EV_AddStatic, (PH* r, EV* e), (void)new(r) PH(e->Add(&se)))
API(void, EV_AddMember, (PH* r, EV* e, CE* c), (void)new(r) PH(e->Add(c, &CE::me)))
API(bool, EV_Remove, (EV* e, const PH* h), e->Remove(*h))
API(void, EV_call, (const EV* e, const E* a, long* b), (*e)(*a, *b))
API(void, EV_callm, (const EV* e, E* a, long* b), (*e)(std::move(*a), *b))
API(bool, PH_IsAttached, (const PH* h), (*h)->IsAttached())
API(EventHandler*, PH_Obj, (const PH* h), h->Obj())
API(void, PH_dtor, (PH* h), h->~PH())
API(void, PI_dtor, (PI* h), h->~PI())
API(void, PI_cctor, (PI* h, const PI* s), (void)new(h) PI(*s))
API(void, PI_new, (PI* h, const FE* f), (void)new(h) PI(Ptr(new EI(*f))))
API(void, PH_up, (PH* h, const PI* s), (void)new(h) PH(*s))
extern "C" EventHandler* up_EI(EI* e) { return e; }
API(void, FE_call, (const FE* o, const E* a, long* b), (*o)(*a, *b))
struct OtherHandler : EventHandler { bool IsAttached()override { return true; } };
typedef Ptr<OtherHandler> PO;
extern "C" void api_PH_other(PH* h) { new(h) PH(Ptr(new OtherHandler)); }
extern "C" void api_PH_null(PH* h) { new(h) PH(); }
