#include <Primitives/Pointer.h>
#include "common.h"
using namespace vl;
struct Other { long pad = 0; virtual ~Other() {} };
struct Base { E e; Ptr<Base> next; virtual ~Base() {} };
struct Derived : Other, Base { F f; };
struct Other2 { long pad = 0; virtual void f() {} };
struct Base2 { E e; virtual void g() {} };
struct Derived2 : Other2, Base2 { F f2; };      // no virtual destructor: only the exact original type can destroy it
struct Com { E e; ComPtr<Com> next; void Release() noexcept; };
inline int sgn(std::strong_ordering r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
extern "C" Base* new_Base() { return new Base(); }
extern "C" Derived* new_Derived() { return new Derived(); }
extern "C" Base* up(Derived* d) { return d; }
extern "C" Base2* new_Base2() { return new Base2(); }
extern "C" Derived2* new_Derived2() { return new Derived2(); }
extern "C" Base2* up2(Derived2* d) { return d; }
extern "C" Com* new_Com() { return new Com(); }
extern "C" void com_delete(Com* c) { delete c; }
extern "C" Ptr<Base>* next_Base(Base* b) { return &b->next; }
extern "C" ComPtr<Com>* next_Com(Com* b) { return &b->next; }
#define PTR(id, P, T) \
	OBJ(id, P<T>) MK(id, P<T>) \
	API(void, id##_ctor, (P<T>* o), (void)new(o) P<T>()) \
	API(void, id##_nctor, (P<T>* o), (void)new(o) P<T>(nullptr)) \
	API(void, id##_pctor, (P<T>* o, T* p), (void)new(o) P<T>(p)) \
	API(void, id##_cctor, (P<T>* o, const P<T>* p), (void)new(o) P<T>(*p)) \
	API(void, id##_mctor, (P<T>* o, P<T>* p), (void)new(o) P<T>(std::move(*p))) \
	API(void, id##_dtor, (P<T>* o), o->~P<T>()) \
	API(void, id##_nassign, (P<T>* o), (void)(*o = nullptr)) \
	API(void, id##_cassign, (P<T>* o, const P<T>* p), (void)(*o = *p)) \
	API(void, id##_massign, (P<T>* o, P<T>* p), (void)(*o = std::move(*p))) \
	API(int, id##_cmp, (const P<T>* o, const P<T>* p), sgn(*o <=> *p)) \
	API(int, id##_cmpp, (const P<T>* o, const T* p), sgn(*o <=> p)) \
	API(bool, id##_eq, (const P<T>* o, const P<T>* p), *o == *p) \
	API(bool, id##_eqp, (const P<T>* o, const T* p), *o == p) \
	API(bool, id##_bool, (const P<T>* o), (bool)*o) \
	API(T*, id##_Obj, (const P<T>* o), o->Obj()) \
	API(T*, id##_arrow, (const P<T>* o), o->operator->()) \
	API(T*, id##_key, (const P<T>* o), KeyType<P<T>>::GetKeyValue(*o))
PTR(B, Ptr, Base)
PTR(D, Ptr, Derived)
PTR(G, Ptr, Base2)
PTR(K, Ptr, Derived2)
PTR(C, ComPtr, Com)
API(void, C_passign, (ComPtr<Com>* o, Com* p), (void)(*o = p))
API(Base*, B_Detach, (Ptr<Base>* o), o->Detach())
API(Derived*, D_Detach, (Ptr<Derived>* o), o->Detach())
API(void, B_fromDc, (Ptr<Base>* o, const Ptr<Derived>* p), (void)new(o) Ptr<Base>(*p))
API(void, B_fromDm, (Ptr<Base>* o, Ptr<Derived>* p), (void)new(o) Ptr<Base>(std::move(*p)))
API(void, D_cast, (Ptr<Derived>* o, const Ptr<Base>* p), (void)new(o) Ptr<Derived>(p->Cast<Derived>()))
API(Base2*, G_Detach, (Ptr<Base2>* o), o->Detach())
API(Derived2*, K_Detach, (Ptr<Derived2>* o), o->Detach())
API(void, G_fromKc, (Ptr<Base2>* o, const Ptr<Derived2>* p), (void)new(o) Ptr<Base2>(*p))
API(void, G_fromKm, (Ptr<Base2>* o, Ptr<Derived2>* p), (void)new(o) Ptr<Base2>(std::move(*p)))
API(void, K_cast, (Ptr<Derived2>* o, const Ptr<Base2>* p), (void)new(o) Ptr<Derived2>(p->Cast<Derived2>()))
API(void, B_castup, (Ptr<Base>* o, const Ptr<Derived>* p), (void)new(o) Ptr<Base>(p->Cast<Base>()))
API(void, G_castup, (Ptr<Base2>* o, const Ptr<Derived2>* p), (void)new(o) Ptr<Base2>(p->Cast<Base2>()))
