#include <Primitives/Variant.h>
#include <Primitives/Nullable.h>
#include "common.h"
using namespace vl;
// not assignable: Nullable has to destroy and construct
struct N { long v; N(const N&)noexcept; N(N&&)noexcept; ~N()noexcept; N& operator=(const N&) = delete; N& operator=(N&&) = delete; };
inline int sgn(std::strong_ordering r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
typedef Variant<E, F, long> VA;
typedef Nullable<E> NE; typedef Nullable<long> NL; typedef Nullable<N> NN;
OBJ(VA, VA) FIELD(VA, index, VA) FIELD(VA, buffer, VA)
OBJ(NE, NE) FIELD(NE, object, NE) FIELD(NE, initialized, NE)
OBJ(NL, NL) FIELD(NL, object, NL) FIELD(NL, initialized, NL)
OBJ(NN, NN) FIELD(NN, object, NN) FIELD(NN, initialized, NN)
struct CB { void operator()(E&)const; void operator()(F&)const; void operator()(long&)const; };
struct CC { void operator()(const E&)const; void operator()(const F&)const; void operator()(const long&)const; };
struct CF { void operator()(F&)const; };
struct CFC { void operator()(const F&)const; };
API(void, VA_ctor, (VA* o), (void)new(o) VA())
API(void, VA_cctor, (VA* o, const VA* s), (void)new(o) VA(*s))
API(void, VA_mctor, (VA* o, VA* s), (void)new(o) VA(std::move(*s)))
API(void, VA_dtor, (VA* o), o->~VA())
API(VA*, VA_cassign, (VA* o, const VA* s), &(*o = *s))
API(VA*, VA_massign, (VA* o, VA* s), &(*o = std::move(*s)))
API(vint, VA_Index, (const VA* o), o->Index())
API(void, VA_Apply, (VA* o, const CB* c), o->Apply(*c))
API(void, VA_ApplyC, (const VA* o, const CC* c), o->Apply(*c))
API(bool, VA_TryApply, (VA* o, const CF* c), o->TryApply(*c))
API(bool, VA_TryApplyC, (const VA* o, const CFC* c), o->TryApply(*c))
#define EL(k, T) \
	API(void, VA_c##k, (VA* o, const T* s), (void)new(o) VA(*s)) \
	API(void, VA_m##k, (VA* o, T* s), (void)new(o) VA(std::move(*s))) \
	API(void, VA_ci##k, (VA* o, const T* s), (void)new(o) VA(VariantIndex<k>(), *s)) \
	API(void, VA_mi##k, (VA* o, T* s), (void)new(o) VA(VariantIndex<k>(), std::move(*s))) \
	API(VA*, VA_ac##k, (VA* o, const T* s), &(*o = *s)) \
	API(VA*, VA_am##k, (VA* o, T* s), &(*o = std::move(*s))) \
	API(VA*, VA_sc##k, (VA* o, const T* s), &o->Set(VariantIndex<k>(), *s)) \
	API(VA*, VA_sm##k, (VA* o, T* s), &o->Set(VariantIndex<k>(), std::move(*s))) \
	API(T*, VA_get##k, (VA* o), &o->Get<T>()) \
	extern "C" T* api_VA_getm##k(VA* o) { T&& r = std::move(*o).Get<T>(); return &r; } \
	API(const T*, VA_getc##k, (const VA* o), &o->Get<T>()) \
	API(T*, VA_try##k, (VA* o), o->TryGet<T>()) \
	API(const T*, VA_tryc##k, (const VA* o), o->TryGet<T>())
EL(0, E) EL(1, F) EL(2, long)
#define NU(id, P, T) \
	API(void, id##_ctor, (P* o), (void)new(o) P()) \
	API(void, id##_c, (P* o, const T* s), (void)new(o) P(*s)) \
	API(void, id##_m, (P* o, T* s), (void)new(o) P(std::move(*s))) \
	API(void, id##_cctor, (P* o, const P* s), (void)new(o) P(*s)) \
	API(void, id##_mctor, (P* o, P* s), (void)new(o) P(std::move(*s))) \
	API(void, id##_dtor, (P* o), o->~P()) \
	API(void, id##_Reset, (P* o), o->Reset()) \
	API(P*, id##_ac, (P* o, const T* s), &(*o = *s)) \
	API(P*, id##_am, (P* o, T* s), &(*o = std::move(*s))) \
	API(P*, id##_cassign, (P* o, const P* s), &(*o = *s)) \
	API(P*, id##_massign, (P* o, P* s), &(*o = std::move(*s))) \
	API(bool, id##_bool, (const P* o), (bool)*o) \
	API(const T*, id##_Value, (const P* o), &o->Value())
NU(NE, NE, E) NU(NL, NL, long) NU(NN, NN, N)
#define NC(id, P) API(int, id##_cmp, (const P* a, const P* b), sgn(*a <=> *b)) API(bool, id##_eq, (const P* a, const P* b), *a == *b) API(bool, id##_lt, (const P* a, const P* b), *a < *b)
NC(NE, NE) NC(NL, NL)
