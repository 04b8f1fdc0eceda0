#include <Primitives/Tuple.h>
#include <Collections/Pair.h>
#include "common.h"
using namespace vl; using namespace vl::collections;
template<typename O> int sgn(O r) { return r < 0 ? -1 : r > 0 ? 1 : r == 0 ? 0 : 2; }
// partially ordered components
struct Q { long v; bool operator==(const Q&)const noexcept; std::partial_ordering operator<=>(const Q&)const noexcept; };
typedef Pair<Q, E> PQ; typedef Pair<E, Q> PE; typedef Tuple<Q, E> TQ; typedef Tuple<E, Q> TE; typedef Tuple<Q, Q, long> TQQ;
typedef Pair<E, F> PR; typedef Pair<E, long> PL; typedef Pair<E, int> PI;
typedef Tuple<E, F, long> T3; typedef Tuple<E, F, int> T3i; typedef Tuple<E&, F&, long&> T3r;
template<vint I, typename T> struct AtT { static auto& at(T& t) { return t.template get<I>(); } };
#define SL(id, k, ...) extern "C" void* slot_##id##_##k(__VA_ARGS__* t) { return (void*)&t->template get<k>(); }
OBJ(PR, PR) FIELD(PR, key, PR) FIELD(PR, value, PR)
OBJ(PL, PL) FIELD(PL, key, PL) FIELD(PL, value, PL)
OBJ(PI, PI) FIELD(PI, key, PI) FIELD(PI, value, PI)
OBJ(T3, T3) OBJ(T3i, T3i) OBJ(T3r, T3r)
#define SLOTS3(id, T) SL(id, 0, T) SL(id, 1, T) SL(id, 2, T)
SLOTS3(T3, T3) SLOTS3(T3i, T3i)
#define SLOTS2(id, T) SL(id, 0, T) SL(id, 1, T)
SLOTS2(PR, PR) SLOTS2(PL, PL) SLOTS2(PI, PI)
#define COMMON(id, T) \
	API(void, id##_ctor, (T* o), (void)new(o) T()) \
	API(void, id##_cctor, (T* o, const T* s), (void)new(o) T(*s)) \
	API(void, id##_mctor, (T* o, T* s), (void)new(o) T(std::move(*s))) \
	API(T*, id##_cassign, (T* o, const T* s), &(*o = *s)) \
	API(T*, id##_massign, (T* o, T* s), &(*o = std::move(*s))) \
	API(void, id##_dtor, (T* o), o->~T()) \
	API(int, id##_cmp, (const T* a, const T* b), sgn(*a <=> *b)) \
	API(bool, id##_lt, (const T* a, const T* b), *a < *b) \
	API(bool, id##_ge, (const T* a, const T* b), *a >= *b) \
	API(bool, id##_eq, (const T* a, const T* b), *a == *b) \
	API(bool, id##_ne, (const T* a, const T* b), *a != *b)
#define ORDER(id, T) \
	API(int, id##_cmp, (const T* a, const T* b), sgn(*a <=> *b)) \
	API(bool, id##_lt, (const T* a, const T* b), *a < *b) \
	API(bool, id##_ge, (const T* a, const T* b), *a >= *b) \
	API(bool, id##_eq, (const T* a, const T* b), *a == *b) \
	API(bool, id##_ne, (const T* a, const T* b), *a != *b)
OBJ(PQ, PQ) OBJ(PE, PE) OBJ(TQ, TQ) OBJ(TE, TE) OBJ(TQQ, TQQ)
ORDER(PQ, PQ) ORDER(PE, PE) ORDER(TQ, TQ) ORDER(TE, TE) ORDER(TQQ, TQQ)
SLOTS2(PQ, PQ) SLOTS2(PE, PE) SLOTS2(TQ, TQ) SLOTS2(TE, TE) SLOTS3(TQQ, TQQ)
COMMON(PR, PR) COMMON(PL, PL) COMMON(T3, T3)
#define CONV(id, T, S) \
	API(void, id##_cvc, (T* o, const S* s), (void)new(o) T(*s)) \
	API(void, id##_cvm, (T* o, S* s), (void)new(o) T(std::move(*s))) \
	API(int, id##_xcmp, (const T* a, const S* b), sgn(*a <=> *b)) \
	API(bool, id##_xeq, (const T* a, const S* b), *a == *b)
CONV(PL, PL, PI) CONV(T3, T3, T3i)
API(T3*, T3_xcassign, (T3* o, const T3i* s), &(*o = *s))
API(T3*, T3_xmassign, (T3* o, T3i* s), &(*o = std::move(*s)))
API(void, PR_c, (PR* o, const E* a, const F* b), (void)new(o) PR(*a, *b))
API(void, PR_m, (PR* o, E* a, F* b), (void)new(o) PR(std::move(*a), std::move(*b)))
API(void, T3_c, (T3* o, const E* a, const F* b, const long* c), (void)new(o) T3(*a, *b, *c))
API(void, T3_m, (T3* o, E* a, F* b, long* c), (void)new(o) T3(std::move(*a), std::move(*b), std::move(*c)))
API(const E*, T3_cget0, (const T3* t), &t->get<0>()) API(const F*, T3_cget1, (const T3* t), &t->get<1>()) API(const long*, T3_cget2, (const T3* t), &t->get<2>())
API(E*, T3_get0, (T3* t), &t->get<0>()) API(F*, T3_get1, (T3* t), &t->get<1>()) API(long*, T3_get2, (T3* t), &t->get<2>())
API(E*, T3_fget0, (T3* t), &vl::get<0>(*t)) API(F*, T3_fget1, (T3* t), &vl::get<1>(*t)) API(long*, T3_fget2, (T3* t), &vl::get<2>(*t))
API(const E*, T3_fcget0, (const T3* t), &vl::get<0>(*t)) API(const F*, T3_fcget1, (const T3* t), &vl::get<1>(*t)) API(const long*, T3_fcget2, (const T3* t), &vl::get<2>(*t))
API(const E*, PR_cget0, (const PR* t), &t->get<0>()) API(const F*, PR_cget1, (const PR* t), &t->get<1>())
API(E*, PR_get0, (PR* t), &t->get<0>()) API(F*, PR_get1, (PR* t), &t->get<1>())
// tuples of references: refer to the objects they were built from
extern "C" void api_T3r_refs(E* a, F* b, long* c, void** out)
{
	T3r t(*a, *b, *c);
	out[0] = &t.get<0>(); out[1] = &t.get<1>(); out[2] = &t.get<2>();
}
extern "C" bool api_T3r_eq(E* a, F* b, long* c, E* d, F* e, long* f) { T3r x(*a, *b, *c), y(*d, *e, *f); return x == y; }
extern "C" void api_PR_bind(PR* p, void** out) { auto& [a, b] = *p; out[0] = &a; out[1] = &b; }
extern "C" void api_T3_bind(T3* p, void** out) { auto& [a, b, c] = *p; out[0] = &a; out[1] = &b; out[2] = &c; }
