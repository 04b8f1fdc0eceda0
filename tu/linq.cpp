#include <Primitives/Nullable.h>
#include <Collections/Operation.h>
#include "common.h"
using namespace vl; using namespace vl::collections;
// a source known only by the contract of IEnumerator (vir: specs/linq.py): position -1 .. length over a fixed sequence
template<typename T> struct Abs : public virtual IEnumerator<T>
{
	Abs() noexcept {} IEnumerator<T>* Clone()const override; const T& Current()const override; vint Index()const override; bool Next()override; void Reset()override; bool Evaluated()const override;
};
typedef IEnumerator<E> IE; typedef IEnumerator<F> IF;
template class Abs<E>; template class Abs<F>;
extern "C" IE* api_absE_new() { return new Abs<E>(); }
extern "C" IF* api_absF_new() { return new Abs<F>(); }
struct AbsSrc : public EnumerableBase<E> { AbsSrc() noexcept {} IEnumerator<E>* CreateEnumerator()const override { return api_absE_new(); } };
struct AbsSrcF : public EnumerableBase<F> { AbsSrcF() noexcept {} IEnumerator<F>* CreateEnumerator()const override { return api_absF_new(); } };
OBJ(SrcE, AbsSrc) MK(SrcE, AbsSrc) OBJ(SrcF, AbsSrcF) MK(SrcF, AbsSrcF)
// opaque callables
struct SEL { F state; F operator()(E) const noexcept; };
struct PRD { F state; bool operator()(E) const noexcept; };
struct AGG { F state; E operator()(E, E) const noexcept; };
OBJ(SEL, SEL) OBJ(PRD, PRD) OBJ(AGG, AGG)
typedef Func<F(E)> FS; typedef Func<bool(E)> FP;
OBJ(FS, FS) OBJ(FP, FP)
API(void, FS_mk, (FS* o, const SEL* f), (void)new(o) FS(*f))
API(void, FP_mk, (FP* o, const PRD* f), (void)new(o) FP(*f))
API(void, FS_dtor, (FS* o), o->~FS())
API(void, FP_dtor, (FP* o), o->~FP())
// operations of an enumerator, called through its interface
#define IT(id, T) \
	API(bool, id##_Next, (IEnumerator<T>* p), p->Next()) API(void, id##_Reset, (IEnumerator<T>* p), p->Reset()) API(IEnumerator<T>*, id##_Clone, (const IEnumerator<T>* p), p->Clone()) \
	API(const T*, id##_Current, (const IEnumerator<T>* p), &p->Current()) API(vint, id##_Index, (const IEnumerator<T>* p), p->Index()) API(bool, id##_Evaluated, (const IEnumerator<T>* p), p->Evaluated()) API(void, id##_delete, (IEnumerator<T>* p), delete p)
typedef Pair<E, F> PEF;
IT(IE, E) IT(IF, F) IT(IP, PEF) IT(IL, vint)
FIELD(PEF, key, PEF) FIELD(PEF, value, PEF)
// FLD: field of the object behind the interface pointer (all enumerators inherit the interface virtually)
#define EFLD(id, f, ...) extern "C" const void* fld_##id##_##f(IEnumerator<__VA_ARGS__>* p) { return &((T_##id*)(void*)p)->f; }
typedef SelectEnumerator<E, F> T_sel; typedef WhereEnumerator<E> T_whe; typedef ConcatEnumerator<E> T_con; typedef TakeEnumerator<E> T_tak; typedef SkipEnumerator<E> T_ski; typedef RepeatEnumerator<E> T_rep;
typedef DistinctEnumerator<E> T_dis; typedef ReverseEnumerator<E> T_rev; typedef PairwiseEnumerator<E, F> T_pai; typedef IntersectExceptEnumerator<E, true> T_int; typedef IntersectExceptEnumerator<E, false> T_exc;
typedef EmptyEnumerator<E> T_emp; typedef RangeEnumerator<vint> T_ran; typedef List<E> LE; typedef ContainerEnumerator<E, LE> T_ctn; typedef FromIteratorEnumerable<E, const E*>::Enumerator T_fip;
EFLD(sel, enumerator, F) EFLD(sel, current, F) EFLD(sel, selector, F)
EFLD(whe, enumerator, E) EFLD(whe, index, E) EFLD(whe, selector, E)
EFLD(con, enumerator1, E) EFLD(con, enumerator2, E) EFLD(con, index, E) EFLD(con, turned, E)
EFLD(tak, enumerator, E) EFLD(tak, count, E) EFLD(ski, enumerator, E) EFLD(ski, count, E) EFLD(ski, skipped, E)
EFLD(rep, enumerator, E) EFLD(rep, count, E) EFLD(rep, index, E) EFLD(rep, repeatedCount, E)
EFLD(dis, enumerator, E) EFLD(dis, distinct, E) EFLD(dis, lastValue, E) EFLD(rev, cache, E) EFLD(rev, index, E)
EFLD(pai, enumerator1, PEF) EFLD(pai, enumerator2, PEF) EFLD(pai, current, PEF)
EFLD(int, enumerator, E) EFLD(int, reference, E) EFLD(int, index, E) EFLD(exc, enumerator, E) EFLD(exc, reference, E) EFLD(exc, index, E)
EFLD(ran, current, vint) EFLD(ctn, container, E) EFLD(ctn, index, E) EFLD(fip, current, E)
API(IF*, sel_new, (IE* a, const FS* f), new T_sel(a, *f))
API(IE*, whe_new, (IE* a, const FP* f), new T_whe(a, *f))
API(IE*, con_new, (IE* a, IE* b), new T_con(a, b))
API(IE*, tak_new, (IE* a, vint n), new T_tak(a, n))
API(IE*, ski_new, (IE* a, vint n), new T_ski(a, n))
API(IE*, rep_new, (IE* a, vint n), new T_rep(a, n))
API(IE*, dis_new, (IE* a), new T_dis(a))
API(IE*, rev_new, (const AbsSrc* s), new T_rev(*s))
API(IEnumerator<PEF>*, pai_new, (IE* a, IF* b), new T_pai(a, b))
API(IE*, int_new, (IE* a, const AbsSrc* s), new T_int(a, *s))
API(IE*, exc_new, (IE* a, const AbsSrc* s), new T_exc(a, *s))
API(IE*, emp_new, (), new T_emp())
API(IEnumerator<vint>*, ran_new, (vint s, vint n), new T_ran(s, n))
API(IE*, fip_new, (const E* a, const E* b), FromPointer(a, b).CreateEnumerator())
// poses: give the cached value of an enumerator
API(void, sel_pose, (IF* p, const F* v), (void)(((T_sel*)(void*)p)->current = Nullable<F>(*v)))
API(void, dis_pose, (IE* p, const E* v), (void)(((T_dis*)(void*)p)->lastValue = Nullable<E>(*v)))
API(void, pai_pose, (IEnumerator<PEF>* p, const E* a, const F* b), (void)(((T_pai*)(void*)p)->current = Nullable<PEF>(PEF(*a, *b))))
OBJ(LE, LE) MK(LE, LE) FIELD(LE, buffer, LE) FIELD(LE, count, LE) FIELD(LE, capacity, LE)
typedef SortedList<E> SE;
API(LE*, LE_new, (), new LE())
API(IE*, ctn_new, (LE* l), new T_ctn(Ptr<LE>(l)))
// LazyList operations: construct the result in place
typedef LazyList<E> LZ; typedef LazyList<F> LZF; typedef LazyList<PEF> LZP; typedef LazyList<vint> LZL;
OBJ(LZ, LZ) OBJ(LZF, LZF) OBJ(LZP, LZP) OBJ(LZL, LZL) MK(LZ, LZ)
API(void, LZ_src, (LZ* r, IE* e), (void)new(r) LZ(e))
API(void, LZF_src, (LZF* r, IF* e), (void)new(r) LZF(e))
#define LZAPI(id, T) API(IEnumerator<T>*, id##_enum, (const LazyList<T>* o), o->CreateEnumerator()) API(void, id##_dtor, (LazyList<T>* o), o->~LazyList<T>())
LZAPI(LZ, E) LZAPI(LZF, F) LZAPI(LZP, PEF) LZAPI(LZL, vint)
#define LZOP(n, R, params, ...) API(void, LZ_##n, params, (void)new(r) R(__VA_ARGS__))
LZOP(cctor, LZ, (LZ* r, const LZ* o), *o)
LZOP(mctor, LZ, (LZ* r, LZ* o), (LZ&&)*o)
API(LZ*, LZ_cassign, (LZ* r, const LZ* o), &(*r = *o))
API(LZ*, LZ_massign, (LZ* r, LZ* o), &(*r = (LZ&&)*o))
LZOP(enumerable, LZ, (LZ* r, const AbsSrc* s), *(const IEnumerable<E>*)s)
LZOP(From, LZ, (LZ* r, const AbsSrc* s), From(*(const IEnumerable<E>*)s))
LZOP(FromLazy, LZ, (LZ* r, const LZ* s), From(*s))
LZOP(FromPtr, LZ, (LZ* r, const E* a, const E* b), From(a, b))
LZOP(FromCtn, LZ, (LZ* r, LE* l), LZ(Ptr<LE>(l)))
LZOP(Range, LZL, (LZL* r, vint s, vint n), Range<vint>(s, n))
LZOP(Select, LZF, (LZF* r, const LZ* o, const SEL* f), o->Select(*f))
LZOP(Where, LZ, (LZ* r, const LZ* o, const PRD* f), o->Where(*f))
LZOP(Concat, LZ, (LZ* r, const LZ* o, const AbsSrc* s), o->Concat(*s))
LZOP(Take, LZ, (LZ* r, const LZ* o, vint n), o->Take(n))
LZOP(Skip, LZ, (LZ* r, const LZ* o, vint n), o->Skip(n))
LZOP(Repeat, LZ, (LZ* r, const LZ* o, vint n), o->Repeat(n))
LZOP(Distinct, LZ, (LZ* r, const LZ* o), o->Distinct())
LZOP(Reverse, LZ, (LZ* r, const LZ* o), o->Reverse())
LZOP(Pairwise, LZP, (LZP* r, const LZ* o, const AbsSrcF* s), o->Pairwise(*(const IEnumerable<F>*)s))
LZOP(Intersect, LZ, (LZ* r, const LZ* o, const AbsSrc* s), o->Intersect(*s))
LZOP(Except, LZ, (LZ* r, const LZ* o, const AbsSrc* s), o->Except(*s))
LZOP(Union, LZ, (LZ* r, const LZ* o, const AbsSrc* s), o->Union(*s))
LZOP(Evaluate, LZ, (LZ* r, const LZ* o, bool force), o->Evaluate(force))
// aggregates
API(void, LZ_Agg, (E* r, const LZ* o, const AGG* f), (void)new(r) E(o->Aggregate(*f)))
struct AGI { F state; F operator()(F, E) const noexcept; };
OBJ(AGI, AGI)
API(void, LZ_Agi, (F* r, const LZ* o, const F* i, const AGI* f), (void)new(r) F(o->Aggregate(*i, *f)))
API(bool, LZ_All, (const LZ* o, const PRD* f), o->All(*f))
API(bool, LZ_Any, (const LZ* o, const PRD* f), o->Any(*f))
API(void, LZ_Max, (E* r, const LZ* o), (void)new(r) E(o->Max()))
API(void, LZ_Min, (E* r, const LZ* o), (void)new(r) E(o->Min()))
API(void, LZ_First, (E* r, const LZ* o), (void)new(r) E(o->First()))
API(void, LZ_FirstD, (E* r, const LZ* o, const E* d), (void)new(r) E(o->First(*d)))
API(void, LZ_Last, (E* r, const LZ* o), (void)new(r) E(o->Last()))
API(void, LZ_LastD, (E* r, const LZ* o, const E* d), (void)new(r) E(o->Last(*d)))
API(vint, LZ_Count, (const LZ* o), o->Count())
API(bool, LZ_IsEmpty, (const LZ* o), o->IsEmpty())
API(int, compare, (const AbsSrc* a, const AbsSrc* b), [](auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }(CompareEnumerable(*(const IEnumerable<E>*)a, *(const IEnumerable<E>*)b)))
// ordering
struct ORDW { F state; std::weak_ordering operator()(const E&, const E&) const noexcept; };
OBJ(ORDW, ORDW)
LZOP(OrderBy, LZ, (LZ* r, const LZ* o, const ORDW* f), o->OrderBy(*f))
LZOP(OrderByKey, LZ, (LZ* r, const LZ* o, const SEL* f), o->OrderByKey(*f))
LZOP(OrderBySelf, LZ, (LZ* r, const LZ* o), o->OrderBySelf())
// grouping: keys of the element type
struct SEK { F state; E operator()(E) const noexcept; };
OBJ(SEK, SEK)
typedef Pair<E, LazyList<E>> PG; typedef LazyList<PG> LZG; typedef SelectEnumerator<E, PG> T_grp; typedef SelectEnumerator<E, E> T_gks;
OBJ(LZG, LZG) OBJ(PG, PG) FIELD(PG, key, PG) FIELD(PG, value, PG)
LZAPI(LZG, PG) IT(IG, PG)
EFLD(grp, enumerator, PG) EFLD(gks, enumerator, E)
LZOP(GroupBy, LZG, (LZG* r, const LZ* o, const SEK* f), o->GroupBy(*f))
API(IEnumerator<PG>*, grp_new, (IE* a), new T_grp(a, Func<PG(E)>()))
API(IE*, gks_new, (IE* a), new T_gks(a, Func<E(E)>()))
API(void, grp_call, (IEnumerator<PG>* p, const E* k, PG* r), (void)new(r) PG(((T_grp*)(void*)p)->selector(*k)))
API(void, gks_call, (IE* p, const E* k, E* r), (void)new(r) E(((T_gks*)(void*)p)->selector(*k)))
API(bool, whe_call, (IE* p, const E* x), ((T_whe*)(void*)p)->selector(*x))
// casts of a sequence of pointers
struct CB { long v; CB() noexcept {} virtual ~CB() {} }; struct CD : CB { CD() noexcept {} };
typedef Ptr<CB> PCB; typedef Ptr<CD> PCD; typedef LazyList<PCB> LZB; typedef LazyList<PCD> LZD; typedef SelectEnumerator<PCB, PCD> T_cas; typedef WhereEnumerator<PCD> T_fnd;
template class Abs<PCB>;
extern "C" IEnumerator<PCB>* api_absB_new() { return new Abs<PCB>(); }
extern "C" CB* new_CB() { return new CB(); }
extern "C" CB* new_CD() { return new CD(); }
OBJ(LZB, LZB) OBJ(LZD, LZD) OBJ(PCB, PCB) OBJ(PCD, PCD) MK(PCB, PCB) MK(PCD, PCD)
LZAPI(LZB, PCB) LZAPI(LZD, PCD) IT(IPB, PCB) IT(IPD, PCD)
API(void, LZB_src, (LZB* r, IEnumerator<PCB>* e), (void)new(r) LZB(e))
EFLD(cas, enumerator, PCD) EFLD(fnd, enumerator, PCD)
LZOP(Cast, LZD, (LZD* r, const LZB* o), o->Cast<CD>())
LZOP(FindType, LZD, (LZD* r, const LZB* o), o->FindType<CD>())
API(IEnumerator<PCD>*, cas_new, (IEnumerator<PCB>* a), new T_cas(a, Func<PCD(PCB)>()))
API(IEnumerator<PCD>*, fnd_new, (IEnumerator<PCD>* a), new T_fnd(a, Func<bool(PCD)>()))
API(void, PCB_set, (PCB* o, CB* p), (void)new(o) PCB(p))
API(CD*, PCD_get, (PCD* o), o->Obj())
API(void, cas_call, (IEnumerator<PCD>* p, const PCB* k, PCD* r), (void)new(r) PCD(((T_cas*)(void*)p)->selector(*k)))
API(bool, fnd_call, (IEnumerator<PCD>* p, const PCD* x), ((T_fnd*)(void*)p)->selector(*x))
// flattening
struct SEM { F state; LZ operator()(E) const noexcept; };
typedef LazyList<LZ> LZZ; typedef SelectEnumerator<E, LZ> T_smy;
OBJ(SEM, SEM) OBJ(LZZ, LZZ) LZAPI(LZZ, LZ) IT(IZ, LZ)
EFLD(smy, enumerator, LZ)
LZOP(SelectMany, LZ, (LZ* r, const LZ* o, const SEM* f), o->SelectMany(*f))
API(IEnumerator<LZ>*, smy_new, (IE* a), new T_smy(a, Func<LZ(E)>()))
API(void, smy_call, (IEnumerator<LZ>* p, const E* k, LZ* r), (void)new(r) LZ(((T_smy*)(void*)p)->selector(*k)))
extern "C" const IEnumerable<E>* LZ_up(const LZ* o) { return o; }
