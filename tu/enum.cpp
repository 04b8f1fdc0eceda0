#include "map.cpp"
#include <Collections/OperationForEach.h>
// enumerators of the containers and range-based for loops
#define IT(id, ...) \
	API(bool, id##_Next, (IEnumerator<__VA_ARGS__>* p), p->Next()) API(void, id##_Reset, (IEnumerator<__VA_ARGS__>* p), p->Reset()) API(IEnumerator<__VA_ARGS__>*, id##_Clone, (const IEnumerator<__VA_ARGS__>* p), p->Clone()) \
	API(const void*, id##_Current, (const IEnumerator<__VA_ARGS__>* p), (const void*)&p->Current()) API(vint, id##_Index, (const IEnumerator<__VA_ARGS__>* p), p->Index()) API(bool, id##_Evaluated, (const IEnumerator<__VA_ARGS__>* p), p->Evaluated()) API(void, id##_delete, (IEnumerator<__VA_ARGS__>* p), delete p)
typedef Pair<const E&, const F&> KV;
IT(IE, E) IT(IK, KV)
#define EFLD(id, f, ...) extern "C" const void* fld_##id##_##f(IEnumerator<__VA_ARGS__>* p) { return &((T_##id*)(void*)p)->f; }
typedef Array<E> AE; typedef List<E> LE; typedef ArrayBase<E>::Enumerator T_arr; typedef DI::Enumerator T_den; typedef GR::Enumerator T_gen;
OBJ(AE, AE) MK(AE, AE) FIELD(AE, buffer, AE) FIELD(AE, count, AE)
LISTOBJ(LE)
EFLD(arr, container, E) EFLD(arr, index, E) EFLD(den, container, KV) EFLD(den, index, KV) EFLD(gen, container, KV) EFLD(gen, keyIndex, KV) EFLD(gen, valueIndex, KV)
API(IEnumerator<E>*, AE_enum, (const AE* o), o->CreateEnumerator()) API(IEnumerator<E>*, LE_enum, (const LE* o), o->CreateEnumerator()) API(IEnumerator<E>*, KL_enum, (const KL* o), o->CreateEnumerator())
API(IEnumerator<KV>*, DI_enum, (const DI* o), o->CreateEnumerator()) API(IEnumerator<KV>*, GR_enum, (const GR* o), o->CreateEnumerator())
API(void, den_pose, (IEnumerator<KV>* p, const E* k, const F* v), (void)(((T_den*)(void*)p)->current = KV(*k, *v)))
API(void, gen_pose, (IEnumerator<KV>* p, const E* k, const F* v), (void)(((T_gen*)(void*)p)->current = KV(*k, *v)))
API(const void*, KV_key, (const KV* p), &p->key) API(const void*, KV_value, (const KV* p), &p->value)
// a source known only by the contract of IEnumerator
template<typename T> struct Abs : public virtual IEnumerator<T>
{
	Abs() noexcept {} IEnumerator<T>* Clone()const override; const T& Current()const override; vint Index()const override; bool Next()override; void Reset()override; bool Evaluated()const override;
};
template class Abs<E>;
extern "C" IEnumerator<E>* api_absE_new() { return new Abs<E>(); }
struct AbsSrcE : public EnumerableBase<E> { AbsSrcE() noexcept {} IEnumerator<E>* CreateEnumerator()const override { return api_absE_new(); } };
OBJ(SrcE, AbsSrcE) MK(SrcE, AbsSrcE)
extern "C" void sink(const E* e) noexcept; extern "C" void sink_indexed(const E* e, vint i) noexcept; extern "C" bool stop() noexcept;
extern "C" void api_for(const AbsSrcE* s) { for (auto&& x : (const IEnumerable<E>&)*s) sink(&x); }
extern "C" void api_for_indexed(const AbsSrcE* s) { for (auto&& [x, i] : indexed((const IEnumerable<E>&)*s)) sink_indexed(&x, i); }
extern "C" void api_for_break(const AbsSrcE* s) { for (auto&& x : (const IEnumerable<E>&)*s) { sink(&x); if (stop()) break; } }
extern "C" void api_for_indexed_break(const AbsSrcE* s) { for (auto&& [x, i] : indexed((const IEnumerable<E>&)*s)) { sink_indexed(&x, i); if (stop()) break; } }

// GroupInnerJoin with callbacks known by contract
extern "C" void onFirst(const E* k, const VL* v) noexcept; extern "C" void onSecond(const E* k, const VL* v) noexcept; extern "C" void onBoth(const E* k, const VL* v, const VL* w) noexcept;
extern "C" void api_join(const GR* a, const GR* b) { GroupInnerJoin(*a, *b, [](const E& k, const VL& v) { onFirst(&k, &v); }, [](const E& k, const VL& v) { onSecond(&k, &v); }, [](const E& k, const VL& v, const VL& w) { onBoth(&k, &v, &w); }); }
