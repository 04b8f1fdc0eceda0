#include <Primitives/Nullable.h>
#include <Collections/Dictionary.h>
#include <Collections/Operation.h>
#include <Collections/OperationString.h>
#include "common.h"
using namespace vl; using namespace vl::collections;
// CopyFrom: every kind of target and source.  Containers appear by the contracts proved in C01-C06 (specs/copy.py); sources of unknown kind as in linq.cpp.
typedef Pair<E, F> PEF;
template<typename T> struct Abs : public virtual IEnumerator<T>
{
	Abs() noexcept {} IEnumerator<T>* Clone()const override; const T& Current()const override; vint Index()const override; bool Next()override; void Reset()override; bool Evaluated()const override;
};
template class Abs<E>; template class Abs<vint>; template class Abs<PEF>; template class Abs<wchar_t>;
#define ABS(id, T) \
	extern "C" IEnumerator<T>* api_abs##id##_new() { return new Abs<T>(); } \
	struct AbsSrc##id : public EnumerableBase<T> { AbsSrc##id() noexcept {} IEnumerator<T>* CreateEnumerator()const override { return api_abs##id##_new(); } }; \
	OBJ(Src##id, AbsSrc##id) MK(Src##id, AbsSrc##id)
ABS(E, E) ABS(V, vint) ABS(P, PEF) ABS(W, wchar_t)
#define CONT(k, T) \
	typedef Array<T> Array##k; typedef List<T> List##k; typedef SortedList<T> Sorted##k; \
	OBJ(Array##k, Array##k) OBJ(List##k, List##k) OBJ(Sorted##k, Sorted##k) MK(Array##k, Array##k) MK(List##k, List##k) MK(Sorted##k, Sorted##k)
CONT(E, E) CONT(V, vint)
typedef Dictionary<E, F> Dic; typedef Group<E, F> Grp;
OBJ(Dic, Dic) MK(Dic, Dic) OBJ(Grp, Grp) MK(Grp, Grp)
OBJ(Str, WString) MK(Str, WString)
#define COPY(n, D, S) API(void, copy_##n, (D* d, const S* s, bool append), CopyFrom(*d, *s, append)) API(void, copy_##n##_def, (D* d, const S* s), CopyFrom(*d, *s))
#define COPYS(n, D, id, T) API(void, copy_##n, (D* d, const AbsSrc##id* s, bool append), CopyFrom(*d, (const IEnumerable<T>&)*s, append)) API(void, copy_##n##_def, (D* d, const AbsSrc##id* s), CopyFrom(*d, (const IEnumerable<T>&)*s))
#define COPYP(n, D, S) \
	API(void, copyn_##n, (D* d, const S* s, vint n, bool append), CopyFrom(*d, s, n, append)) API(void, copyr_##n, (D* d, const S* s, const S* e, bool append), CopyFrom(*d, s, e, append)) \
	API(void, copyn_##n##_def, (D* d, const S* s, vint n), CopyFrom(*d, s, n)) API(void, copyr_##n##_def, (D* d, const S* s, const S* e), CopyFrom(*d, s, e))
#define TARGET(D, k, T) \
	COPY(D##k##_Array##k, D##k, Array##k) COPY(D##k##_List##k, D##k, List##k) COPY(D##k##_Sorted##k, D##k, Sorted##k) COPYS(D##k##_Src##k, D##k, k, T) COPY(D##k##_Lazy##k, D##k, LazyList<T>) COPYP(D##k, D##k, T)
TARGET(Array, E, E) TARGET(List, E, E) TARGET(Sorted, E, E) TARGET(Array, V, vint) TARGET(List, V, vint) TARGET(Sorted, V, vint)
COPY(Dic_Dic, Dic, Dic) COPYS(Dic_SrcP, Dic, P, PEF) COPYS(Grp_SrcP, Grp, P, PEF)
typedef List<wchar_t> ListW; typedef Array<wchar_t> ArrayW;
OBJ(ListW, ListW) MK(ListW, ListW) OBJ(ArrayW, ArrayW) MK(ArrayW, ArrayW)
COPY(ListW_Str, ListW, WString) COPY(ArrayW_Str, ArrayW, WString) COPY(Str_ListW, WString, ListW) COPY(Str_ArrayW, WString, ArrayW) COPYS(Str_SrcW, WString, W, wchar_t)
FIELD(PEF, key, PEF) FIELD(PEF, value, PEF) OBJ(PEF, PEF)
typedef LazyList<E> LazyE; typedef LazyList<vint> LazyV;
OBJ(LazyE, LazyE) OBJ(LazyV, LazyV)
API(void, LazyE_src, (LazyE* r, IEnumerator<E>* e), (void)new(r) LazyE(e))
API(void, LazyV_src, (LazyV* r, IEnumerator<vint>* e), (void)new(r) LazyV(e))
