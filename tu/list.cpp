#include <Collections/List.h>
#include "common.h"
using namespace vl;
using namespace vl::collections;
#define COMMON(id, C, T) \
	API(const T&, id##_Get, (const C<T>* l, vint i), l->Get(i)) \
	API(const T&, id##_at_c, (const C<T>* l, vint i), (*l)[i]) \
	API(vint, id##_Count, (const C<T>* l), l->Count()) \
	API(vint, id##_IndexOf, (const C<T>* l, const T& x), l->IndexOf(x)) \
	API(bool, id##_Contains, (const C<T>* l, const T& x), l->Contains(x)) \
	API(void, id##_mctor, (C<T>* l, C<T>* s), (void)new(l) C<T>(std::move(*s))) \
	API(C<T>&, id##_massign, (C<T>* l, C<T>* s), (*l) = std::move(*s)) \
	API(void, id##_dtor, (C<T>* l), l->~C()) \
	OBJ(id, C<T>) MK(id, C<T>) FIELD(id, buffer, C<T>) FIELD(id, count, C<T>)
#define SETTERS(id, C, T) \
	API(T&, id##_at, (C<T>* l, vint i), (*l)[i]) \
	API(bool, id##_Set_c, (C<T>* l, vint i, const T& x), l->Set(i, x)) \
	API(bool, id##_Set_m, (C<T>* l, vint i, T&& x), l->Set(i, std::move(x)))
#define LISTBASE(id, C, T) \
	FIELD(id, capacity, C<T>) \
	API(vint, id##_Add_c, (C<T>* l, const T& x), l->Add(x)) \
	API(vint, id##_Add_m, (C<T>* l, T&& x), l->Add(std::move(x))) \
	API(bool, id##_RemoveAt, (C<T>* l, vint i), l->RemoveAt(i)) \
	API(bool, id##_RemoveRange, (C<T>* l, vint i, vint n), l->RemoveRange(i, n)) \
	API(bool, id##_Clear, (C<T>* l), l->Clear()) \
	API(bool, id##_Remove, (C<T>* l, const T& x), l->Remove(x))
#define ALL(T, S) \
	COMMON(Array##S, Array, T) SETTERS(Array##S, Array, T) \
	API(void, Array##S##_ctor, (Array<T>* l, vint n), (void)new(l) Array<T>(n)) \
	API(void, Array##S##_ctorp, (Array<T>* l, const T* p, vint n), (void)new(l) Array<T>(p, n)) \
	API(void, Array##S##_Resize, (Array<T>* l, vint n), l->Resize(n)) \
	COMMON(List##S, List, T) SETTERS(List##S, List, T) LISTBASE(List##S, List, T) \
	API(vint, List##S##_Insert_c, (List<T>* l, vint i, const T& x), l->Insert(i, x)) \
	API(vint, List##S##_Insert_m, (List<T>* l, vint i, T&& x), l->Insert(i, std::move(x))) \
	COMMON(SortedList##S, SortedList, T) LISTBASE(SortedList##S, SortedList, T)
ALL(E, E)
ALL(vint, V)
