#include <Strings/String.cpp>
#include "common.h"
using namespace vl;
inline int sgn(std::strong_ordering r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
#define STR(id, T) \
	OBJ(id, ObjectString<T>) MK(id, ObjectString<T>) \
	FIELD(id, buffer, ObjectString<T>) FIELD(id, counter, ObjectString<T>) FIELD(id, start, ObjectString<T>) FIELD(id, length, ObjectString<T>) FIELD(id, realLength, ObjectString<T>) \
	API(void, id##_ctor, (ObjectString<T>* o), (void)new(o) ObjectString<T>()) \
	API(void, id##_cctor, (ObjectString<T>* o, const ObjectString<T>* s), (void)new(o) ObjectString<T>(*s)) \
	API(void, id##_mctor, (ObjectString<T>* o, ObjectString<T>* s), (void)new(o) ObjectString<T>(std::move(*s))) \
	API(void, id##_pctor, (ObjectString<T>* o, const T* s), (void)new(o) ObjectString<T>(s)) \
	API(void, id##_dtor, (ObjectString<T>* o), o->ObjectString<T>::~ObjectString()) \
	API(void, id##_TakeOver, (ObjectString<T>* o, T* s, vint n), (void)new(o) ObjectString<T>(ObjectString<T>::TakeOver(s, n))) \
	API(void, id##_FromChar, (ObjectString<T>* o, T c), (void)new(o) ObjectString<T>(ObjectString<T>::FromChar(c))) \
	API(void, id##_CopyFrom, (ObjectString<T>* o, const T* s, vint n), (void)new(o) ObjectString<T>(ObjectString<T>::CopyFrom(s, n))) \
	API(void, id##_Unmanaged, (ObjectString<T>* o, const T* s), (void)new(o) ObjectString<T>(ObjectString<T>::Unmanaged(s))) \
	API(const T*, id##_Buffer, (const ObjectString<T>* s), s->Buffer()) \
	API(void, id##_cassign, (ObjectString<T>* o, const ObjectString<T>* s), (void)(*o = *s)) \
	API(void, id##_massign, (ObjectString<T>* o, ObjectString<T>* s), (void)(*o = std::move(*s))) \
	API(void, id##_append, (ObjectString<T>* o, const ObjectString<T>* s), (void)(*o += *s)) \
	API(void, id##_appendp, (ObjectString<T>* o, const T* s), (void)(*o += s)) \
	API(void, id##_add, (ObjectString<T>* o, const ObjectString<T>* a, const ObjectString<T>* b), (void)new(o) ObjectString<T>(*a + *b)) \
	API(void, id##_addp, (ObjectString<T>* o, const ObjectString<T>* a, const T* b), (void)new(o) ObjectString<T>(*a + b)) \
	API(void, id##_padd, (ObjectString<T>* o, const T* a, const ObjectString<T>* b), (void)new(o) ObjectString<T>(a + *b)) \
	API(T, id##_at, (const ObjectString<T>* s, vint i), (*s)[i]) \
	API(vint, id##_Length, (const ObjectString<T>* s), s->Length()) \
	API(vint, id##_IndexOf, (const ObjectString<T>* s, T c), s->IndexOf(c)) \
	API(void, id##_Left, (ObjectString<T>* o, const ObjectString<T>* s, vint n), (void)new(o) ObjectString<T>(s->Left(n))) \
	API(void, id##_Right, (ObjectString<T>* o, const ObjectString<T>* s, vint n), (void)new(o) ObjectString<T>(s->Right(n))) \
	API(void, id##_Sub, (ObjectString<T>* o, const ObjectString<T>* s, vint i, vint n), (void)new(o) ObjectString<T>(s->Sub(i, n))) \
	API(void, id##_Remove, (ObjectString<T>* o, const ObjectString<T>* s, vint i, vint n), (void)new(o) ObjectString<T>(s->Remove(i, n))) \
	API(void, id##_Insert, (ObjectString<T>* o, const ObjectString<T>* s, vint i, const ObjectString<T>* t), (void)new(o) ObjectString<T>(s->Insert(i, *t))) \
	API(int, id##_cmp, (const ObjectString<T>* a, const ObjectString<T>* b), sgn(*a <=> *b)) \
	API(bool, id##_eq, (const ObjectString<T>* a, const ObjectString<T>* b), *a == *b) \
	API(int, id##_cmpp, (const ObjectString<T>* a, const T* b), sgn(*a <=> b)) \
	API(bool, id##_eqp, (const ObjectString<T>* a, const T* b), *a == b) \
	API(int, id##_pcmp, (const T* a, const ObjectString<T>* b), sgn(a <=> *b)) \
	API(bool, id##_peq, (const T* a, const ObjectString<T>* b), a == *b)
STR(A, char)
STR(W, wchar_t)
STR(H, char16_t)
API(void, W_cast, (WString* o, const U32String* s), (void)new(o) WString(WString::UnsafeCastFrom(*s)))
STR(D, char32_t)
