#include <Strings/String.cpp>
#include "common.h"
using namespace vl;
// numbers and letter case
#define SO(id, T) OBJ(id, ObjectString<T>) MK(id, ObjectString<T>) FIELD(id, buffer, ObjectString<T>) FIELD(id, counter, ObjectString<T>) FIELD(id, start, ObjectString<T>) FIELD(id, length, ObjectString<T>) FIELD(id, realLength, ObjectString<T>)
SO(A, char) SO(W, wchar_t)
#define PARSE(id, T, S, f) API(T, f##_test, (const S* s, bool* ok), vl::f##_test(*s, *ok)) API(T, f, (const S* s), vl::f(*s))
PARSE(A, vint, AString, atoi) PARSE(A, vint64_t, AString, atoi64) PARSE(A, vuint, AString, atou) PARSE(A, vuint64_t, AString, atou64)
PARSE(W, vint, WString, wtoi) PARSE(W, vint64_t, WString, wtoi64) PARSE(W, vuint, WString, wtou) PARSE(W, vuint64_t, WString, wtou64)
#define PRINT(T, S, f) API(void, f, (S* o, T v), (void)new(o) S(vl::f(v)))
PRINT(vint, AString, itoa) PRINT(vint64_t, AString, i64toa) PRINT(vuint, AString, utoa) PRINT(vuint64_t, AString, u64toa)
PRINT(vint, WString, itow) PRINT(vint64_t, WString, i64tow) PRINT(vuint, WString, utow) PRINT(vuint64_t, WString, u64tow)
#define CASE(S, f) API(void, f, (S* o, const S* s), (void)new(o) S(vl::f(*s)))
CASE(AString, alower) CASE(AString, aupper) CASE(WString, wlower) CASE(WString, wupper)
extern "C" void cvt_itoa(AString* o, vint n) { (void)new(o) AString(itoa(n)); }
