#include <Strings/String.cpp>
#include <Strings/Conversion.cpp>
#include <Strings/Conversion.Linux.cpp>
#include "common.h"
using namespace vl; using namespace vl::encoding;
#define CP(id, T, N) \
	API(vint, id##_from, (unsigned c, T* d), UtfConversion<T>::From32((char32_t)c, *(T(*)[N])d)) \
	API(vint, id##_to, (const T* s, vint n, char32_t* d), UtfConversion<T>::To32(s, n, *d))
CP(u8, char8_t, 6) CP(u16, char16_t, 2) CP(be, char16be_t, 2) CP(w, wchar_t, 1)
// sources known only by contract: Consume gives the next unit of a text, zero at its end and ever after
template<typename T> struct Src : public Object { vint at; Src() noexcept {} T Consume() noexcept; };
template<> char8_t Src<char8_t>::Consume() noexcept; template<> char16_t Src<char16_t>::Consume() noexcept; template<> char16be_t Src<char16be_t>::Consume() noexcept;
template<> char32_t Src<char32_t>::Consume() noexcept; template<> wchar_t Src<wchar_t>::Consume() noexcept;
#define RD(id, ...) typedef __VA_ARGS__ id; OBJ(id, id) MK(id, id) \
	API(vint, id##_idx, (const id* r), r->ReadingIndex()) \
	API(void, id##_cluster, (const id* r, UtfCharCluster* o), (void)(*o = r->SourceCluster())) \
	FIELD(id, readCounter, id)
#define TORD(id, T) RD(id, UtfTo32ReaderBase<T, Src<T>>) FIELD(id, at, id) FIELD(id, available, id) FIELD(id, buffer, id) FIELD(id, sourceCluster, id) \
	API(unsigned, id##_Read, (id* r), (unsigned)r->Read())
TORD(T8, char8_t) TORD(T16, char16_t) TORD(TBE, char16be_t) TORD(TW, wchar_t)
template<typename T> unsigned asu(T c) { if constexpr (std::is_same_v<T, char16be_t>) return c.value; else return (unsigned)c; }
#define FRRD(id, T) RD(id, UtfFrom32ReaderBase<T, Src<char32_t>>) FIELD(id, at, id) FIELD(id, read, id) FIELD(id, available, id) FIELD(id, buffer, id) FIELD(id, sourceCluster, id) \
	API(unsigned, id##_Read, (id* r), asu(r->Read()))
FRRD(F8, char8_t) FRRD(F16, char16_t) FRRD(FBE, char16be_t) FRRD(FW, wchar_t)
#define DIRD(id, T) RD(id, Utf32DirectReaderBase<Src<T>>) FIELD(id, at, id) FIELD(id, ended, id) API(unsigned, id##_Read, (id* r), (unsigned)r->Read())
DIRD(D32, char32_t) DIRD(DW, wchar_t)
// consumers
#define CONS(id, T) typedef UtfStringConsumer<T> SC##id; OBJ(SC##id, SC##id) FIELD(SC##id, starting, SC##id) FIELD(SC##id, consuming, SC##id) \
	API(void, SC##id##_ctor, (SC##id* o, const T* s), (void)new(o) SC##id(s)) API(unsigned, SC##id##_Consume, (SC##id* o), asu(o->Consume())) \
	typedef UtfStringRangeConsumer<T> RC##id; OBJ(RC##id, RC##id) FIELD(RC##id, starting, RC##id) FIELD(RC##id, ending, RC##id) FIELD(RC##id, consuming, RC##id) \
	API(void, RC##id##_ctor, (RC##id* o, const T* s, const T* e), (void)new(o) RC##id(s, e)) API(void, RC##id##_ctorn, (RC##id* o, const T* s, vint n), (void)new(o) RC##id(s, n)) API(unsigned, RC##id##_Consume, (RC##id* o), asu(o->Consume()))
CONS(8, char8_t) CONS(16, char16_t) CONS(BE, char16be_t) CONS(32, char32_t) CONS(W, wchar_t)
// reader built from two readers
typedef UtfToUtfReaderBase<char8_t, char16_t, Src<char8_t>> X816; typedef UtfToUtfReaderBase<char16_t, char8_t, Src<char16_t>> X168;
typedef UtfTo32ReaderBase<char8_t, Src<char8_t>> I8; typedef UtfTo32ReaderBase<char16_t, Src<char16_t>> I16;
#define XRD(id, T) RD(id##_, id) FIELD(id##_, internalReader, id##_) FIELD(id##_, read, id##_) FIELD(id##_, available, id##_) FIELD(id##_, buffer, id##_) FIELD(id##_, sourceCluster, id##_) API(unsigned, id##_Read, (id##_* r), asu(r->Read()))
XRD(X816, char16_t) XRD(X168, char8_t)
// string objects
#define SO(id, T) OBJ(id, ObjectString<T>) MK(id, ObjectString<T>) FIELD(id, buffer, ObjectString<T>) FIELD(id, counter, ObjectString<T>) FIELD(id, start, ObjectString<T>) FIELD(id, length, ObjectString<T>) FIELD(id, realLength, ObjectString<T>)
SO(A, char) SO(W, wchar_t) SO(H, char16_t) SO(D, char32_t) SO(B, char8_t)
#define CV(f, TO, FROM) API(void, f, (ObjectString<TO>* o, const ObjectString<FROM>* s), (void)new(o) ObjectString<TO>(vl::f(*s)))
CV(wtou32, char32_t, wchar_t) CV(u32tow, wchar_t, char32_t) CV(u8tou32, char32_t, char8_t) CV(u32tou8, char8_t, char32_t) CV(u16tou32, char32_t, char16_t) CV(u32tou16, char16_t, char32_t)
CV(wtou8, char8_t, wchar_t) CV(u8tow, wchar_t, char8_t) CV(wtou16, char16_t, wchar_t) CV(u16tow, wchar_t, char16_t) CV(u8tou16, char16_t, char8_t) CV(u16tou8, char8_t, char16_t)
CV(wtoa, char, wchar_t) CV(atow, wchar_t, char)
// whole buffers
template<typename R> bool fresh(R& r)
{
	bool ok = true;
	if constexpr (requires { r.available; }) ok = ok && r.available == 0;
	if constexpr (requires { r.read; }) ok = ok && r.read == 0;
	if constexpr (requires { r.sourceCluster; }) ok = ok && r.sourceCluster.index == 0 && r.sourceCluster.size == 0;
	if constexpr (requires { r.readCounter; }) ok = ok && r.readCounter == -1;
	if constexpr (requires { r.ended; }) ok = ok && !r.ended;
	if constexpr (requires { r.internalReader; }) ok = ok && fresh(r.internalReader);
	return ok;
}
template<typename R> const void* conat(R& r) { if constexpr (requires { r.internalReader; }) return conat(r.internalReader); else return r.consuming; }
template<typename R> const void* conend(R& r) { if constexpr (requires { r.internalReader; }) return conend(r.internalReader); else return r.ending; }
#define BUFCV(id, A, B) API(vint, buf_##id, (const A* s, B* d, vint n), vl::_utftoutf<A, B>(s, d, n)) \
	typedef UtfStringToStringReader<A, B> SS_##id; OBJ(SS_##id, SS_##id) API(void, SS_##id##_ctor, (SS_##id* o, const A* s), (void)new(o) SS_##id(s)) API(bool, SS_##id##_fresh, (SS_##id* o), fresh(*o)) API(const void*, SS_##id##_at, (SS_##id* o), conat(*o)) \
	typedef UtfStringRangeToStringRangeReader<A, B> RR_##id; OBJ(RR_##id, RR_##id) API(void, RR_##id##_ctor, (RR_##id* o, const A* s, const A* e), (void)new(o) RR_##id(s, e)) API(void, RR_##id##_ctorn, (RR_##id* o, const A* s, vint n), (void)new(o) RR_##id(s, n)) API(bool, RR_##id##_fresh, (RR_##id* o), fresh(*o)) API(const void*, RR_##id##_at, (RR_##id* o), conat(*o)) API(const void*, RR_##id##_end, (RR_##id* o), conend(*o))
BUFCV(w_8, wchar_t, char8_t) BUFCV(w_16, wchar_t, char16_t) BUFCV(8_w, char8_t, wchar_t) BUFCV(8_16, char8_t, char16_t) BUFCV(16_w, char16_t, wchar_t) BUFCV(16_8, char16_t, char8_t)
BUFCV(32_8, char32_t, char8_t) BUFCV(32_16, char32_t, char16_t) BUFCV(32_w, char32_t, wchar_t) BUFCV(8_32, char8_t, char32_t) BUFCV(16_32, char16_t, char32_t) BUFCV(w_32, wchar_t, char32_t)
