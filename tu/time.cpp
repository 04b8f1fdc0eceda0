#include <Primitives/DateTime.cpp>
#include <Primitives/DateTime.Linux.cpp>
#include "common.h"
using namespace vl;
// dates and times
OBJ(DT, DateTime) MK(DT, DateTime)
FIELD(DT, year, DateTime) FIELD(DT, month, DateTime) FIELD(DT, day, DateTime) FIELD(DT, hour, DateTime) FIELD(DT, minute, DateTime) FIELD(DT, second, DateTime) FIELD(DT, milliseconds, DateTime) FIELD(DT, dayOfWeek, DateTime) FIELD(DT, osMilliseconds, DateTime) FIELD(DT, osInternal, DateTime)
OBJ(TM, tm) FIELD(TM, tm_sec, tm) FIELD(TM, tm_min, tm) FIELD(TM, tm_hour, tm) FIELD(TM, tm_mday, tm) FIELD(TM, tm_mon, tm) FIELD(TM, tm_year, tm) FIELD(TM, tm_wday, tm) FIELD(TM, tm_yday, tm) FIELD(TM, tm_isdst, tm)
extern "C" void mk_impl() { new(&osDateTimeImpl) LinuxDateTimeImpl(); }
API(void, LocalTime, (DateTime* o), (void)new(o) DateTime(DateTime::LocalTime()))
API(void, UtcTime, (DateTime* o), (void)new(o) DateTime(DateTime::UtcTime()))
API(void, FromDateTime, (DateTime* o, vint y, vint m, vint d, vint h, vint n, vint s, vint ms), (void)new(o) DateTime(DateTime::FromDateTime(y, m, d, h, n, s, ms)))
API(void, FromOSInternal, (DateTime* o, vuint64_t x), (void)new(o) DateTime(DateTime::FromOSInternal(x)))
API(void, ToLocalTime, (DateTime* o, DateTime* a), (void)new(o) DateTime(a->ToLocalTime()))
API(void, ToUtcTime, (DateTime* o, DateTime* a), (void)new(o) DateTime(a->ToUtcTime()))
API(void, Forward, (DateTime* o, DateTime* a, vuint64_t n), (void)new(o) DateTime(a->Forward(n)))
API(void, Backward, (DateTime* o, DateTime* a, vuint64_t n), (void)new(o) DateTime(a->Backward(n)))
API(bool, lt, (const DateTime* a, const DateTime* b), *a < *b) API(bool, le, (const DateTime* a, const DateTime* b), *a <= *b)
API(bool, gt, (const DateTime* a, const DateTime* b), *a > *b) API(bool, ge, (const DateTime* a, const DateTime* b), *a >= *b)
API(bool, eq, (const DateTime* a, const DateTime* b), *a == *b) API(bool, ne, (const DateTime* a, const DateTime* b), *a != *b)
API(int, cmp, (const DateTime* a, const DateTime* b), (*a <=> *b) < 0 ? -1 : (*a <=> *b) > 0 ? 1 : 0)
// an injected implementation, known only by its interface
template<int> struct AbsImpl : public IDateTimeImpl
{
	AbsImpl() noexcept {}
	DateTime FromDateTime(vint, vint, vint, vint, vint, vint, vint) noexcept override; DateTime FromOSInternal(vuint64_t) noexcept override; vuint64_t LocalTime() noexcept override; vuint64_t UtcTime() noexcept override;
	vuint64_t LocalToUtcTime(vuint64_t) noexcept override; vuint64_t UtcToLocalTime(vuint64_t) noexcept override; vuint64_t Forward(vuint64_t, vuint64_t) noexcept override; vuint64_t Backward(vuint64_t, vuint64_t) noexcept override;
};
template struct AbsImpl<0>;
extern "C" IDateTimeImpl* abs_new() { return new AbsImpl<0>(); }
API(void, Inject, (IDateTimeImpl* p), InjectDateTimeImpl(p))
