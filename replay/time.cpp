// C18: DateTime against an independent calendar and zone rules
// SOURCES: Basic.cpp Primitives/DateTime.cpp Primitives/DateTime.Linux.cpp
#include <Primitives/DateTime.h>
#include "drv.h"
#include <time.h>
#include <sys/time.h>
using namespace vl; using namespace drv;
struct Civ { long y, mo, d, h, mi, s, w; };
static long days(long y, long m, long d) { y -= m <= 2; long e = (y >= 0 ? y : y - 399) / 400; long yoe = y - e * 400; long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return e * 146097 + doe - 719468; }
static Civ civil(long t)
{
	long z = t / 86400, r = t % 86400; if (r < 0) { r += 86400; z--; }
	Civ c; c.w = ((z % 7) + 11) % 7; c.h = r / 3600; c.mi = r / 60 % 60; c.s = r % 60;
	z += 719468; long e = (z >= 0 ? z : z - 146096) / 146097; long doe = z - e * 146097; long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; c.y = yoe + e * 400; long doy = doe - (365 * yoe + yoe / 4 - yoe / 100); long mp = (5 * doy + 2) / 153; c.d = doy - (153 * mp + 2) / 5 + 1; c.mo = mp < 10 ? mp + 3 : mp - 9; if (c.mo <= 2) c.y++;
	return c;
}
// zones with fixed rules: offset of standard and daylight time, rule months/weeks (Sunday), both transitions at 2:00 local time
struct Zone { const char* tz; long std, dst; int m1, w1, m2, w2; };
static const Zone zones[] = { { "UTC0", 0, 0, 0 }, { "CST-8", 28800, 28800, 0 }, { "EST5EDT,M3.2.0,M11.1.0", -18000, -14400, 3, 2, 11, 1 }, { "IST-5:30", 19800, 19800, 0 }, { "NST3:30NDT,M3.2.0,M11.1.0", -12600, -9000, 3, 2, 11, 1 }, { "AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, 10, 1, 4, 1 } };
static long rule(long y, int m, int w, long off, long hour) { long d = days(y, m, 1); long dow = ((d % 7) + 11) % 7; long first = d + (7 - dow) % 7; return (first + 7 * (w - 1)) * 86400 + hour * 3600 - off; }
static long offset(const Zone& z, long t)
{
	if (!z.m1) return z.std;
	long y = civil(t + z.std).y; long a = rule(y, z.m1, z.w1, z.std, 2), b = rule(y, z.m2, z.w2, z.dst, z.m1 > z.m2 ? 3 : 2);
	bool dst = z.m1 < z.m2 ? (t >= a && t < b) : (t >= a || t < b);
	return dst ? z.dst : z.std;
}
static std::string show(const DateTime& d) { return S(d.year, "-", d.month, "-", d.day, " ", d.hour, ":", d.minute, ":", d.second, ".", d.milliseconds, " (weekday ", d.dayOfWeek, ", osInternal ", d.osInternal, ")"); }
static void shows(const DateTime& d, long s, long ms, const char* w)
{
	Civ c = civil(s);
	if (d.year != c.y || d.month != c.mo || d.day != c.d || d.hour != c.h || d.minute != c.mi || d.second != c.s || d.milliseconds != ms || d.dayOfWeek != c.w) fail(S(w, ": got ", show(d), ", expected ", c.y, "-", c.mo, "-", c.d, " ", c.h, ":", c.mi, ":", c.s, ".", ms, " (weekday ", c.w, ")"));
	if (d.osMilliseconds != d.osInternal) fail(S(w, ": osMilliseconds"));
}
struct Fake : Object, IDateTimeImpl
{
	DateTime make(vuint64_t x) { DateTime d; d.year = 1; d.month = 2; d.day = 3; d.hour = 4; d.minute = 5; d.second = 6; d.milliseconds = 7; d.dayOfWeek = 0; d.osMilliseconds = x; d.osInternal = x; return d; }
	DateTime FromDateTime(vint a, vint b, vint c, vint d, vint e, vint f, vint g) override { return make(((((((a * 13 + b) * 13 + c) * 13 + d) * 13 + e) * 13) + f) * 13 + g); }
	DateTime FromOSInternal(vuint64_t x) override { return make(x * 2 + 1); }
	vuint64_t LocalTime() override { return 11; } vuint64_t UtcTime() override { return 12; } vuint64_t LocalToUtcTime(vuint64_t x) override { return x + 100; } vuint64_t UtcToLocalTime(vuint64_t x) override { return x + 200; }
	vuint64_t Forward(vuint64_t x, vuint64_t n) override { return x + 7 * n; } vuint64_t Backward(vuint64_t x, vuint64_t n) override { return x + 1000000 - 3 * n; }
};
void injected()
{
	trace.clear(); log("injected implementation");
	vuint64_t x = rnd(0, 1000000), n = rnd(0, 1000); DateTime o = DateTime::FromOSInternal(x);
	Fake fake; InjectDateTimeImpl(&fake); DateTime d = fake.make(x);
	auto is = [](const DateTime& r, vuint64_t v, const char* w) { if (r.osInternal != v || r.osMilliseconds != v || r.year != 1 || r.milliseconds != 7) fail(S(w, ": not what the injected implementation gives")); };
	is(DateTime::LocalTime(), 23, "LocalTime"); is(DateTime::UtcTime(), 25, "UtcTime"); is(DateTime::FromOSInternal(x), 2 * x + 1, "FromOSInternal"); is(d.ToLocalTime(), (x + 200) * 2 + 1, "ToLocalTime"); is(d.ToUtcTime(), (x + 100) * 2 + 1, "ToUtcTime");
	is(d.Forward(n), (x + 7 * n) * 2 + 1, "Forward"); is(d.Backward(n), (x + 1000000 - 3 * n) * 2 + 1, "Backward"); is(DateTime::FromDateTime(1, 2, 3, 4, 5, 6, n), fake.FromDateTime(1, 2, 3, 4, 5, 6, n).osInternal, "FromDateTime");
	InjectDateTimeImpl(nullptr); log("taken away"); DateTime p = DateTime::FromOSInternal(x); if (p.osInternal != o.osInternal || p.year != o.year || p.minute != o.minute || p.milliseconds != o.milliseconds) fail("FromOSInternal after taking the implementation away");
}
int main(int argc, char** argv)
{
	init(argc, argv); injected();
	while (more()) for (auto& z : zones)
	{
		setenv("TZ", z.tz, 1); tzset();
		for (int k = 0; k < 200; k++)
		{
			trace.clear();
			long t = rnd() % 3 ? rnd(10 * 86400, 4102444800l) : rnd(1700000000, 1740000000), ms = rnd(0, 999); if (rnd() % 8 == 0) t = t / 86400 * 86400 + (rnd() % 2 ? 86399 : 0);
			long x = t * 1000 + ms, off = offset(z, t);
			log(S("TZ=", z.tz, " osInternal=", x));
			DateTime d = DateTime::FromOSInternal(x); shows(d, t + off, ms, "FromOSInternal"); if (d.osInternal != (vuint64_t)x) fail("FromOSInternal: osInternal");
			bool steady = true; for (long h = -72; h <= 72; h++) if (offset(z, t + h * 3600) != off) steady = false;
			if (steady)
			{
				DateTime f = DateTime::FromDateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.milliseconds); shows(f, t + off, ms, "FromDateTime"); if (f.osInternal != (vuint64_t)x || !(f == d) || f != d) fail(S("FromDateTime: ", show(f)));
				DateTime u = d.ToUtcTime(); shows(u, t, ms, "ToUtcTime");
				DateTime l = d.ToLocalTime(); shows(l, t + off + off, ms, "ToLocalTime");
				if (u.ToLocalTime() != d) fail(S("ToUtcTime then ToLocalTime: ", show(u.ToLocalTime())));
			}
			long n = rnd() % 2 ? rnd(0, 100000) : rnd(0, x); DateTime b = d.Backward(n), g = d.Forward(n);
			shows(b, (x - n) / 1000 + offset(z, (x - n) / 1000), (x - n) % 1000, "Backward"); shows(g, (x + n) / 1000 + offset(z, (x + n) / 1000), (x + n) % 1000, "Forward");
			if (b.osInternal != (vuint64_t)(x - n) || g.osInternal != (vuint64_t)(x + n) || b.Forward(n) != d || g.Backward(n) != d) fail("Forward/Backward");
			if ((b < d) != (n > 0) || (b <= d) != true || (d < g) != (n > 0) || (d > g) || (d >= g) != (n == 0) || (b == d) != (n == 0)) fail("comparison");
		}
		trace.clear(); log(S("TZ=", z.tz, " current time"));
		timeval v1, v2; gettimeofday(&v1, 0); DateTime a = DateTime::LocalTime(), u = DateTime::UtcTime(); gettimeofday(&v2, 0);
		long m1 = v1.tv_sec * 1000 + v1.tv_usec / 1000, m2 = v2.tv_sec * 1000 + v2.tv_usec / 1000; if ((long)a.osInternal < m1 || (long)a.osInternal > m2) fail("LocalTime: not the current time");
		shows(a, a.osInternal / 1000 + offset(z, a.osInternal / 1000), a.osInternal % 1000, "LocalTime");
		bool near = false; for (long h = -72; h <= 72; h++) if (offset(z, v1.tv_sec + h * 3600) != offset(z, v1.tv_sec)) near = true;
		if (!near) { long s = days(u.year, u.month, u.day) * 86400 + u.hour * 3600 + u.minute * 60 + u.second; if (s * 1000 + u.milliseconds < m1 || s * 1000 + u.milliseconds > m2) fail(S("UtcTime: ", show(u), " is not the current time")); }
	}
	return 0;
}
