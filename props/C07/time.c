/* Calendar arithmetic: dates, seconds since 1970, comparison, adding durations. */
#include "v.h"
#include "hitls_build.h"
#include "bsl_sal.h"
#include "bsl_errno.h"
#include "sal_time.h"
#include <time.h>
#ifndef YHI
#define YHI 1970
#endif

static bool Leap(uint32_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static uint32_t MonthDays(uint32_t y, uint32_t m) { return m == 2 ? (Leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
static bool Valid(const BSL_TIME *t)
{
    return t->year >= 1970 && t->month >= 1 && t->month <= 12 && t->day >= 1 && t->day <= MonthDays(t->year, t->month) && t->hour <= 23 && t->minute <= 59 && t->second <= 59 && t->millSec <= 999 && t->microSec <= 999;
}
/* days since 1970-01-01, by the definition of the calendar */
static int64_t Days(uint32_t y, uint32_t m, uint32_t d)
{
    int64_t n = d - 1;
    for (uint32_t i = 1970; i < YHI + 8; i++) { if (i < y) { n += Leap(i) ? 366 : 365; } }
    for (uint32_t i = 1; i < 12; i++) { if (i < m) { n += MonthDays(y, i); } }
    return n;
}
static int64_t Secs(const BSL_TIME *t) { return Days(t->year, t->month, t->day) * 86400 + t->hour * 3600 + t->minute * 60 + t->second; }
static BSL_TIME NdTime(void)
{
    BSL_TIME t = { 0 };
    t.year = nd16(); t.month = nd8(); t.day = nd8(); t.hour = nd8(); t.minute = nd8(); t.second = nd8(); t.millSec = nd16(); t.microSec = nd16();
    return t;
}
/* gmtime_r: any valid date, remembered together with the second count it was asked for; that the real pair agrees is its
 * specification (only natively can it be compared, see Secs) */
static int64_t g_asked; static BSL_TIME g_given; static uint32_t g_calls;
#ifdef VF_CBMC
struct tm *gmtime_r(const time_t *t, struct tm *r)
{
    BSL_TIME x = NdTime();
    V_ASSUME(Valid(&x));
    r->tm_year = x.year - 1900; r->tm_mon = x.month - 1; r->tm_mday = x.day; r->tm_hour = x.hour; r->tm_min = x.minute; r->tm_sec = x.second;
    g_asked = *t; g_given = x; g_calls++;
    return r;
}
static bool Denotes(const BSL_TIME *o, int64_t secs)
{
    return g_calls == 1 && g_asked == secs && o->year == g_given.year && o->month == g_given.month && o->day == g_given.day && o->hour == g_given.hour && o->minute == g_given.minute && o->second == g_given.second;
}
#else
static bool Denotes(const BSL_TIME *o, int64_t secs) { return Valid(o) && Secs(o) == secs; }
#endif

#ifdef H_CHECK
void harness(void)
{
    BSL_TIME a = NdTime();
    V_ASSERT(BSL_DateTimeCheck(&a) == Valid(&a), "a date-time is valid exactly when it exists in the calendar");
    if (Valid(&a)) { V_WITNESS("valid"); } else { V_WITNESS("invalid"); }
}
#endif
#ifdef H_CONV   /* midnight of every day */
static void body(uint32_t y)
{
    BSL_TIME a = { 0 };
    a.year = y; a.month = nd8(); a.day = nd8();
    int64_t s = -5;
    int32_t r = BSL_SAL_DateToUtcTimeConvert(&a, &s);
    V_ASSERT((r == BSL_SUCCESS) == Valid(&a), "exactly valid dates convert");
    if (r == BSL_SUCCESS) { V_ASSERT(s == Secs(&a), "seconds since 1970-01-01"); V_WITNESS("converted"); }
}
void harness(void)
{
    uint32_t y = nd_range(YLO, YHI);
    V_SPLIT(y, YLO, YHI, body);
}
#endif
#ifdef H_TOD    /* every time of day */
void harness(void)
{
    BSL_TIME a = NdTime();
    a.year = 1972; a.month = 2; a.day = 29;
    BSL_TIME m = { .year = 1972, .month = 2, .day = 29 };
    int64_t s = -5, s0 = 0;
    int32_t r = BSL_SAL_DateToUtcTimeConvert(&a, &s);
    V_ASSERT((r == BSL_SUCCESS) == Valid(&a), "exactly valid times convert");
    V_ASSERT(BSL_SAL_DateToUtcTimeConvert(&m, &s0) == BSL_SUCCESS && s0 == 789 * 86400LL, "midnight");
    if (r == BSL_SUCCESS) { V_ASSERT(s == s0 + a.hour * 3600 + a.minute * 60 + a.second, "seconds of the day are added"); V_WITNESS("converted"); }
}
#endif
#ifdef H_CMP
void harness(void)
{
    BSL_TIME a = NdTime(), b = NdTime();
    V_ASSUME(a.year <= YHI && b.year <= YHI);
    int64_t d = 0, sa = 0, sb = 0;
    bool va = BSL_SAL_DateToUtcTimeConvert(&a, &sa) == BSL_SUCCESS, vb = BSL_SAL_DateToUtcTimeConvert(&b, &sb) == BSL_SUCCESS;
    int32_t r = BSL_SAL_DateTimeCompare(&a, &b, &d), u = BSL_SAL_DateTimeCompareByUs(&a, &b);
    if (!va || !vb) {
        V_ASSERT((uint32_t)r == BSL_TIME_CMP_ERROR && (uint32_t)u == BSL_TIME_CMP_ERROR, "invalid dates do not compare");
        return;
    }
    uint32_t fa = a.millSec * 1000u + a.microSec, fb = b.millSec * 1000u + b.microSec;
    uint32_t want = sa < sb ? BSL_TIME_DATE_BEFORE : sa > sb ? BSL_TIME_DATE_AFTER : BSL_TIME_CMP_EQUAL;
    V_ASSERT((uint32_t)r == want && d == sa - sb, "dates are ordered by time, and the difference is in seconds");
    uint32_t wu = want != BSL_TIME_CMP_EQUAL ? want : fa < fb ? BSL_TIME_DATE_BEFORE : fa > fb ? BSL_TIME_DATE_AFTER : BSL_TIME_CMP_EQUAL;
    V_ASSERT((uint32_t)u == wu, "order at microsecond precision");
    V_WITNESS("compared");
}
#endif
#ifdef H_ADDUS
void harness(void)
{
    BSL_TIME a = NdTime(), o = { 0 };
    V_ASSUME(a.year <= YHI);
    V_ASSUME(Valid(&a));
    uint32_t us = nd32();
    V_ASSUME(us >= USLO && us <= USHI);
    int32_t r = BSL_DateTimeAddUs(&o, &a, us);
    V_ASSERT(r == BSL_SUCCESS, "a valid date can be advanced");
    int64_t base = 0;
    V_ASSERT(BSL_SAL_DateToUtcTimeConvert(&a, &base) == BSL_SUCCESS, "a valid date converts");
    uint64_t x = (uint64_t)us + a.microSec;
    uint64_t y = x / 1000 + a.millSec;
    V_ASSERT(o.microSec == x % 1000 && o.millSec == y % 1000, "the fraction of a second is advanced");
    V_ASSERT(Denotes(&o, base + (int64_t)(y / 1000)), "the result is later by exactly the given microseconds");
    V_WITNESS("added");
}
#endif
#ifdef H_ADDDAY
void harness(void)
{
    BSL_TIME a = NdTime(), o = { 0 };
    V_ASSUME(a.year <= YHI);
    int32_t day = (int32_t)nd32();
    int64_t sec = (int64_t)nd64();
    int64_t base = 0;
    bool valid = BSL_SAL_DateToUtcTimeConvert(&a, &base) == BSL_SUCCESS;
    __int128 total = valid ? (__int128)base + (__int128)day * 86400 + sec : 0;
    V_ASSUME(!valid || total >= 0);
    BSL_TIME *dst = ndbool() ? &a : &o;
    BSL_TIME in = a;
    int32_t r = BSL_DateTimeAddDaySecond(dst, &a, day, sec);
    V_ASSERT((r == BSL_SUCCESS) == (valid && total <= 2005949145599LL), "the sum exists exactly when it lies within the calendar");
    if (r == BSL_SUCCESS) {
        V_ASSERT(Denotes(dst, (int64_t)total), "the result differs by exactly the given days and seconds");
        V_ASSERT(dst->millSec == in.millSec && dst->microSec == in.microSec, "fractions of a second are kept");
        V_WITNESS("added");
    }
}
#endif
