#include "h.h"
#include "date.h"
static long dse(long y, int m, int d)          /* days of the proleptic Gregorian date since 1970-01-01 */
{
    static const int cum[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
    long p = y - 1;
    long f4 = p >= 0 ? p / 4 : -((-p + 3) / 4), f100 = p >= 0 ? p / 100 : -((-p + 99) / 100), f400 = p >= 0 ? p / 400 : -((-p + 399) / 400);
    bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    return p * 365 + f4 - f100 + f400 - 719162 + cum[m - 1] + (m > 2 && leap) + d - 1;
}
static void one(time_t t)
{
    static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    struct tm tm, *r;
    memset(&tm, 0x5a, sizeof tm);
    reset();
    note("epoch %ld", (long) t);
    r = epoch_to_utc(t, &tm);
    CK(r == &tm, "result pointer");
    long y = tm.tm_year + 1900L;
    bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    CK(tm.tm_mon >= 0 && tm.tm_mon < 12, "month %d", tm.tm_mon);
    CK(tm.tm_mday >= 1 && tm.tm_mday <= len[tm.tm_mon] + (tm.tm_mon == 1 && leap), "day %d", tm.tm_mday);
    CK(tm.tm_hour >= 0 && tm.tm_hour < 24 && tm.tm_min >= 0 && tm.tm_min < 60 && tm.tm_sec >= 0 && tm.tm_sec < 60, "time of day");
    long d = dse(y, tm.tm_mon + 1, tm.tm_mday);
    CK(d * 86400 + tm.tm_hour * 3600L + tm.tm_min * 60 + tm.tm_sec == t, "the fields %ld-%d-%d %d:%d:%d denote another instant", y, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
    CK(tm.tm_wday == ((d + 4) % 7 + 7) % 7, "weekday %d", tm.tm_wday);
    CK(tm.tm_isdst == 0, "daylight saving");
}
int main(void)
{
    begin();
    long d, k;
    const long L = 1826212500L;
    for (d = -200000; d < 200000; d++) {
        if (d % 5000 == 0 && !more())
            break;
        one(d * 86400);
        one(d * 86400 + 86399);
        one(d * 86400 + (d & 0xffff));
    }
    for (d = -146097 * 20L; d < 146097 * 20L && more(); d += 97)
        one(d * 86400 + 43200);
    for (k = 0; k < 100; k++) {
        one((L - k) * 86400);
        one((-L + k) * 86400);
        one((-L + k) * 86400 - 1 + 86400);
    }
    while (more())
        for (k = 0; k < 1000; k++) {
            d = (long) below(2 * L) - L;
            if (below(2))
                d /= 1 + (long) below(1000);
            one(d * 86400 + (long) below(86400));
        }
    return 0;
}
