// DateTime.cpp: proleptic Gregorian calendar
#include "vfply.h"
#include <ply-runtime/time/DateTime.h>
namespace ply { void setDateFromEpochDays(DateTime* dateTime, s32 days); s32 getEpochDaysFromDate(const DateTime& dateTime); }
static const u32 CUM[13] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
static bool leap(u32 y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
// days from 1 January of year 0 of a date in a 400-year cycle, by definition (sum of year and month lengths)
static u32 dayNumber(u32 y, u32 m, u32 d) { return y * 365 + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400 + CUM[m - 1] + (m > 2 && leap(y)) + d - 1; }
static u32 monthLen(u32 y, u32 m) { return CUM[m] - CUM[m - 1] + (m == 2 && leap(y)); }
// the years of cycle 0 (cycles of 400 years start on 1 March), split into one case per year: day k of year y
template <u32 Q> static void civil() {
    u32 y = vf_nd32(), k = vf_nd32();
    vf_assume(y >= Q && y < Q + 50 && k < 365 + leap(y + 1));
    for (u32 y0 = Q; y0 < Q + 50; y0++) {
        if (y == y0) {
            s32 days = (s32) (y0 * 365 + y0 / 4 - y0 / 100 + k) - 719468;
            DateTime t;
            setDateFromEpochDays(&t, days);
            vf_cover("end");
            u32 Y = k >= 306 ? y0 + 1 : y0;
            vf_assert(t.year == Y, "ten months of the year that began before, two of the next");
            vf_assert(t.month >= 1 && t.month <= 12, "month range");
            vf_assert(t.day >= 1 && t.day <= monthLen(Y, t.month), "day range");
            vf_assert(dayNumber(Y, t.month, t.day) == days + 719528, "calendar day");
        }
    }
}
VF_HARNESS(civil0) { civil<0>(); }
VF_HARNESS(civil50) { civil<50>(); }
VF_HARNESS(civil100) { civil<100>(); }
VF_HARNESS(civil150) { civil<150>(); }
VF_HARNESS(civil200) { civil<200>(); }
VF_HARNESS(civil250) { civil<250>(); }
VF_HARNESS(civil300) { civil<300>(); }
VF_HARNESS(civil350) { civil<350>(); }

// every other cycle repeats cycle 0
VF_HARNESS(cycle) {
    s32 c = (s32) vf_nd32(); u32 r = vf_nd32();
    vf_assume(c >= -740 && c <= 740 && r < 146097);
    DateTime t, u;
    vf_trust(true);
    setDateFromEpochDays(&t, (s32) r - 719468);
    setDateFromEpochDays(&u, c * 146097 + (s32) r - 719468);
    vf_trust(false);
    vf_cover("end");
    vf_assert(u.year == t.year + 400 * c && u.month == t.month && u.day == t.day, "the calendar repeats every 400 years");
}
VF_HARNESS(weekday) {
    s32 w = (s32) vf_nd32(); u32 j = vf_nd32();
    vf_assume(w >= -15400000 && w < 15400000 && j < 7);
    for (u32 j0 = 0; j0 < 7; j0++) {
        if (j == j0) {
            DateTime t;
            vf_trust(true);
            setDateFromEpochDays(&t, 7 * w + (s32) j0);
            vf_trust(false);
            vf_assert(t.weekday == (j0 + 4) % 7, "1970-01-01 is a Thursday, and weekdays repeat every seven days");
        }
    }
}
template <u32 Q> static void epochDays() {
    s32 c = (s32) vf_nd32(); u32 y = vf_nd32(), m = vf_nd8(), d = vf_nd8();
    vf_assume(c >= -740 && c <= 740 && y >= Q && y < Q + 100 && m >= 1 && m <= 12 && d >= 1 && d <= monthLen(y, m));
    DateTime t;
    t.year = c * 400 + (s32) y; t.month = m; t.day = d;
    s32 r = getEpochDaysFromDate(t);
    vf_cover("end");
    vf_assert(r == c * 146097 + (s32) dayNumber(y, m, d) - 719528, "day number of a date");
}
VF_HARNESS(epochDays0) { epochDays<0>(); }
VF_HARNESS(epochDays100) { epochDays<100>(); }
VF_HARNESS(epochDays200) { epochDays<200>(); }
VF_HARNESS(epochDays300) { epochDays<300>(); }
// time of day; the calendar part is the contract of the two day functions above
s32 ghost_days; DateTime ghost_date;
extern "C" void contract_setDate(DateTime* t, s32 days);
void contract_setDate(DateTime* t, s32 days) {
    vf_assert(days >= -108000000 && days <= 108000000, "precondition");
    ghost_days = days;
    t->year = (s32) vf_nd32(); t->month = vf_nd8(); t->day = vf_nd8(); t->weekday = vf_nd8();
    ghost_date = *t;
}
extern "C" s32 contract_getDays(const DateTime& t);
s32 contract_getDays(const DateTime& t) {
    vf_assert(t.year == ghost_date.year && t.month == ghost_date.month && t.day == ghost_date.day, "the date of the original");
    return ghost_days;
}
VF_HARNESS(timeOfDay) {
    s32 d = (s32) vf_nd32(); u32 h = vf_nd8(), m = vf_nd8(), s = vf_nd8(), f = vf_nd32();
    vf_assume(d >= -106751990 && d <= 106751990 && h < 24 && m < 60 && s < 60 && f < 1000000);
    s64 us = (s64) d * 86400000000ll + (s64) (((h * 60 + m) * 60 + s)) * 1000000 + f;
    DateTime t = DateTime::fromEpochMicroseconds(us);
    vf_cover("end");
    if (vf_symbolic()) vf_assert(ghost_days == d, "day: rounded towards the past");
    else { DateTime u; setDateFromEpochDays(&u, d); vf_assert(t.year == u.year && t.month == u.month && t.day == u.day && t.weekday == u.weekday, "day"); }
    vf_assert(t.hour == h && t.minute == m && t.second == s && t.microseconds == f, "time of day");
    vf_assert(t.toEpochMicroseconds() == us, "round trip");
}
