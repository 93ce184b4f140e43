/* P30: dates and time zones */
#include "vfh.h"
/* environment: clock, time zone of the system, calendar conversion */
static long sys_tz; static time_t sys_now;
void GetTimeInfo(TIMEINFO *t) { t->time = sys_now; t->usec = 0; t->tzone = sys_tz; t->isdst = 0; }
static struct tm tm_out; static time_t tm_arg; static int tm_n;
struct tm *vf_gmtime(const time_t *t) { tm_arg = *t; tm_n++; return &tm_out; }
struct tm *vf_localtime(const time_t *t) { (void)t; return &tm_out; }
time_t vf_time(time_t *t) { if (t) *t = sys_now; return sys_now; }
int vf_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = sys_now; t->tv_usec = 0; return 0; }
time_t vf_mktime(struct tm *t) { (void)t; return sys_now; }
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *t) { (void)f; (void)t; if (n < 2) return 0; b[0] = 'Z'; b[1] = 0; return 1; }
static int dig(char c) { return c >= '0' && c <= '9'; }
static int two(const char *p) { VF_CHECK(dig(p[0]) && dig(p[1]), "a number is printed as two digits"); return (p[0] - '0') * 10 + (p[1] - '0'); }
static const char days[] = "SunMonTueWedThuFriSat", months[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
static void any_tm(void)
{
    tm_out.tm_sec = vf_range(0, 60); tm_out.tm_min = vf_range(0, 59); tm_out.tm_hour = vf_range(0, 23);
    tm_out.tm_mday = vf_range(1, 31); tm_out.tm_mon = vf_range(0, 11); tm_out.tm_year = vf_range(70, 199); tm_out.tm_wday = vf_range(0, 6); tm_out.tm_yday = vf_range(0, 365);
}
/* the offset text: sign, hours and minutes, with or without sign */
void h_offset(void)
{
    char tz[6], *r; int k = 0, sign = SIGN, h = vf_range(0, 23), m = vf_range(0, 59); time_t t = vf_u32(); long off;
    if (sign == 1) tz[k++] = '+';
    if (sign == 2) tz[k++] = '-';
    tz[k++] = '0' + h / 10; tz[k++] = '0' + h % 10; tz[k++] = '0' + m / 10; tz[k++] = '0' + m % 10; tz[k] = 0;
    off = h * 60 + m; if (sign == 2) off = -off;
    sys_tz = vf_range(-840, 840); sys_now = vf_u32();
    VF_ASSUME(off != 1 && off != -1);   /* one minute doubles as "not given" */
    VF_CHECK(date_tz_str_to_time(tz) == off, "the offset is read with its sign");
    any_tm();
    r = date_tz("%O", &t, tz);
    VF_CHECK(tm_n == 1 && tm_arg == t + off * 60, "local time is UTC plus the offset");
    VF_CHECK(r[0] == (off < 0 ? '-' : '+') && two(r + 1) == h && two(r + 3) == m && r[5] == 0, "the offset is printed with its sign");
    r = date_tz("%N", &t, tz);
    if (off < 0) { VF_CHECK(r[0] == '-' && two(r + 1) == h && two(r + 3) == m && r[5] == 0, "TZUTC form of a negative offset"); 
#if SIGN == 2
        VF_REACH("west");
#endif
    }
    else { VF_CHECK(two(r) == h && two(r + 2) == m && r[4] == 0, "TZUTC form of a positive offset"); VF_REACH("east"); }
}
/* without (usable) offset the system's own time zone counts */
void h_system(void)
{
    char *r, bad[3]; time_t t = vf_u32(); long off; int which = vf_range(0, 2);
    sys_tz = vf_range(-840, 840); sys_now = vf_u32(); any_tm();
    off = -sys_tz;
    vf_str(bad, 2); VF_ASSUME(!dig(bad[0]) || !bad[1]);
    if (bad[0] == '+' || bad[0] == '-') VF_ASSUME(1);
    r = which == 0 ? date("%O", &t) : which == 1 ? date_tz("%O", &t, NULL) : date_tz("%O", NULL, NULL);
    VF_CHECK(tm_arg == (which == 2 ? sys_now : t) + off * 60, "the system's time zone is applied");
    VF_CHECK(r[0] == (off < 0 ? '-' : '+') && two(r + 1) == (off < 0 ? -off : off) / 60 && two(r + 3) == (off < 0 ? -off : off) % 60, "the system's offset is printed");
    t = -1;
    VF_CHECK(strcmp(date(NULL, &t), "INVALID") == 0, "an invalid time is not printed as a date");
    VF_REACH("system");
}
static void chk_mon(const char *p, int m) { int i; for (i = 0; i < 12; i++) if (i == m) VF_CHECK(p[0] == months[3 * i] && p[1] == months[3 * i + 1] && p[2] == months[3 * i + 2], "month name"); }
static void chk_day(const char *p, int d) { int i; for (i = 0; i < 7; i++) if (i == d) VF_CHECK(p[0] == days[3 * i] && p[1] == days[3 * i + 1] && p[2] == days[3 * i + 2], "name of the weekday"); }
void h_format(void)
{
    time_t t = vf_u32(); char *r;
    sys_tz = 0; any_tm();
#if FMT == 0                                    /* FTS-0001: 01 Jan 86  02:34:56 */
    r = date(DATE_FTS_0001, &t);
    VF_CHECK(strlen(r) == 19, "length of a FTS-0001 date");
    VF_CHECK(two(r) == tm_out.tm_mday && two(r + 7) == tm_out.tm_year % 100 && two(r + 11) == tm_out.tm_hour && two(r + 14) == tm_out.tm_min && two(r + 17) == tm_out.tm_sec, "numbers of a FTS-0001 date");
    chk_mon(r + 3, tm_out.tm_mon);
    VF_CHECK(r[2] == ' ' && r[6] == ' ' && r[9] == ' ' && r[10] == ' ' && r[13] == ':' && r[16] == ':', "separators of a FTS-0001 date");
#elif FMT == 1                                  /* Mon, 02 Jan 2006 15:04:05 +0000 */
    r = date(DATE_NEWS, &t);
    VF_CHECK(strlen(r) == 31, "length of a RFC date");
    VF_CHECK(two(r + 5) == tm_out.tm_mday && two(r + 12) * 100 + two(r + 14) == tm_out.tm_year + 1900 && two(r + 17) == tm_out.tm_hour && two(r + 20) == tm_out.tm_min && two(r + 23) == tm_out.tm_sec, "numbers of a RFC date");
    chk_day(r, tm_out.tm_wday); chk_mon(r + 8, tm_out.tm_mon);
    VF_CHECK(r[3] == ',' && r[4] == ' ' && r[7] == ' ' && r[11] == ' ' && r[16] == ' ' && r[19] == ':' && r[22] == ':' && r[25] == ' ', "separators of a RFC date");
#else                                           /* 20060102.150405.0000 */
    r = date("%Y%m%d.%H%M%S.%N", &t);
    VF_CHECK(strlen(r) == 20 && two(r) * 100 + two(r + 2) == tm_out.tm_year + 1900 && two(r + 4) == tm_out.tm_mon + 1 && two(r + 6) == tm_out.tm_mday && r[8] == '.' && two(r + 9) == tm_out.tm_hour && two(r + 11) == tm_out.tm_min && two(r + 13) == tm_out.tm_sec && r[15] == '.', "Via date");
#endif
    VF_REACH("format");
}
/* the zone part of an RFC date */
void h_rfc_tz(void)
{
    char b[N + 1], *r; int i, last = -1, prev = -1, want = -1, utc = 0;
    vf_str(b, N);
    for (i = 0; i < N; i++) { if (!b[i]) break; if (b[i] == ' ') { prev = last; last = i; } }
    if (last >= 0) {
        char *p = b + last + 1;
        if (*p == '+' || *p == '-') want = last + 1;
        else if (p[0] && p[1] && p[2] && ((p[0] == 'G' && p[1] == 'M' && p[2] == 'T') || (p[0] == 'U' && p[1] == 'T' && p[2] == 'C'))) utc = 1;
        else if (prev >= 0 && (b[prev + 1] == '+' || b[prev + 1] == '-')) want = prev + 1;
    }
    r = date_rfc_tz(b);
    if (utc) { VF_CHECK(r != NULL && strcmp(r, "+0000") == 0, "GMT and UTC are offset 0"); VF_REACH("utc"); }
    else if (want >= 0) { VF_CHECK(r == b + want, "the offset is found behind the last or the last but one blank"); VF_REACH("offset"); }
    else { VF_CHECK(r == NULL, "no offset is made up"); VF_REACH("none"); }
}
