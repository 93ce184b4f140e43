/* P09: bounded string operations */
#include "vfh.h"
#ifndef L
#define L 4            /* longest source string */
#endif
#ifndef D
#define D 8            /* largest destination size */
#endif
#define GUARD 4
static char d[D + GUARD], c0[D + GUARD], full[5 * L + D + 2];
static char s1[L + 1], s2[L + 1], s3[L + 1], s4[L + 1], s5[L + 1];
static int n, fl;

static void setup(void)
{
    n = vf_range(1, D);
    vf_bytes(d, D + GUARD);
    memcpy(c0, d, sizeof(d));
    vf_str(s1, L); vf_str(s2, L); vf_str(s3, L); vf_str(s4, L); vf_str(s5, L);
    fl = 0;
}
static void add(const char *s)
{
    int i;
    for (i = 0; i <= (int)L && s[i]; i++) full[fl++] = s[i];
}
static void verify(void)
{
    int i, want = fl < n ? fl : n - 1;
    for (i = 0; i < D + GUARD; i++)
        if (i >= n)
            VF_CHECK(d[i] == c0[i], "nothing is written behind the stated size");
    for (i = 0; i < D; i++) {
        if (i < want)
            VF_CHECK(d[i] == full[i], "result is the longest prefix that fits");
        if (i == want)
            VF_CHECK(d[i] == 0, "result is NUL-terminated inside its size");
    }
}
void h_copy(void)
{
    setup();
    add(s1);
    str_copy(d, n, s1);
    verify();
    VF_REACH("copied");
}
void h_copy2(void) { setup(); add(s1); add(s2); str_copy2(d, n, s1, s2); verify(); VF_REACH("copied"); }
void h_copy3(void) { setup(); add(s1); add(s2); add(s3); str_copy3(d, n, s1, s2, s3); verify(); VF_REACH("copied"); }
void h_copy4(void) { setup(); add(s1); add(s2); add(s3); add(s4); str_copy4(d, n, s1, s2, s3, s4); verify(); VF_REACH("copied"); }
void h_copy5(void) { setup(); add(s1); add(s2); add(s3); add(s4); add(s5); str_copy5(d, n, s1, s2, s3, s4, s5); verify(); VF_REACH("copied"); }
static void setup_append(void)
{
    int i, k;
    setup();
    k = vf_range(0, D - 1);
    VF_ASSUME(k < n);
    for (i = 0; i < D; i++)
        if (i < k) { VF_ASSUME(d[i] != 0); full[fl++] = d[i]; }
    d[k] = 0;
    memcpy(c0, d, sizeof(d));
}
void h_append(void) { setup_append(); add(s1); str_append(d, n, s1); verify(); VF_REACH("appended"); }
void h_append2(void) { setup_append(); add(s1); add(s2); str_append2(d, n, s1, s2); verify(); VF_REACH("appended"); }
void h_printf(void)
{
    setup();
    add(s1); full[fl++] = '/'; add(s2);
    str_printf(d, n, "%s/%s", s1, s2);
    verify();
    VF_REACH("formatted");
}
void h_range(void)
{
    int a, i;
    setup();
    a = vf_range(0, L);
    for (i = 0; i < (int)L; i++) if (i < a) { VF_ASSUME(s1[i] != 0); full[fl++] = s1[i]; }
    str_copy_range(d, n, s1, s1 + a);
    verify();
    VF_REACH("range copied");
}
void h_change_ext(void)
{
    int i, lo, le;
    setup();
    lo = strlen(s1); le = strlen(s2);
    VF_ASSUME(le >= 1 && le <= lo && lo < n);
    for (i = 0; i < (int)L; i++) if (i < lo - le) full[fl++] = s1[i];
    add(s2);
    str_change_ext(d, n, s1, s2);
    verify();
    VF_REACH("extension changed");
}
void h_expand(void)
{
    setup();
    VF_ASSUME(s1[0] != '%');
    add(s1);
    str_expand_name(d, n, s1);
    verify();
    VF_REACH("expanded");
}
/* in-place trimming: never outside the string, exact result */
void h_strip_crlf(void)
{
    char *p = malloc(L + 1), r[L + 1];
    int i, l;
    vf_str(p, L);
    memcpy(r, p, L + 1);
    l = strlen(r);
    if (l > 0 && r[l - 1] == '\n') r[--l] = 0;
    if (l > 0 && r[l - 1] == '\r') r[--l] = 0;
    strip_crlf(p);
    for (i = 0; i <= l; i++) VF_CHECK(p[i] == r[i], "exactly one line end is removed");
    VF_REACH("stripped");
}
void h_strip_space(void)
{
    char *p = malloc(L + 1), r[L + 1], *q;
    int i, l, b = 0;
    vf_str(p, L);
    memcpy(r, p, L + 1);
    l = strlen(r);
#define SP(c) ((c) == ' ' || (c) == '\t' || (c) == '\r' || (c) == '\n')
    while (l > 0 && SP(r[l - 1])) r[--l] = 0;
    while (b < l && SP(r[b])) b++;
    q = strip_space(p);
    for (i = 0; i <= l - b; i++) VF_CHECK(q[i] == r[b + i], "white space at both ends is removed, nothing else");
    VF_REACH("stripped");
}
void h_last(void)
{
    int l;
    setup();
    l = strlen(s1);
    VF_ASSUME(l >= 1);
    VF_CHECK(str_last(s1, L + 1) == s1[l - 1], "last character");
    VF_REACH("last");
}
void h_case(void)
{
    char r[L + 1]; int i;
    setup();
    memcpy(r, s1, L + 1);
    str_lower(s1);
    for (i = 0; i <= L; i++) { VF_CHECK(s1[i] == (r[i] >= 'A' && r[i] <= 'Z' ? r[i] + 32 : r[i]), "lower case"); if (!r[i]) break; }
    memcpy(r, s2, L + 1);
    str_upper(s2);
    for (i = 0; i <= L; i++) { VF_CHECK(s2[i] == (r[i] >= 'a' && r[i] <= 'z' ? r[i] - 32 : r[i]), "upper case"); if (!r[i]) break; }
    VF_REACH("case changed");
}
