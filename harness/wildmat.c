/* P16: wildcard patterns and access lists */
#include "vfh.h"
#ifdef MATCH
#ifndef NS
#define NS 3
#endif
#ifndef NP
#define NP 4
#endif
static const char *p; static char s[NS + 1];
static int len, np;
static int up(int c) { return IC ? c - 32 * ((c >= 'a') & (c <= 'z')) : c; }
/* The documented language: * any string, ? any character, \c the character c,
   [abc] [a-z] one of, [^...] none of.  m[i][j]: s from i matches p from j.
   (Free of branches that depend on s.) */
static int m[NS + 2][NP + 3], wellformed;
static int in_class(int c, int j, int *end)        /* class opened at p[j - 1] */
{
    int rev = p[j] == '^', hit = 0, k;
    *end = NP + 1;
    for (k = j + rev; p[k] && p[k] != ']'; k++) {
        if (p[k + 1] == '-' && p[k + 2] && p[k + 2] != ']') { hit |= (up(c) >= up(p[k])) & (up(c) <= up(p[k + 2])); k += 2; }
        else hit |= up(c) == up(p[k]);
    }
    if (p[k]) *end = k + 1; else wellformed = 0;
    return hit ^ rev;
}
static int matches(void)
{
    int i, j, e;
    wellformed = 1;
    for (j = np; j >= 0; j--)
        for (i = len; i >= 0; i--) {
            int r = 0, more = i < len;
            switch (p[j]) {
            case 0: r = !more; break;
            case '*': r = m[i][j + 1]; if (more) r |= m[i + 1][j]; break;
            case '?': if (more) r = m[i + 1][j + 1]; break;
            case '\\': if (!p[j + 1]) wellformed = 0; else if (more) r = (up(s[i]) == up(p[j + 1])) & m[i + 1][j + 2]; break;
            case '[': r = in_class(s[i], j + 1, &e); r = more && e <= NP ? r & m[i + 1][e] : 0; break;
            default: if (more) r = (up(s[i]) == up(p[j])) & m[i + 1][j + 1];
            }
            m[i][j] = r;
        }
    return m[0][0];
}
static void one(void);
void h_match(void)
{
    static const char *pats[] = { PATS };
    unsigned n;
    /* one path each */
    for (n = 0; n < sizeof(pats) / sizeof(pats[0]); n++) {
        p = pats[n];
        for (np = 0; p[np]; np++) ;
        for (len = 0; len <= NS; len++) if (vf_bool()) { one(); return; }
    }
}
static void one(void)
{
    int i, r, want; char *a, *b;
    a = malloc(len + 1); b = malloc(np + 1); VF_ASSUME(a && b);   /* blocks end where the strings end */
    for (i = 0; i < len; i++) { s[i] = vf_u8(); VF_ASSUME(s[i] != 0); a[i] = s[i]; }
    s[len] = a[len] = 0;
    for (i = 0; i <= np; i++) b[i] = p[i];
    want = matches();
    r = wildmatch(a, b, IC ? TRUE : FALSE);
    VF_CHECK(!wellformed | (!r == !want), "a well-formed pattern matches exactly the names it denotes");
#ifdef MAL
    VF_REACH("malformed");
#else
    VF_CHECK(wellformed, "well-formed");
    if (r) VF_REACH("match"); else VF_REACH("no match");
#endif
}
#endif
#ifdef ACL
/* access lists: words of one arbitrary letter, some of them '*' */
#define LINES 3
#include "tables.h"
static char w1(void) { char c = vf_u8(); VF_ASSUME((c >= 'a') & (c <= 'c')); return c; }
static char em[LINES][2], x[LINES][2], y[LINES][3], z3[LINES][2], gp[LINES][2];
char *s_rfcaddr_to_asc(RFCAddr *r, int b) { (void)b; return r->user; }
int wildmatch(char *s, char *p, int ic) { VF_CHECK(!ic, "access lists respect case"); return (p[0] == '*') | (p[0] == s[0]); }
int wildmat(char *s, char *p) { return wildmatch(s, p, 0); }
#ifndef FTN
/* splitting lists into words is checked by itself; group lists are named by
   one digit, giving the line whose patterns they are */
void list_init(char ***l, char *s)
{
    char **v = malloc(4 * sizeof(char *)); int i;
    VF_ASSUME(v != NULL);
    v[0] = v[1] = v[2] = v[3] = NULL;
    if (!s) return;             /* as the real one */
    if (s == grp) v[0] = grp;
    else { for (i = 0; i < LINES; i++) if (s[0] == '0' + i) { v[0] = x[i]; v[1] = y[i]; v[2] = z3[i]; } }
    *l = v;
}
void list_free(char **v) { (void)v; }
#endif
extern void acl_do_file(char *);
extern int ftnacl_lookup(Node *, Node *, char *);
static const char kinds[] = KINDS;      /* N/E, R/F switch netmail/echomail, rfc2ftn/ftn2rfc; e entry */
static char echo[] = "Echomail", netm[] = "netmail", r2f[] = "rfc2ftn", f2r[] = "FTN2rfc";
static int isnet[LINES], isftn[LINES], isent[LINES], neg[LINES];
static void setup(void)
{
    int i, net = 0, ftn = 0;
    for (i = 0; i < LINES; i++) {
        em[i][0] = i == 1 ? '*' : w1(); x[i][0] = i == 2 ? '*' : w1();
        neg[i] = i != 0;
        y[i][0] = neg[i] ? '!' : w1(); y[i][1] = neg[i] ? w1() : 0;
        z3[i][0] = w1();
        gp[i][0] = '0' + i;
        toks[i][0] = em[i]; toks[i][1] = gp[i];
        switch (kinds[i]) {
        case 'N': toks[i][0] = netm; toks[i][1] = NULL; net = 1; break;
        case 'E': toks[i][0] = echo; toks[i][1] = NULL; net = 0; break;
        case 'R': toks[i][0] = r2f; toks[i][1] = NULL; ftn = 0; break;
        case 'F': toks[i][0] = f2r; toks[i][1] = NULL; ftn = 1; break;
        default: isent[i] = 1;
        }
        isnet[i] = net; isftn[i] = ftn;
    }
}
#ifndef FTN
void h_acl(void)
{
    int i, k, r, pass, want; RFCAddr a; char g;
    setup();
    acl_do_file("f");
    VF_CHECK(vf_open_count == 0, "the file is closed");
    for (pass = 0; pass < 2; pass++) {
        int type = pass == SWAP ? TYPE_ECHOMAIL : TYPE_NETMAIL;
        a.user[0] = w1(); a.user[1] = 0;
        g = w1(); grp[0] = g; grp[1] = 0;
        acl_ngrp(a, type);
        r = acl_ngrp_lookup(grp);
        acl_ngrp_free();
        for (k = -1, i = 0; i < LINES; i++)
            if (isent[i] & !isftn[i] & (isnet[i] == (type == TYPE_NETMAIL)) & ((em[i][0] == '*') | (em[i][0] == a.user[0]))) k = i;
        want = 0;
        for (i = 0; i < LINES; i++) {
            int first = (x[i][0] == '*') | (x[i][0] == g), second = y[i][neg[i]] == g, third = z3[i][0] == g;
            if (k == i) want = neg[i] ? (first & !second) | third : first | second | third;
        }
        VF_CHECK(!r == !want, "the last entry for the sender and in it the last pattern that matches decide; without one nothing is allowed");
        if (r) VF_REACH("allowed"); else VF_REACH("denied");
    }
}
#else
static Node nf, nt;
/* "x,y"; as the real one it writes into the list */
char *xstrtok(char *s, const char *d)
{
    static char *nx; char *r = s ? s : nx;
    (void)d;
    nx = NULL;
    if (r && r[1] == ',') { r[1] = 0; nx = r + 2; }
    return r;
}
void h_ftnacl(void)
{
    int i, pass, r, want; char t;
    setup();
    for (i = 0; i < LINES; i++) { static char pl[LINES][4]; pl[i][0] = x[i][0]; pl[i][1] = ','; pl[i][2] = y[i][neg[i]]; pl[i][3] = 0; toks[i][1] = isent[i] ? pl[i] : NULL; }
    acl_do_file("f");
    for (pass = 0; pass < 2; pass++) {
        from[0] = w1(); grp[0] = w1();
        r = ftnacl_lookup(&nf, pass == SWAP ? NULL : &nt, pass == SWAP ? grp : NULL);
        want = 0;
        for (i = 0; i < LINES; i++)
            want |= isent[i] & isftn[i] & (isnet[i] == (pass != SWAP)) & ((em[i][0] == '*') | (em[i][0] == from[0])) & ((x[i][0] == '*') | (x[i][0] == grp[0]) | (y[i][neg[i]] == grp[0]));
        VF_CHECK(!r == !want, "an address is barred from exactly the areas and nodes whose patterns its entries list, at every look-up");
        if (r) VF_REACH("barred"); else VF_REACH("not barred");
    }
}
#endif
#endif
#ifdef SPLIT
/* a list of words separated by commas, blanks and tabs */
extern void list_init(char ***, char *);
char *strsave(char *s) { char *p = malloc(N + 2); int i; VF_ASSUME(p != NULL); for (i = 0; i <= N; i++) { p[i] = s[i]; if (!s[i]) break; } return p; }
void *xmalloc(int n) { void *p = malloc(8 * sizeof(char *)); (void)n; VF_ASSUME(p != NULL); return p; }
void h_split(void)
{
    char *s = malloc(N + 1), o[N + 1], **v = NULL; int i, k = 0, n = 0, in = 0;
    VF_ASSUME(s != NULL);
    for (i = 0; i < N; i++) { o[i] = s[i] = vf_u8(); }
    o[N] = s[N] = 0;
    list_init(&v, s);
    for (i = 0; i <= N; i++) {
        if (!o[i] || o[i] == ',' || o[i] == ' ' || o[i] == '\t') { if (in) { VF_CHECK(v[n][k] == 0, "the word ends at the separator"); n++; } in = 0; }
        else { if (!in) { in = 1; k = 0; VF_CHECK(v[n] != NULL, "every word is in the list"); } VF_CHECK(v[n][k] == o[i], "the word is unchanged"); k++; }
        if (!o[i]) break;
    }
    VF_CHECK(v[n] == NULL, "nothing else is in the list");
    if (n == 2) VF_REACH("two words");
    if (n == 0) VF_REACH("no word");
}
#endif
