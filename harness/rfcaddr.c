/* P32: Internet address fields */
#include "vfh.h"
/* tables and configuration are not part of this property */
Host *hosts_lookup(Node *n, char *name) { (void)n; (void)name; return NULL; }
char *cf_fqdn(void) { return "g"; }
int charset_is_7bit(char *s, size_t n) { size_t i; for (i = 0; i < n; i++) if (s[i] & 0x80) return 0; return 1; }
char *str_ftn_to_inet(char *s, size_t n, Node *node, int c) { (void)node; (void)c; str_copy(s, n, "f.z"); return s; }
char *node_to_pfnz(Node *n) { (void)n; return "p"; }
/* temporary strings (growing allocations) replaced by one buffer */
char *s_printf(const char *fmt, ...)
{ static char b[3 * 16]; va_list ap; va_start(ap, fmt); vf_vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); return b; }
#ifndef N
#define N 6
#endif
static char in[N + 1], work[3 * N + 16];
static int eq(const char *a, const char *b, int max) { int i; for (i = 0; i < max; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
/* a string of 0..n (1..n) characters allowed in an atom / a plain name */
static void atom(char *p, int n, int least)
{
    int i;
    vf_str(p, n);
    VF_ASSUME(strlen(p) >= (size_t)least);
    for (i = 0; i < n; i++) {
        if (!p[i]) break;
        VF_ASSUME(p[i] > ' ' && p[i] < 127 && !strchr("()<>@,;:\\\"[]!%", p[i]));
    }
}
/* any text: nothing outside the buffers, every part NUL-terminated */
void h_any(void)
{
    RFCAddr r;
    char *f = malloc(N + 1);
    int i, n = vf_range(0, N);
    VF_ASSUME(f != NULL);
    vf_bytes(f, N + 1);
    for (i = 0; i < N; i++) VF_ASSUME((f[i] == 0) == (i >= n));
    f[N] = 0;
    r = rfcaddr_from_rfc(f);
    VF_CHECK(strlen(r.user) < MAXUSERNAME && strlen(r.real) < MAXUSERNAME && strlen(r.addr) < MAXINETADDR, "every part is terminated inside its buffer");
    /* what is taken apart comes from the field */
    for (i = 0; i < N; i++) { if (!r.user[i]) break; VF_CHECK(strchr(f, r.user[i]) != NULL, "the user name consists of characters of the field"); }
    VF_REACH("parsed");
}
/* every well-formed field comes apart exactly as written */
static char user[3], dom[3], real[3], a1[3], a2[3];
void h_forms(void)
{
    RFCAddr r;
    int form = FORM, sp = SP;          /* spaces around the parts */
    char *S = sp ? " " : "";
    atom(user, 2, 1); atom(dom, 2, 1); atom(real, 2, 1);
    if (sp) { vf_str(real, 2); VF_ASSUME(strlen(real) == 2 && real[0] > 'A' && real[0] < 127 && real[1] > ' ' && !strchr("()<>\"", real[1])); VF_ASSUME(real[1] < 127); }
    work[0] = 0;
    switch (form) {
    case 0: strcat(work, S); strcat(work, user); strcat(work, "@"); strcat(work, dom); strcat(work, S); break;
    case 1: strcat(work, user); strcat(work, "@"); strcat(work, dom); strcat(work, " ("); strcat(work, S); strcat(work, real); strcat(work, S); strcat(work, ")"); break;
    case 2: strcat(work, S); strcat(work, real); strcat(work, " <"); strcat(work, user); strcat(work, "@"); strcat(work, dom); strcat(work, ">"); break;
    case 3: strcat(work, "\""); strcat(work, S); strcat(work, real); strcat(work, S); strcat(work, "\" <"); strcat(work, user); strcat(work, "@"); strcat(work, dom); strcat(work, ">"); break;
    case 4: strcat(work, dom); strcat(work, "!"); strcat(work, user); break;
    case 5: strcat(work, user); strcat(work, "%"); strcat(work, dom); break;
    case 6: strcat(work, user); break;
    }
    r = rfcaddr_from_rfc(work);
    VF_CHECK(eq(r.user, user, 3), "the user name is the one written");
    VF_CHECK(eq(r.addr, form == 6 ? "" : dom, 3), "the domain is the one written");
    VF_CHECK(eq(r.real, form >= 1 && form <= 3 ? real : "", 3), "the full name is the one written");
    VF_REACH("form");
}
/* Internet address generated for an FTN user */
void h_from_ftn(void)
{
    RFCAddr r; Node n;
    char want[2 * N + 3], wreal[N + 1];
    int i, k = 0, q = 0, m = 0, dots = vf_bool(), z = vf_bool(), fb = 0;
    vf_str(in, N);
    vf_any_node(&n, 65535); if (z) n.zone = -1;
    if (dots) rfcaddr_dot_names();
    rfcaddr_fallback_username(vf_bool() ? "fb" : NULL);
    for (i = 0; i < N; i++) { if (!in[i]) break; if (in[i] & 0x80) fb = 1; if (strchr("()<>@,;:\\\"[]", in[i])) q = 1; }
    r = rfcaddr_from_ftn(in, &n);
    if (fb) { VF_CHECK(r.user[0] != 0, "a user name is there"); VF_REACH("8 bit name"); }
    else {
        if (q) want[k++] = '"';
        for (i = 0; i < N; i++) { char c = in[i]; if (!c) break; if (c > 0 && c < ' ') c = '_'; if (c == '"' || c == '\\') continue; if (c == ' ') c = dots ? '.' : '_'; want[k++] = c; }
        if (q) want[k++] = '"';
        want[k] = 0;
        VF_CHECK(eq(r.user, want, 2 * N + 3), "the user name is the FTN name, quoted where RFC 822 needs it");
        VF_REACH("7 bit name");
    }
    for (i = 0; i < N; i++) { if (!in[i]) break; if (in[i] != '<' && in[i] != '>') wreal[m++] = in[i]; }
    for (i = N; i > 0; i--) if (m == i && wreal[i - 1] == ' ') m--;
    wreal[m] = 0;
    VF_CHECK(eq(r.real, wreal, N + 1), "the full name is the FTN name without trailing spaces");
    VF_CHECK(eq(r.addr, z ? FTN_INVALID_DOMAIN : "f.z", 64), "the domain is that of the node");
}
/* a name too long for the buffers */
void h_from_ftn_long(void)
{
    RFCAddr r; Node n;
    vf_str(in, N); vf_any_node(&n, 65535);
    rfcaddr_fallback_username(vf_bool() ? "fallback-user" : NULL);
    r = rfcaddr_from_ftn(in, &n);
    VF_CHECK(strlen(r.user) < MAXUSERNAME && strlen(r.real) < MAXUSERNAME && strlen(r.addr) < MAXINETADDR, "every part is terminated inside its buffer");
    if (r.user[0] == '"') VF_CHECK(strlen(r.user) > 1 && r.user[strlen(r.user) - 1] == '"', "a quoted user name stays quoted");
    VF_REACH("long");
}
/* address printed in either style is parsed back */
void h_round(void)
{
    RFCAddr r, t;
    memset(&r, 0, sizeof(r));
    atom(r.user, 2, 1); atom(r.addr, 2, 0); atom(r.real, 2, 0);
    rfcaddr_mode(vf_range(0, 2));
    strcpy(work, s_rfcaddr_to_asc(&r, FALSE));
    t = rfcaddr_from_rfc(work);
    VF_CHECK(eq(r.user, t.user, 3) && eq(r.addr, t.addr, 3) && t.real[0] == 0, "address without name survives");
    rfcaddr_mode(MODE);
    strcpy(work, s_rfcaddr_to_asc(&r, TRUE));
    t = rfcaddr_from_rfc(work);
    VF_CHECK(eq(r.user, t.user, 3) && eq(r.addr, t.addr, 3) && eq(MODE == 2 ? "" : r.real, t.real, 3), "address with name survives");
    VF_REACH("round");
}
