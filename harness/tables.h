/* Configuration tables: the harness supplies each line already split into
   words (splitting is P31, reading lines and including files is not part of
   these properties), so that the words' characters are symbolic. */
#define NTOK 6
static char *toks[LINES][NTOK], *subtok[LINES][2];
static int tl_line, tl_cur, tl_pos, tl_sub;
static Node nodes[10]; static int badnode[10];
char *cf_getline(char *b, int n, FILE *fp)
{
    (void)n; (void)fp;
    if (tl_line >= LINES) return NULL;
    tl_cur = tl_line++; tl_pos = 0; tl_sub = 2;
    b[0] = 'l'; b[1] = 0;
    return b;
}
static char *tl_next(char *s)
{
    if (s) {
        if (s == toks[tl_cur][0] && subtok[tl_cur][0]) { tl_sub = 1; return subtok[tl_cur][0]; }
        tl_pos = 0; tl_sub = 2;
    } else if (tl_sub < 2) { tl_sub = 2; return subtok[tl_cur][1]; }
    return tl_pos < NTOK && toks[tl_cur][tl_pos] ? toks[tl_cur][tl_pos++] : NULL;
}
#ifndef FTN
char *xstrtok(char *s, const char *d) { (void)d; return tl_next(s); }
#endif
char *strtok(char *s, const char *d) { (void)d; return tl_next(s); }
static FILE *tl_open(void) { static int once; VF_ASSUME(!once++); /* no include files */ return vf_stream_on(vf_mkfile("t"), "r"); }
FILE *xfopen(char *n, char *m) { (void)n; (void)m; return tl_open(); }
FILE *fopen_expand_name(char *n, char *m, int e) { (void)n; (void)m; (void)e; return tl_open(); }
/* addresses are written as one digit */
int asc_to_node(char *s, Node *n, int p) { int i = s[0] - '0'; (void)p; if (i < 0 || i > 9 || badnode[i]) return ERROR; *n = nodes[i]; return OK; }
/* debug output */
#ifdef ACL
static char from[2], grp[2];
#endif
#ifdef FTN       /* access lists by FTN address */
char *znfp1(Node *n) { (void)n; return grp; }
char *znfp2(Node *n) { (void)n; return from; }
#else
char *znfp1(Node *n) { (void)n; return ""; }
char *znfp2(Node *n) { (void)n; return ""; }
#endif
char *znfp3(Node *n) { (void)n; return ""; }
/* copies in blocks of fixed size */
#define WMAX 10
char *strsave(char *s) { char *p = malloc(WMAX); int i; VF_ASSUME(p != NULL); for (i = 0; i < WMAX - 1; i++) { p[i] = s[i]; if (!s[i]) break; } p[WMAX - 1] = 0; return p; }
char *strsave2(char *s, char *t) { char *p = malloc(WMAX); int i, k = 0; VF_ASSUME(p != NULL); for (i = 0; i < WMAX - 1 && s[i]; i++) p[k++] = s[i]; for (i = 0; k < WMAX - 1 && t[i]; i++) p[k++] = t[i]; p[k] = 0; return p; }
static char *mk(int n, int lo, int hi, int least)      /* word of least..n characters lo..hi */
{
    char *p = malloc(n + 1); int i;
    VF_ASSUME(p != NULL);
    vf_str(p, n); VF_ASSUME(strlen(p) >= (size_t)least);
    for (i = 0; i < n; i++) { if (!p[i]) break; VF_ASSUME(p[i] >= lo && p[i] <= hi); }
    return p;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same_ci(const char *a, const char *b) { int i; for (i = 0; i < 8; i++) { if (low(a[i]) != low(b[i])) return 0; if (!a[i]) return 1; } return 1; }
static int same(const char *a, const char *b) { int i; for (i = 0; i < 8; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
