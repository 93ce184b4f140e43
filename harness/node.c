/* P05, P06: FTN addresses as text */
#include "vfh.h"
#ifndef N
#define N 8
#endif
#ifndef ZMAX
#define ZMAX 65535
#endif
int cf_defzone(void) { return 2; }
int cf_zone(void) { return 2; }
static void any(Node *n)
{
    n->zone = vf_range(0, ZMAX); n->net = vf_range(0, ZMAX); n->node = vf_range(0, ZMAX); n->point = vf_range(0, ZMAX);
    n->domain[0] = 0; n->flags = 0;
}
static int eq(Node *a, Node *b)
{ return a->zone == b->zone && a->net == b->net && a->node == b->node && a->point == b->point; }

#ifdef DIGS
static void digs(void)
{ static const int d[] = { DIGS }; int i; vf_dign = sizeof(d) / sizeof(d[0]); for (i = 0; i < (int)(sizeof(d) / sizeof(d[0])); i++) vf_digs[i] = d[i]; }
#else
#define digs() ((void)0)
#endif
void h_print_parse(void)
{
    Node n, m;
    char dom[4], *s;
    any(&n);
    digs();
    vf_str(dom, 3);
    strcpy(n.domain, dom);
    memset(&m, 0x5a, sizeof(m));
    s = znfp1(&n);
    VF_CHECK(asc_to_node(s, &m, FALSE) == OK, "a printed address is accepted");
    VF_CHECK(eq(&n, &m), "zone, net, node and point survive");
    VF_CHECK(strcmp(m.domain, dom) == 0, "the domain survives");
    VF_CHECK(node_eq(&n, &m) && node_cmp(&n, &m) == 0 && node_np_eq(&n, &m), "comparison agrees");
    VF_REACH("printed and parsed");
}
void h_print_parse3d(void)
{
    Node n, m;
    any(&n);
    digs();
    memset(&m, 0x5a, sizeof(m));
    VF_CHECK(asc_to_node(znf1(&n), &m, FALSE) == OK, "a printed address is accepted");
    VF_CHECK(eq(&n, &m), "zone, net, node and point survive the short form");
    VF_REACH("printed and parsed");
}
/* ---- reference grammar: [zone:]net/node[.point][@domain], digits only */
static const char *num(const char *s, long *v)
{
    int i;
    *v = 0;
    if (*s < '0' || *s > '9') return 0;
    for (i = 0; i <= N && *s >= '0' && *s <= '9'; i++) { *v = *v * 10 + *s - '0'; s++; }
    if (*v > 65535) return 0;
    return s;
}
/* 1: accepted */
static int ref(const char *s, long *z, long *n, long *f, long *p, const char **dom)
{
    long a, b;
    *z = -1; *p = -1; *dom = "";
    if (!(s = num(s, &a))) return 0;
    if (*s == ':') { *z = a; if (!(s = num(s + 1, &a))) return 0; }
    if (*s != '/') return 0;
    *n = a;
    if (!(s = num(s + 1, &b))) return 0;
    *f = b;
    if (*s == '.') { if (!(s = num(s + 1, p))) return 0; }
    if (*s == '@') { *dom = s + 1; return 1; }
    return *s == 0;
}
void h_parse(void)
{
    char *t = malloc(N + 1);
    Node m;
    long z, n, f, p;
    const char *d;
    int flag = vf_bool(), r, ok;
    memset(&m, 0x5a, sizeof(m));
    vf_str(t, N);
    r = asc_to_node(t, &m, flag);
    ok = ref(t, &z, &n, &f, &p, &d);
    VF_CHECK((r == OK) == ok, "exactly the documented forms are accepted");
    if (ok && r == OK) {
        VF_CHECK(m.zone == (z < 0 ? 2 : z), "zone (default if missing)");
        VF_CHECK(m.net == n && m.node == f, "net and node");
        VF_CHECK(m.point == (p < 0 && !flag ? 0 : p), "point");
        VF_CHECK(strcmp(m.domain, d) == 0, "domain");
        VF_REACH("accepted");
    } else
        VF_REACH("rejected");
}
void h_bignum(void)
{
    static char t[20] = "2:5020/";
    char *q = t + 7;
    Node m;
    int i, k = vf_range(1, 11);
    long v = 0;
    for (i = 0; i < 11; i++) if (i < k) { q[i] = vf_range('0', '9'); v = v * 10 + q[i] - '0'; }
    q[k] = 0;
    if (asc_to_node(t, &m, FALSE) == OK)
        VF_CHECK(m.zone == 2 && m.net == 5020 && m.node == v, "a number too large is not turned into another address");
    VF_REACH("parsed");
}
/* ---- pfnz */
void h_pfnz(void)
{
    Node n, m;
    any(&n);
    digs();
    memset(&m, 0x5a, sizeof(m));
    VF_CHECK(pfnz_to_node(node_to_pfnz(&n), &m) == OK, "a printed p.f.n.z address is accepted");
    VF_CHECK(eq(&n, &m), "the address survives");
    VF_REACH("pfnz");
}
static const char *num2(const char *s, int *v)
{ long l; s = num(s, &l); *v = (int)l; return s; }
void h_pfnz_parse(void)
{
    char *t = malloc(N + 1);
    const char *s;
    int z = -1, n = -1, f = -1, p = -1, ok = 1, i, r;
    Node m;
    memset(&m, 0x5a, sizeof(m));
    vf_str(t, N);
    for (i = 0; i <= N; i++) VF_ASSUME(t[i] != '*' && t[i] != 'a' && t[i] != 'A');
    r = pfnz_to_node(t, &m);
    s = t;
    for (i = 0; i < N && ok && *s; i++) {
        int c = *s | 32, v;
        if (c != 'p' && c != 'f' && c != 'n' && c != 'z') { ok = 0; break; }
        s = num2(s + 1, &v);
        if (!s) { ok = 0; break; }
        if (*s == '.') s++; else if (*s) { ok = 0; break; }
        if (c == 'p') p = v; else if (c == 'f') f = v; else if (c == 'n') n = v; else z = v;
    }
    if (n < 0 || f < 0) ok = 0;
    VF_CHECK((r == OK) == ok, "exactly the p.f.n.z forms with net and node are accepted");
    if (ok) {
        VF_CHECK(m.zone == (z < 0 ? 2 : z) && m.net == n && m.node == f && m.point == (p < 0 ? 0 : p), "values");
        VF_REACH("accepted");
    } else
        VF_REACH("rejected");
}
/* ---- abbreviated form */
void h_diff(void)
{
    Node n, o, m;
    any(&n); any(&o);
    digs();
    VF_ASSUME(!eq(&n, &o));
    memset(&m, 0x5a, sizeof(m));
    VF_CHECK(asc_to_node_diff(node_to_asc_diff(&n, &o), &m, &o) == OK, "an abbreviated address is accepted after its predecessor");
    VF_CHECK(eq(&n, &m), "the abbreviated address denotes the same node");
    VF_REACH("abbreviated");
}
/* In the list queries the abbreviation of a single address is replaced by its
 * contract, which the "diff" queries establish: reading the text back after
 * the same predecessor yields the same address. */
#ifdef DIFF_STUB
static Node tk_node[8], tk_old[8];
static char tk_text[8][2];
static int tk_n;
char *node_to_asc_diff(Node *node, Node *old)
{
    int i = tk_n++;
    tk_node[i] = *node; tk_old[i] = *old;
    tk_text[i][0] = 'A' + i; tk_text[i][1] = 0;
    return tk_text[i];
}
static int bad(Node *o) { return o->net < 0 || o->zone < 0; }
int asc_to_node_diff(char *asc, Node *node, Node *old)
{
    int i = asc[0] - 'A';
    VF_CHECK(i >= 0 && i < tk_n && asc[1] == 0, "entries are separated");
    VF_CHECK(bad(&tk_old[i]) || eq(&tk_old[i], old), "abbreviated against the entry written just before");
    *node = tk_node[i];
    return OK;
}
#endif
#ifndef K
#define K 3
#endif
static Node nd[K];
static void mklist(LON *l)
{
    int i;
    lon_init(l);
    for (i = 0; i < K; i++) { any(&nd[i]); lon_add(l, &nd[i]); }
}
void h_list_print(void)
{
    LON l, r;
    LNode *p;
    FILE *f;
    int i, j;
    mklist(&l);
    for (i = 0; i < K; i++) for (j = 0; j < i; j++) VF_ASSUME(!eq(&nd[i], &nd[j]));
    f = vf_stream_on(0, "w");
    lon_print(&l, f, TRUE);
    vf_inodes[0].data[vf_inodes[0].len] = 0;
    lon_init(&r);
    lon_add_string(&r, (char *)vf_inodes[0].data);
    VF_CHECK(r.size == K, "every address is read back");
    for (i = 0, p = r.first; i < K; i++) {
        VF_CHECK(p != NULL && eq(&p->node, &nd[i]), "same addresses in the same order");
        if (!p) break;
        p = p->next;
    }
    VF_REACH("list read back");
}
#ifdef DIFF_STUB
void h_list_passive(void)
{
    LON l, r;
    FILE *f;
    LNode *p;
    int i;
    mklist(&l);
    f = vf_stream_on(0, "w");
    VF_CHECK(lon_print_passive(&l, f) == 0, "no error without error");
    VF_CHECK(vf_inodes[0].len == 2 * K - 1, "entries and separators");
    for (i = 0; i < K; i++) {
        VF_CHECK(vf_inodes[0].data[2 * i] == 'A' + i && eq(&tk_node[i], &nd[i]), "each entry in order");
        if (i) VF_CHECK(vf_inodes[0].data[2 * i - 1] == ',', "separator");
        if (i) VF_CHECK(eq(&tk_old[i], &nd[i - 1]), "abbreviated against the entry before");
    }
    VF_REACH("passive list");
}
#endif
#ifdef TYPED_ALLOC
/* allocation with the element type visible to the solver's memory model */
static Node *sorted_arr[K];
void *xmalloc(int n)
{
    if (n == (int)sizeof(LNode)) return malloc(sizeof(LNode));
    if (n == (int)sizeof(sorted_arr)) return sorted_arr;
    return malloc(n);
}
void xfree(void *p) { (void)p; }
#endif
void h_list_sorted(void)
{
#ifdef DIFF_STUB
    LON l;
    FILE *f;
    int i, j, found, n = 0, off = vf_range(0, 1);
    static int tok[2 * K];
    mklist(&l);
    f = vf_stream_on(0, "w");
    lon_print_sorted(&l, f, off);
    /* the text: tokens separated by single blanks */
    for (i = 0; i < 2 * K; i++) if (i < vf_inodes[0].len) {
        int c = vf_inodes[0].data[i];
        if (i & 1) VF_CHECK(c == ' ', "separator between entries");
        else { VF_CHECK(c == 'A' + n, "entries in the order they were formatted"); tok[n] = n; n++; }
    }
    VF_CHECK(n == tk_n && n <= K, "every formatted entry is written once");
    for (i = 0; i < K; i++) {
        for (j = 0, found = 0; j < K; j++) if (j < n && eq(&tk_node[j], &nd[i])) found++;
        VF_CHECK(found >= 1, "every address of the list is in the sorted output");
        if (off == 0) VF_CHECK(found == 1, "each address once");
    }
    for (j = 0; j < K; j++) if (j < n) {
        for (i = 0, found = 0; i < K; i++) if (eq(&tk_node[j], &nd[i])) found = 1;
        VF_CHECK(found, "only addresses of the list are written");
        if (j) VF_CHECK(eq(&tk_old[j], &tk_node[j - 1]), "abbreviated against the entry before");
        if (j && j > off) VF_CHECK(node_cmp(&tk_node[j - 1], &tk_node[j]) < 0, "ascending order");
    }
    VF_CHECK(eq(&tk_node[0], &nd[0]) || off == 0, "uplink stays in front");
    VF_REACH("sorted list");
#endif
}
/* ---- list operations = sequence operations */
static Node mo[8];
static int nm;
static void lsame(LON *l)
{
    LNode *p;
    int i;
    VF_CHECK(l->size == nm, "size");
    for (i = 0, p = l->first; i < 8; i++) {
        if (i >= nm) { VF_CHECK(p == NULL, "end"); break; }
        VF_CHECK(p != NULL && eq(&p->node, &mo[i]), "forward");
        if (!p) break;
        p = p->next;
    }
    for (i = 0, p = l->last; i < 8; i++) {
        if (i >= nm) { VF_CHECK(p == NULL, "begin"); break; }
        VF_CHECK(p != NULL && eq(&p->node, &mo[nm - 1 - i]), "backward");
        if (!p) break;
        p = p->prev;
    }
}
static void lop(LON *l)
{
    Node x;
    int i, at, op = vf_range(0, 2);
    any(&x);
    at = -1;
    for (i = 7; i >= 0; i--) if (i < nm && eq(&mo[i], &x)) at = i;
    if (op == 0) { lon_add(l, &x); mo[nm++] = x; }
    else if (op == 1) {
        lon_remove(l, &x);
        if (at >= 0) { for (i = 0; i < 7; i++) if (i >= at) mo[i] = mo[i + 1]; nm--; }
    } else
        VF_CHECK((lon_search(l, &x) != 0) == (at >= 0), "membership");
}
void h_list_ops(void)
{
    LON l;
    int i;
    lon_init(&l);
    for (i = 0; i < K; i++) lop(&l);
    lsame(&l);
    VF_REACH("list operations done");
}
/* ---- order is a total order consistent with equality */
void h_cmp(void)
{
    Node a, b, c;
    any(&a); any(&b); any(&c);
    VF_CHECK((node_cmp(&a, &b) == 0) == eq(&a, &b), "zero iff equal");
    VF_CHECK((node_eq(&a, &b) != 0) == eq(&a, &b), "equality");
    VF_CHECK(node_cmp(&a, &b) == -node_cmp(&b, &a), "antisymmetric");
    if (node_cmp(&a, &b) <= 0 && node_cmp(&b, &c) <= 0) VF_CHECK(node_cmp(&a, &c) <= 0, "transitive");
    VF_REACH("compared");
}
