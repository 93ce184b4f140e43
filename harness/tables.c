/* P33: passwords, hosts, aliases, own addresses, zones; P35: areas */
#include "vfh.h"
#ifndef BAD
#define BAD -1
#endif
#ifndef LINES
#define LINES 3
#endif
#include "tables.h"
static char *dig(int i) { static char d[10][2]; d[i][0] = '0' + i; d[i][1] = 0; return d[i]; }
static Node probe(void) { Node n; vf_any_node(&n, 65535); return n; }
static int neq(Node *a, Node *b) { return a->zone == b->zone && a->net == b->net && a->node == b->node && a->point == b->point; }
static void any_nodes(void) { int i; for (i = 0; i < LINES; i++) { vf_any_node(&nodes[i], 65535); badnode[i] = i == BAD; } }
#ifdef T_PASSWD
static char *cx[LINES], *pw[LINES], *ar[LINES];
char *cf_p_passwd(void) { return "p"; }
void h_passwd(void)
{
    int i, want = -1; char *key; Node n; Passwd *p;
    any_nodes();
    for (i = 0; i < LINES; i++) {
        cx[i] = mk(1, 'a', 'c', 1); pw[i] = mk(1, '!', '~', 1); ar[i] = vf_bool() ? mk(1, '!', '~', 1) : NULL;
        toks[i][0] = cx[i]; toks[i][1] = dig(i); toks[i][2] = pw[i]; toks[i][3] = ar[i];
    }
    passwd_init();
    VF_CHECK(vf_open_count == 0, "the file is closed");
    key = mk(1, 'a', 'c', 1); n = probe();
    for (i = LINES - 1; i >= 0; i--) if (!badnode[i] && same(cx[i], key) && neq(&nodes[i], &n)) want = i;
    p = passwd_lookup(key, &n);
    if (want < 0) { VF_CHECK(p == NULL, "no password without an entry for this context and address"); VF_REACH("none"); }
    else { VF_CHECK(p != NULL, "an entry for this context and address is found"); 
      VF_CHECK(same(p->passwd, pw[want]) && (ar[want] ? p->args != NULL && same(p->args, ar[want]) : p->args == NULL), "the first matching entry's password is used"); VF_REACH("found"); }
}
#endif
#ifdef T_HOSTS
char *cf_p_hosts(void) { return "h"; }
char *cf_hostsdomain(void) { return ".d"; }
static char *nm[LINES], full[LINES][8]; static int opt[LINES], hasname[LINES];
void h_hosts(void)
{
    int i, k, want = -1; Node n; Host *h; char *key, *opts[4] = { NULL, "-p", "-d", "y" };
    any_nodes();
    for (i = 0; i < LINES; i++) {
        nm[i] = mk(2, '-', '~', 1);
        for (k = 0; nm[i][k]; k++) full[i][k] = nm[i][k];
        hasname[i] = !(k == 1 && nm[i][0] == '-');
        if (full[i][k - 1] == '.') full[i][k - 1] = 0; else { full[i][k] = '.'; full[i][k + 1] = 'd'; full[i][k + 2] = 0; }
        opt[i] = vf_range(0, 3);
        toks[i][0] = dig(i); toks[i][1] = nm[i]; toks[i][2] = opts[opt[i]];
    }
    hosts_init();
    if (BYNAME) {
        key = mk(4, '-', '~', 1);
        for (i = LINES - 1; i >= 0; i--) if (!badnode[i] && hasname[i] && same_ci(full[i], key)) want = i;
        h = hosts_lookup(NULL, key);
    } else {
        n = probe();
        for (i = LINES - 1; i >= 0; i--) if (!badnode[i] && nodes[i].zone == n.zone && nodes[i].net == n.net && nodes[i].node == n.node && (nodes[i].point == n.point || nodes[i].point == 0)) want = i;
        h = hosts_lookup(&n, NULL);
    }
    if (want < 0) { VF_CHECK(h == NULL, "nothing is found without a matching entry"); VF_REACH("none"); }
    else {
        VF_CHECK(h != NULL && neq(&h->node, &nodes[want]), "the first matching host is found");
        VF_CHECK(hasname[want] ? h->name != NULL && same_ci(h->name, full[want]) : h->name == NULL, "its name is the configured one");
        VF_CHECK(h->flags == (opt[want] == 2 ? HOST_DOWN : opt[want] ? HOST_POINT : 0), "its options are the configured ones");
        VF_REACH("found");
    }
}
#endif
#ifdef T_ALIASES
int wildmatch(char *s, char *p, int ic) { (void)ic; return same_ci(s, p); }
static char *us[LINES], *ud[LINES], *fn[LINES];
void h_aliases(void)
{
    static const char kind[LINES + 1] = KINDS;   /* a: entry, r: rfc2ftn, f: ftn2rfc */
    static char ty[LINES];
    int i, want = -1, op = vf_range(0, 3); char cur = 'a', *k1; Node n; Alias *a; RFCAddr rfc;
    any_nodes();
    for (i = 0; i < LINES; i++) {
        if (kind[i] == 'r') { toks[i][0] = "rfc2ftn"; cur = 'r'; continue; }
        if (kind[i] == 'f') { toks[i][0] = "ftn2rfc"; cur = 'f'; continue; }
        us[i] = mk(1, 'A', 'z', 1); ud[i] = vf_bool() ? mk(1, 'A', 'z', 1) : NULL; fn[i] = mk(1, 'A', 'z', 1);
        toks[i][0] = "u@d"; subtok[i][0] = us[i]; subtok[i][1] = ud[i]; toks[i][1] = dig(i); toks[i][2] = fn[i]; ty[i] = cur;
    }
    alias_do_file("a");
    k1 = mk(1, 'A', 'z', 1); n = probe();
    memset(rfc.user, 0, 4); memset(rfc.addr, 0, 4); rfc.user[0] = k1[0]; rfc.addr[0] = vf_range('A', 'z');
    for (i = LINES - 1; i >= 0; i--) {
        if (kind[i] != 'a' || badnode[i]) continue;
        switch (op) {
        case 0: if (ty[i] != 'f' && same_ci(us[i], k1) && neq(&n, &nodes[i])) want = i; break;
        case 1: if (ty[i] != 'f' && same_ci(us[i], k1)) want = i; break;
        case 2: if (ty[i] != 'r' && same_ci(k1, fn[i]) && neq(&n, &nodes[i])) want = i; break;
        case 3: if (ty[i] != 'f' && ud[i] && same_ci(us[i], rfc.user) && same_ci(ud[i], rfc.addr)) want = i; break;
        }
    }
    a = op == 0 ? alias_lookup(&n, k1) : op == 1 ? alias_lookup(NULL, k1) : op == 2 ? alias_lookup_strict(&n, k1) : alias_lookup_userdom(&rfc);
    if (want < 0) { VF_CHECK(a == NULL, "nothing is found without a matching alias"); VF_REACH("none"); }
    else { VF_CHECK(a != NULL && neq(&a->node, &nodes[want]) && same(a->username, us[want]) && same(a->fullname, fn[want]) && (ud[want] ? a->userdom && same(a->userdom, ud[want]) : !a->userdom), "the first matching alias of the right direction is found"); VF_REACH("found"); }
}
#endif
#ifdef T_CONFIG
void h_aka(void)
{
    static const char kind[LINES + 1] = KINDS;   /* a: Address, u: Uplink, g: GateAddress */
    int i, na = 0, nu = 0, ng = 0, want = -1, rank, best = 0; Node *A[LINES + 1], *U[LINES + 1], *G[LINES + 1], d, aka, up; int rc, idx = -1;
    for (i = 0; i <= LINES; i++) A[i] = U[i] = G[i] = NULL;
    any_nodes();
    for (i = 0; i < LINES; i++) badnode[i] = 0;
    if (BAD >= 0) badnode[BAD] = 1;
    for (i = 0; i < LINES; i++) {
        toks[i][0] = kind[i] == 'a' ? "Address" : kind[i] == 'u' ? "Uplink" : "GateAddress"; toks[i][1] = dig(i);
        if (i == BAD) continue;
        if (kind[i] == 'a') A[na++] = &nodes[i]; else if (kind[i] == 'u') U[nu++] = &nodes[i]; else G[ng++] = &nodes[i];
    }
    cf_read_config_file("c");
    VF_CHECK(neq(cf_main_addr(), A[0]) && neq(cf_addr(), A[0]) && cf_defzone() == A[0]->zone, "the first address is the main and default one");
#ifdef GATE
    cf_i_am_a_gateway_prog();
    if (ng) for (i = 0; i < ng; i++) { U[i] = A[i]; A[i] = G[i]; }
    else if (!nu) for (i = 0; i < na; i++) U[i] = A[i];
#endif
    vf_any_node(&d, 65535);
    for (i = na - 1; i >= 0; i--) {              /* same node before same net before same zone, first one first */
        int zone = nodes[i].zone;                 /* addresses come first in the file */
        rank = d.zone == zone ? (A[i]->net == d.net ? (A[i]->node == d.node ? 3 : 2) : 1) : 0;
        if (rank && rank >= best) { best = rank; want = i; }
    }
    rc = cf_get_best(&d, &aka, &up, &idx);
    if (want < 0) { VF_CHECK(rc == 1 && idx == 0 && neq(&aka, A[0]), "without address in that zone the first one is used"); VF_REACH("default"); }
    else { VF_CHECK(rc == 0 && idx == want && neq(&aka, A[want]), "the best address is used"); if (U[want]) VF_CHECK(neq(&up, U[want]), "with the uplink belonging to it"); VF_REACH("best"); }
    for (want = -1, i = na - 1; i >= 0; i--) if (nodes[i].zone == d.zone) want = i;
    cf_set_zone(d.zone);
    VF_CHECK(cf_zone() == d.zone && neq(cf_addr(), A[want < 0 ? 0 : want]), "selecting a zone uses its first address");
    if (U[want < 0 ? 0 : want]) VF_CHECK(neq(cf_uplink(), U[want < 0 ? 0 : want]), "selecting a zone uses the uplink of its first address");
    VF_CHECK(cf_addr_trav(TRUE) == NULL || neq(cf_addr_trav(TRUE), A[0]), "traversal starts with the first address");
    for (i = 1; i < na; i++) VF_CHECK(neq(cf_addr_trav(FALSE), A[i]), "traversal returns the addresses in order");
    VF_CHECK(cf_addr_trav(FALSE) == NULL, "traversal ends behind the last address");
}
/* zones: Internet domain, FTN domain, outbound */
void h_zones(void)
{
    int i, z, want = -1, def = -1, num[LINES]; char *k[LINES];
    for (i = 0; i < LINES; i++) {
        k[i] = mk(1, '0', '9', 1); num[i] = k[i][0] - '0';
        toks[i][0] = "zone"; toks[i][1] = i == DEF ? "default" : k[i]; toks[i][2] = "i"; toks[i][3] = dig(i); toks[i][4] = dig(i + LINES);
        if (i == DEF) num[i] = -1;
    }
    for (i = 0; i < LINES; i++) { toks[i][2] = dig(i + 2 * LINES); if (i != DEF) VF_ASSUME(num[i] != 0 || i == LINES - 1); }
    cf_read_config_file("c");
    z = vf_range(1, 9);
    for (i = LINES - 1; i >= 0; i--) { if (num[i] == z) want = i; if (i == DEF) def = i; }
    if (want < 0) {
        VF_CHECK(!cf_zones_check(z) && cf_zones_out(z) == NULL, "an unknown zone is reported as such");
        VF_CHECK(def < 0 ? same(cf_zones_inet_domain(z), FTN_INVALID_DOMAIN) && same(cf_zones_ftn_domain(z), "fidonet") : cf_zones_inet_domain(z)[0] == '0' + def + 2 * LINES && cf_zones_ftn_domain(z)[0] == '0' + def, "an unknown zone gets the default domains");
        VF_REACH("unknown");
    } else {
        VF_CHECK(cf_zones_check(z) && cf_zones_out(z)[0] == '0' + want + LINES && cf_zones_inet_domain(z)[0] == '0' + want + 2 * LINES && cf_zones_ftn_domain(z)[0] == '0' + want, "a zone's first entry is used");
        VF_REACH("known");
    }
}
#endif
#ifdef T_AREAS
char *cf_p_areas(void) { return "a"; }
int cf_defzone(void) { return 2; }
static char *xl_a, *xl_g; static int xl_n, areas_phase;
char *cf_get_string(char *n, int first) { (void)n; if (first && xl_n) { return "x"; } return NULL; }
static char *an[LINES], *gn[LINES]; static int fl[LINES], nact;
static char wa[12], wg[12];
static int pre(const char *s, const char *p) { int i; for (i = 0; i < 8; i++) { if (!p[i]) return 1; if (low(s[i]) != low(p[i])) return 0; } return 1; }
static void conv(char *out, const char *base, const char *name, int skip, int up)
{
    int i, k = 0;
    for (i = 0; i < 8 && base[i]; i++) out[k++] = base[i];
    for (i = skip; i < 8 && name[i]; i++) { char c = name[i]; out[k++] = up ? (c >= 'a' && c <= 'z' ? c - 32 : c) : low(c); }
    out[k] = 0;
}
#ifndef W
#define W 1
#endif
void h_areas(void)
{
    static const char fk[LINES + 1] = KINDS;     /* p plain, h hierarchy, n excluded, x excluded hierarchy, a own address */
    int i, want = -1; char *key; Area *a; Node aka;
    any_nodes();
    for (i = 0; i < LINES; i++) {
        an[i] = mk(fk[i] == 'p' ? 1 : W, 'A', 'C', fk[i] == 'p' ? 1 : HL); gn[i] = mk(1, 'a', 'c', 1);
        toks[i][0] = an[i]; toks[i][1] = gn[i];
        if (fk[i] == 'h' || fk[i] == 'x') { toks[i][2] = "-H"; fl[i] |= 1; }
        if (fk[i] == 'n') { toks[i][2] = "-!"; fl[i] |= 2; }
        if (fk[i] == 'x') { toks[i][3] = "-!"; fl[i] |= 2; }
        toks[i][4] = NULL;
        if (fk[i] == 'a') { toks[i][2] = "-a"; toks[i][3] = dig(i); badnode[i] = 0; } else { nodes[i].zone = nodes[i].net = nodes[i].node = nodes[i].point = -1; }
    }
    areas_init();
    vf_any_node(&aka, 65535);
#if BYGROUP
    key = mk(2, 'a', 'c', 1);
    for (i = LINES - 1; i >= 0; i--) if (fl[i] & 1 ? pre(key, gn[i]) : same_ci(key, gn[i])) want = i;
    a = areas_lookup(NULL, key, NULL);
#else
    key = mk(2, 'A', 'C', 1);
    for (i = LINES - 1; i >= 0; i--) if ((!AKA || neq(&nodes[i], &aka)) && (fl[i] & 1 ? pre(key, an[i]) : same_ci(key, an[i]))) want = i;
    a = areas_lookup(key, NULL, AKA ? &aka : NULL);
#endif
    if (want < 0 || (fl[want] & 2)) { VF_CHECK(a == NULL, "names without entry or excluded ones are not translated"); VF_REACH("none"); return; }
    VF_CHECK(a != NULL, "the first matching entry is found");
    if (!(fl[want] & 1)) VF_CHECK(same(a->area, an[want]) && same(a->group, gn[want]), "a plain entry translates to its names");
    else if (BYGROUP) { conv(wa, an[want], key, strlen(gn[want]), 1); VF_CHECK(same(a->group, key) && same(a->area, wa), "a hierarchy translates the rest of the name to upper case"); }
    else { conv(wg, gn[want], key, strlen(an[want]), 0); VF_CHECK(same(a->area, key) && same(a->group, wg), "a hierarchy translates the rest of the name to lower case"); }
    VF_CHECK(a->zone == 2 && neq(&a->addr, &nodes[want]) && a->maxsize == areas_get_maxmsgsize() && a->limitsize == areas_get_limitmsgsize() && a->rfc_lvl == -1 && a->encoding == MIME_DEFAULT, "options not given have their defaults");
    VF_REACH("found");
#if !AKA && !defined(NOROUND)
    /* there and back (first entry, so that no other one gets in between) */
    if (want == 0) {
        char na[12], ng[12]; Area *b;
        strcpy(na, a->area); strcpy(ng, a->group);
#if BYGROUP
        b = areas_lookup(na, NULL, NULL);
#else
        b = areas_lookup(NULL, ng, NULL);
#endif
        VF_CHECK(b != NULL && same(b->area, na) && same(b->group, ng), "translating back gives the original name");
        VF_REACH("round");
    }
#endif
}
/* every option of a line */
static char *av;
void h_options(void)
{
    static char *o[] = { "-a", "-z", "-o", "-d", "-R", "-m", "-L", "-X", "-C", "-l", "-x", "-g", "-8", "-Q", "-b", "-nh", "-H", "-!" };
    Area *a; char line[2] = "l"; int d, miss = MISS; (void)miss;
    any_nodes(); badnode[1] = 0;
    av = mk(1, '0', '9', 1); d = av[0] - '0';
    if (OPT == 0) av = dig(1);
    toks[0][0] = "A"; toks[0][1] = "a"; toks[0][2] = o[OPT]; toks[0][3] = OPT < 9 && !miss ? av : NULL;
    a = areas_parse_line(line);
    VF_CHECK(a != NULL && same(a->area, "A") && same(a->group, "a"), "the line is accepted");
#if MISS
    VF_REACH("missing argument"); return;
#endif
    VF_CHECK(OPT == 0 ? neq(&a->addr, &nodes[1]) : a->addr.zone == -1, "-a");
    VF_CHECK(a->zone == (OPT == 1 ? d : 2), "-z");
    VF_CHECK(OPT == 2 ? a->origin && same(a->origin, av) : !a->origin, "-o");
    VF_CHECK(OPT == 3 ? a->distribution && same(a->distribution, av) : !a->distribution, "-d");
    VF_CHECK(a->rfc_lvl == (OPT == 4 ? d : -1), "-R");
    VF_CHECK(a->maxsize == (OPT == 5 ? d : areas_get_maxmsgsize()), "-m");
    VF_CHECK(a->limitsize == (OPT == 6 ? d : areas_get_limitmsgsize()), "-L");
    VF_CHECK(OPT == 7 ? a->x_hdr.n == 1 && same(a->x_hdr.first->line, av) : a->x_hdr.n == 0, "-X");
    VF_CHECK(OPT == 8 ? a->charset && same(a->charset, av) : !a->charset, "-C");
    VF_CHECK(a->flags == (OPT == 9 ? AREA_LOCALXPOST : OPT == 10 ? AREA_NOXPOST : OPT == 11 ? AREA_NOGATE : OPT == 15 ? AREA_HEADERS_PLAIN : OPT == 16 ? AREA_HIERARCHY : OPT == 17 ? AREA_NO : 0), "flags");
    VF_CHECK(a->encoding == (OPT == 12 ? MIME_8BIT : OPT == 13 ? MIME_QP : OPT == 14 ? MIME_B64 : MIME_DEFAULT), "encoding");
#if !MISS
    VF_REACH("option");
#endif
}
#endif
