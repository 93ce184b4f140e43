/* P22, P23: tossing (ftntoss) */
#include "vfh.h"
/* ftntoss.c */
void do_seenby(LON *, LON *, LON *, LON *, int, Node *);
void do_path(LON *); int do_check_path(LON *); void do_4dpoint(LON *, LON *, Node *, Node *);
int do_echomail(Packet *, Message *, MsgBody *);
int do_netmail(Packet *, Message *, MsgBody *, int);
int toss_echomail(Message *, MsgBody *, LON *, LON *, LON *, LON *);
void kludge_to_lon(Textlist *, LON *); int lon_to_kludge(Textlist *, char *, LON *); void lon_to_kludge_sorted(Textlist *, char *, LON *);
void do_rewrite(Message *); int do_remap(Message *); int check_empty(MsgBody *);
void addtoseenby_init(void); void deleteseenby_init(void); void deletepath_init(void); void zonegate_init(void);
int unpack_file(char *); 

extern char n_flag, t_flag, p_flag, kill_unknown, kill_routed, kill_insecure, kill_circular, check_path, dupe_check, add_other_aka, no_empty_path, kill_dupe, kill_nomsgid, kill_old, log_netmail, kill_empty, support_ping, s_flag, x_flag, echomail4d;
extern short check_point_origin_addr; extern int maxmsg; int authorized_new;
#ifndef NN
#define NN 3
#endif
#ifndef NS
#define NS 2
#endif
#ifndef NP
#define NP 1
#endif
#ifndef FMAX
#define FMAX 65535
#endif
static void any(Node *n)
{ n->zone = vf_range(1, 255); n->net = vf_range(0, FMAX); n->node = vf_range(0, FMAX); n->point = vf_range(0, FMAX); n->domain[0] = 0; n->flags = 0; }
static int eq(Node *a, Node *b) { return a->zone == b->zone && a->net == b->net && a->node == b->node && a->point == b->point; }
static int eqe(Node *a, Node *b) { return a->net == b->net && a->node == b->node && a->point == b->point; }
/* a node list as a plain array */
#define MAXA 16
typedef struct { Node n[MAXA]; int k; } Arr;
static int in_e(Arr *a, Node *n) { int i; for (i = 0; i < a->k; i++) if (eqe(&a->n[i], n)) return 1; return 0; }
static int in_x(Arr *a, Node *n) { int i; for (i = 0; i < a->k; i++) if (eq(&a->n[i], n)) return 1; return 0; }
static void put(Arr *a, Node *n) { VF_ASSUME(a->k < MAXA); a->n[a->k++] = *n; }
/* same entries in the same order; LON holds NMAXCHK at most */
static void same(LON *l, Arr *a, int max, int echo)
{
    LNode *p = l->first; int i;
    for (i = 0; i < max; i++) {
        if (i >= a->k) break;
        VF_CHECK(p != NULL, "no entry is missing");
        VF_CHECK(echo ? eqe(&p->node, &a->n[i]) : eq(&p->node, &a->n[i]), "the entries are the expected ones");
        p = p->next;
    }
    VF_CHECK(p == NULL, "there are no extra entries");
}
static Node own, aka2, akas[2];
static int trav, naka = 2;
Node *cf_addr(void) { return &own; }
Node cf_n_addr(void) { return own; }
Node *cf_addr_trav(int f) { if (f) trav = 0; if (trav >= naka) return NULL; return &akas[trav++]; }
int cf_zone(void) { return own.zone; }
int cf_defzone(void) { return own.zone; }
void cf_set_zone(int z) { (void)z; }
void cf_set_curr(Node *n) { (void)n; }
void cf_set_best(int z, int n, int nd) { (void)z; (void)n; (void)nd; }
Node *cf_uplink(void) { return &own; }

#ifdef SEENBY
void h_seenby(void)
{
    static LON seen, nodes, new, passive; static Arr as, an, ar, ap; Node from; int i, cup, usenew, usepas;
    any(&from); own.zone = 2;
    lon_init(&seen); lon_init(&nodes); lon_init(&new); lon_init(&passive);
    for (i = 0; i < NS; i++) { Node n; any(&n); put(&as, &n); lon_add(&seen, &n); }
    for (i = 0; i < NN; i++) { Node n; any(&n); put(&an, &n); lon_add(&nodes, &n); }
    for (i = 0; i < NPAS; i++) { Node n; any(&n); put(&ap, &n); lon_add(&passive, &n); }
    cup = vf_range(0, NN); usenew = 1;
    do_seenby(&seen, &nodes, WITHNEW ? &new : NULL, NPAS < 0 ? NULL : &passive, cup, &from);
    for (i = 0; i < NN; i++) {
        Node *n = &an.n[i];
        if (i + 1 < cup || eq(n, &from) || in_e(&as, n) || in_x(&ap, n)) continue;
        put(&as, n); put(&ar, n);
    }
    (void)usenew; (void)usepas;
    same(&seen, &as, NS + NN, 0);
    if (WITHNEW) same(&new, &ar, NN, 0); else VF_CHECK(new.first == NULL, "nothing added");
    VF_REACH("links selected");
    if (ar.k == NN) VF_REACH("every link gets it");
    if (ar.k == 0) VF_REACH("no link gets it");
}
void h_path(void)
{
    static LON path; static Arr ap; int i, r, circ = 0;
    any(&own); any(&aka2); akas[0] = own; akas[1] = aka2;
    lon_init(&path);
    for (i = 0; i < NS; i++) { Node n; any(&n); put(&ap, &n); lon_add(&path, &n); }
    do_path(&path);
    if (!(NS > 0 && eqe(&ap.n[NS - 1], &own))) put(&ap, &own);
    same(&path, &ap, NS + 1, 0);
    r = do_check_path(&path);
    for (i = 0; i + 1 < ap.k; i++) if (eqe(&ap.n[i], &own) || eqe(&ap.n[i], &aka2)) circ = 1;
    VF_CHECK((r == ERROR) == circ, "a path that went through this system before is circular, others are not");
    if (!circ) VF_REACH("not circular");
#if NS > 0
    if (circ) VF_REACH("circular");
#endif
}
#endif

#ifdef ECHO
static LON in_seen, in_path, out_seen, out_path;
static int kl, outk;
static Arr recv, hdrs;
static int nbad, nbody, fault_at = -1, opno, faulted, hi_writes;
static AreasBBS area; static int area_known; static MsgBody body;
void kludge_to_lon(Textlist *t, LON *l)
{   /* the incoming lists (text form: h_kludge) */
    LNode *p; LON *s = kl++ == 0 ? &in_seen : &in_path;
    (void)t;
    for (p = s->first; p; p = p->next) lon_add(l, &p->node);
}
static void copy(LON *d, LON *s) { LNode *p; for (p = s->first; p; p = p->next) lon_add(d, &p->node); }
void lon_to_kludge_sorted(Textlist *t, char *s, LON *l) { (void)t; VF_CHECK(s[0] == 'S', "SEEN-BY lines"); copy(&out_seen, l); outk |= 1; }
int lon_to_kludge(Textlist *t, char *s, LON *l) { (void)t; VF_CHECK(s[0] == 1 && s[1] == 'P', "PATH lines"); copy(&out_path, l); outk |= 2; return 1; }
static int op(void)
{
#ifdef FAULTS
    if (!faulted && vf_bool()) { faulted = 1; return 1; }
#endif
    return 0;
}
static int curbad;
FILE *outpkt_open(Node *from, Node *to, int grade, int type, int flav, int bad)
{
    (void)from; (void)grade; (void)type; (void)flav;
    if (op()) return NULL;
    curbad = bad;
    if (bad) { nbad++; return vf_stdout; }
    VF_CHECK(!body.area || outk == 3, "the new SEEN-BY and PATH are made before anything is sent");
    put(&recv, to);
    return vf_stdout;
}
int pkt_put_msg_hdr(FILE *f, Message *m, int k)
{
    (void)f; (void)k;
    if (op()) return 1;     /* ferror() */
    if (!curbad) put(&hdrs, &m->node_to);
    return OK;
}
int msg_put_msgbody(FILE *f, MsgBody *b) { (void)f; (void)b; if (op()) return 1;  /* ferror() */ nbody++; return OK; }
Passwd *passwd_lookup(const char *c, Node *n) { (void)c; (void)n; return NULL; }
AreasBBS *areasbbs_lookup(char *a) { (void)a; return area_known ? &area : NULL; }
void areasbbs_changed(void) { }
void areafix_init(const char *m) { (void)m; }
int areafix_auth_check(Node *n, char *p, char c) { (void)n; (void)p; (void)c; authorized_new = vf_bool(); return 0; }
int areafix_check_forbidden_area(char *a) { (void)a; return vf_bool(); }
int cmd_new_int(Node *n, char *a, char *b) { (void)n; (void)a; (void)b; return vf_bool() ? OK : ERROR; }
void uplinks_init(void) { }
AreaUplink *uplinks_line_get(int f, Node *n) { (void)f; (void)n; return NULL; }
char *str_dummy;
void tl_appendf(Textlist *t, char *f, ...) { (void)t; (void)f; }
static Packet pkt; static Message msg; static char areatext[] = "AREA:X\r";
static Arr as, an, ap, apath;
static void setup(void)
{
    int i;
    any(&own); any(&aka2); akas[0] = own; akas[1] = aka2;
    msg_body_init(&body);
    body.area = areatext;
    any(&pkt.from); any(&pkt.to); msg.node_from = pkt.from; msg.node_to = pkt.to;
    any(&msg.node_orig);
    area.zone = -1; area.addr.zone = -1; area.area = "X";
    for (i = 0; i < NS; i++) { Node n; any(&n); put(&as, &n); lon_add(&in_seen, &n); }
    for (i = 0; i < NP; i++) { Node n; any(&n); put(&apath, &n); lon_add(&in_path, &n); }
    for (i = 0; i < NN; i++) { Node n; any(&n); put(&an, &n); lon_add(&area.nodes, &n); }
    for (i = 0; i < NPAS; i++) { put(&ap, &an.n[i]); lon_add(&area.passive, &an.n[i]); }
    area.uplinks = vf_range(0, NN);
    area.flags = vf_range(0, 3);
    n_flag = vf_bool(); t_flag = vf_bool(); p_flag = vf_bool(); check_path = vf_bool(); add_other_aka = vf_bool();
}
void h_echomail(void)
{
    int r, i, acc, circ; Arr rx; Node from;
    setup(); area_known = 1; rx.k = 0; from = pkt.from;
    kill_routed = kill_insecure = kill_circular = KILL;
    r = do_echomail(&pkt, &msg, &body);
    VF_CHECK(r == OK, "no failure without a failing operation");
    acc = (n_flag || eq(&pkt.to, &own) || eq(&pkt.to, &aka2)) && (t_flag || eq(&from, &own) || in_x(&an, &from));
    /* expected lists */
    if (as.k == 1 && as.n[0].net == from.net && as.n[0].node == from.node && (as.n[0].point == 0 || as.n[0].point == from.point)) as.n[0] = from;
    if (apath.k == 1 && apath.n[0].net == from.net && apath.n[0].node == from.node && (apath.n[0].point == 0 || apath.n[0].point == from.point)) apath.n[0] = from;
    if (!in_e(&as, &own)) put(&as, &own);
    if (!in_e(&as, &from)) put(&as, &from);
    if (!in_e(&as, &pkt.to)) put(&as, &pkt.to);
    if (apath.k == 0 || !eqe(&apath.n[apath.k - 1], &from)) put(&apath, &from);
    for (i = 0; i < NN; i++) {
        Node *n = &an.n[i];
        if (i + 1 < area.uplinks || eq(n, &from) || in_e(&as, n) || in_x(&ap, n)) continue;
        put(&as, n); put(&rx, n);
    }
    if (add_other_aka) {
        if (!in_e(&as, &own)) put(&as, &own);
        if (aka2.zone == own.zone && !in_e(&as, &aka2)) put(&as, &aka2);
    }
    if (!p_flag && !eq(&from, &own) && (!(area.flags & AREASBBS_PASSTHRU) || in_x(&an, &own)) && !in_x(&ap, &own)) put(&rx, &own);
    if (!eqe(&apath.n[apath.k - 1], &own)) put(&apath, &own);
    circ = 0;
    for (i = 0; i + 1 < apath.k; i++) if (eqe(&apath.n[i], &own) || eqe(&apath.n[i], &aka2)) circ = 1;
    if (!acc || (check_path && circ)) {
        VF_CHECK(recv.k == 0 && outk == 0, "a message that is not accepted is sent to nobody");
        VF_CHECK(nbad == !KILL && nbody == !KILL, "a message that is not accepted is kept as bad unless configured to be killed");
        VF_REACH("refused");
        return;
    }
    VF_CHECK(nbad == 0, "an accepted message is not bad");
    VF_CHECK(recv.k == rx.k && hdrs.k == rx.k && nbody == rx.k, "as many copies as expected receivers");
    for (i = 0; i <= NN; i++) if (i < rx.k) {
        VF_CHECK(eq(&recv.n[i], &rx.n[i]), "copies go to exactly the subscribed active links not seen yet");
        VF_CHECK(eq(&hdrs.n[i], &rx.n[i]), "each copy is addressed to its link");
    }
    same(&out_seen, &as, MAXA, 1);
    same(&out_path, &apath, MAXA, 1);
    VF_REACH("sent on");
}
/* P23: failing operations */
void h_echomail_fault(void)
{
    int r;
    setup(); area_known = vf_bool();
    kill_unknown = vf_bool(); kill_routed = vf_bool(); kill_insecure = vf_bool(); kill_circular = vf_bool(); check_path = vf_bool();
    r = do_echomail(&pkt, &msg, &body);
    VF_CHECK(r == OK || faulted, "no failure is reported without a failing operation");
    VF_CHECK(r == ERROR || !faulted, "a failing write of an echomail message is reported");
    if (r == ERROR) VF_REACH("failed"); else VF_REACH("worked");
    if (r == ERROR && !area_known) VF_REACH("failed to save a message to an unknown area");
}
void h_netmail_fault(void)
{
    int r;
    setup(); body.area = NULL;
    msg.attr = vf_u16(); s_flag = vf_bool();
    r = do_netmail(&pkt, &msg, &body, vf_bool());
    VF_CHECK((r == ERROR) == faulted, "a failing write of a netmail message is reported");
    VF_CHECK(faulted || (recv.k == 1 && hdrs.k == 1 && nbody == 1 && eq(&recv.n[0], &pkt.to)), "one copy is written to the packet for its destination");
    if (r == ERROR) VF_REACH("failed"); else VF_REACH("worked");
}
#endif
#ifdef ECHO
char *znfp1(Node *n) { (void)n; return "a"; }
char *znfp2(Node *n) { (void)n; return "a"; }
char *znfp3(Node *n) { (void)n; return "a"; }
char *znf1(Node *n) { (void)n; return "a"; }
char *nf1(Node *n) { (void)n; return "a"; }
char *date(char *f, time_t *t) { (void)f; (void)t; return "d"; }
char *kludge_get(Textlist *t, char *n, Textline **l) { (void)t; (void)n; (void)l; return NULL; }
#endif
#ifdef KLUDGE
/* lists as SEEN-BY / PATH text and back; the text of one address: P06 */
#define KN 3
static Node nd[KN]; static int len[KN];
static char tokens[KN][8];
static void mk(void)
{
    int i, j;
    for (i = 0; i < KN; i++) {
        len[i] = vf_range(1, 3);
        for (j = 0; j < 3; j++) tokens[i][j] = (char)('a' + i + j * 3);
        tokens[i][len[i]] = 0;
    }
}
/* prints the node as a token of arbitrary length; the base must be the previous node of the same line */
static int cnt, calls;
static Node prevn[8];
char *node_to_asc_diff(Node *n, Node *old)
{
    int i = n->net;
    VF_CHECK(old->zone == own.zone, "the zone of the base is the current one");
    if (calls < 8) prevn[calls++] = *old;
    return tokens[i];
}
int asc_to_node_diff(char *s, Node *n, Node *old)
{
    int i = cnt++;
    VF_CHECK(i < KN && strcmp(s, tokens[i]) == 0, "every address is read once, in order");
    node_invalid(n); n->zone = own.zone; n->net = i; n->node = 7; n->point = 0;
    VF_CHECK(old->zone == own.zone, "the base has the current zone");
    return OK;
}
void h_kludge(void)
{
    static LON l, back; static Textlist tl; Textline *t; LNode *p; int i, k = 0, fl = 0, pos, nl = 0, r; static char *pre = SORTED ? "SEEN-BY:" : "\001PATH:";
    own.zone = 2; mk(); lon_init(&l); lon_init(&back); tl_init(&tl);
    for (i = 0; i < KN; i++) { nd[i].zone = 2; nd[i].net = i; nd[i].node = 7; lon_add(&l, &nd[i]); }
    if (SORTED) lon_to_kludge_sorted(&tl, pre, &l);
    else { r = lon_to_kludge(&tl, pre, &l); VF_CHECK(r, "addresses written"); }
    t = tl.first;
    for (nl = 0; nl < 3 && t; nl++, t = t->next) {
        pos = 0; int L = strlen(pre);
        VF_CHECK(strncmp(t->line, pre, L) == 0, "every line begins with the keyword");
        pos = L;
        for (i = 0; i < KN; i++) {
            if (t->line[pos] != ' ') break;
            pos++;
            VF_CHECK(k < KN && strncmp(t->line + pos, tokens[k], len[k]) == 0, "the addresses are written in order");
            pos += len[k]; k++;
        }
        VF_CHECK(t->line[pos] == '\r' && t->line[pos + 1] == '\n' && t->line[pos + 2] == 0, "the line ends behind a complete address");
        VF_CHECK(pos <= 13, "lines have the maximal length at most");
        VF_CHECK(i > 0, "no empty lines"); if (nl == 0) fl = k;
    }
    VF_CHECK(!t && k == KN, "every address is written once");
    kludge_to_lon(&tl, &back);
    p = back.first;
    for (i = 0; i < KN; i++) { VF_CHECK(p && p->node.net == i, "reading the lines gives the list back"); p = p->next; }
    VF_CHECK(!p && back.size == KN, "nothing else");
    VF_REACH("written and read");
    if (nl == 2) VF_REACH("two lines");
    VF_CHECK(nl == 1 || strlen(tl.first->line) - 2 + 1 + len[fl] > 13, "a line is broken only where needed");
}
#endif
#ifdef UNPACK
static int nmsg, npacks, faulted, stored, allow, hdrbad, cur;
static int op(void) { if (!faulted && vf_bool()) { faulted = 1; return 1; } return 0; }
int pkt_get_hdr(FILE *f, Packet *p) { (void)f; node_clear(&p->from); node_clear(&p->to); if (vf_bool()) { hdrbad = 1; return ERROR; } return OK; }
long pkt_get_int16(FILE *f) { (void)f; if (vf_bool()) { hdrbad = 1; return ERROR; } return MSG_TYPE; }
int pkt_get_msg_hdr(FILE *f, Message *m, bool s) { (void)m; (void)s; getc(f); if (vf_bool()) { hdrbad = 1; return ERROR; } npacks++; return OK; }
static char areatext[] = "AREA:X\r";
short int pkt_get_body_parse(FILE *f, MsgBody *b, Node *from, Node *to)
{ (void)f; (void)from; (void)to; if (vf_bool()) { hdrbad = 1; return ERROR; } msg_body_init(b); b->area = vf_bool() ? areatext : NULL; return OK; }
void kludge_pt_intl(MsgBody *b, Message *m, short d) { (void)b; (void)m; (void)d; }
int msg_parse_origin(char *b, Node *n) { (void)b; (void)n; return OK; }
int msg_parse_msgid(char *b, Node *n) { (void)b; (void)n; return OK; }
static Spy spy;
Spy *spyes_lookup(Node *n) { (void)n; return vf_bool() ? &spy : NULL; }
static int need;
int do_netmail(Packet *p, Message *m, MsgBody *b, int fw)
{ (void)p; (void)b; if (op()) return ERROR; if (!fw) stored++; m->node_to.net = 0; return OK; }
int do_echomail(Packet *p, Message *m, MsgBody *b) { (void)p; (void)m; (void)b; if (op()) return ERROR; stored++; return OK; }
int outpkt_close(void) { return op() ? ERROR : OK; }
void GetTimeInfo(TIMEINFO *t) { t->time = 1000000; t->usec = 0; t->tzone = 0; t->isdst = 0; }
char *znfp1(Node *n) { (void)n; return "a"; }
char *znfp2(Node *n) { (void)n; return "a"; }
char *znfp3(Node *n) { (void)n; return "a"; }
void tmps_freeall(void) { }
void h_unpack(void)
{
    int ino = vf_mkfile("i/p.pkt"), d, b, r;
    vf_inodes[ino].len = nmsg = vf_range(0, NMSG);
    maxmsg = vf_range(0, 2); x_flag = vf_bool();
    r = unpack_file("i/p.pkt");
    d = vf_lookup("i/p.pkt"); b = vf_lookup("i/p.bad");
    VF_CHECK(vf_open_count == 0, "the packet file is closed");
    if (faulted || hdrbad) VF_CHECK(d >= 0 || b >= 0 || (!faulted && stored == nmsg), "the packet is kept or renamed as bad when a message was not stored");
    if (d < 0 && b < 0) {
        VF_CHECK(!faulted, "a packet is removed only when nothing failed");
        VF_CHECK(stored == nmsg || (nmsg && stored == 0 && hdrbad && npacks == 0), "a packet is removed only when every message was stored");
        VF_REACH("packet processed and removed");
    } else {
        VF_CHECK(vf_dents[d >= 0 ? d : b].ino == ino && vf_inodes[ino].len == nmsg, "a packet that is kept is unchanged");
        VF_CHECK(faulted || hdrbad, "a good packet is not kept");
        VF_REACH("packet kept");
    }
}
#endif
