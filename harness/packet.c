#include "vfh.h"
extern struct tm vf_tm;
int cf_defzone(void) { return 2; }

/* calendar time is opaque: the model converts t to *this* broken-down time
   and back; anything else is a different time */
static struct tm gt;
static int mk_n; static struct tm mk_arg;
time_t vf_time(time_t *t) { if (t) *t = vf_now; return vf_now; }
int vf_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = vf_now; tv->tv_usec = 0; return 0; }
struct tm *vf_localtime(const time_t *t) { gt = vf_tm; if (*t != vf_now) gt.tm_year++; return &gt; }
struct tm *vf_gmtime(const time_t *t) { return vf_localtime(t); }
time_t vf_mktime(struct tm *t)
{
    mk_arg = *t; mk_n++;
    return t->tm_year == vf_tm.tm_year && t->tm_mon == vf_tm.tm_mon && t->tm_mday == vf_tm.tm_mday && t->tm_hour == vf_tm.tm_hour && t->tm_min == vf_tm.tm_min && t->tm_sec == vf_tm.tm_sec ? vf_now : vf_now + 1;
}
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *t) { (void)f; (void)t; if (n) b[0] = 0; return 0; }

static void any_time(void)
{
    vf_tm.tm_year = vf_range(0, 199); vf_tm.tm_mon = vf_range(0, 11); vf_tm.tm_mday = vf_range(1, 31);
    vf_tm.tm_hour = vf_range(0, 23); vf_tm.tm_min = vf_range(0, 59); vf_tm.tm_sec = vf_range(0, 59);
}
void h_hdr_roundtrip(void)
{
    Packet p, q;
    FILE *f;
    int i;
    node_clear(&p.from); node_clear(&p.to);
    p.from.zone = vf_range(1, 65535); p.from.net = vf_u16(); p.from.node = vf_u16(); p.from.point = vf_u16();
    p.to.zone = vf_range(1, 65535); p.to.net = vf_u16(); p.to.node = vf_u16(); p.to.point = vf_u16();
    VF_ASSUME(p.from.net != 0xffff);
    vf_str(p.passwd, PKT_MAXPASSWD);
    any_time();
    p.time = vf_now;
    f = vf_stream_on(0, "w+");
    VF_CHECK(pkt_put_hdr(f, &p) == OK, "writing a packet header succeeds");
    VF_CHECK(vf_inodes[0].len == 58, "packet header is 58 bytes");
    rewind(f);
    memset(&q, 0x5a, sizeof(q));
    VF_CHECK(pkt_get_hdr(f, &q) == OK, "header just written is readable");
    VF_CHECK(q.from.zone == p.from.zone && q.from.net == p.from.net && q.from.node == p.from.node && q.from.point == p.from.point, "origin address survives");
    VF_CHECK(q.to.zone == p.to.zone && q.to.net == p.to.net && q.to.node == p.to.node && q.to.point == p.to.point, "destination address survives");
    VF_CHECK(q.time == p.time, "packet time survives");
    VF_CHECK(strcmp(q.passwd, p.passwd) == 0, "packet password survives");
    VF_CHECK(q.version == 2, "packet version is 2");
    VF_CHECK(q.product_l == p.product_l && q.product_h == p.product_h && q.rev_min == p.rev_min && q.rev_maj == p.rev_maj && q.baud == p.baud && q.capword == p.capword, "product data survives");
    VF_CHECK(VFS(f)->pos == 58, "reading consumes the header exactly");
    VF_REACH("header read back");
}
/* every 58 byte string as header: fixed offsets, range checks */
static unsigned at16(int o) { return vf_inodes[0].data[o] | vf_inodes[0].data[o + 1] << 8; }
void h_hdr_any(void)
{
    Packet q; FILE *f; int i, r, bad, cw;
    unsigned oz, dz;
    any_time();
    vf_bytes(vf_inodes[0].data, 58);
    vf_inodes[0].len = 58;
    f = vf_stream_on(0, "r");
    memset(&q, 0x5a, sizeof(q));
    r = pkt_get_hdr(f, &q);
    bad = at16(4) < 1900 || at16(4) > 2099 || at16(6) > 11 || at16(8) > 31 || at16(10) > 23 || at16(12) > 59 || at16(14) > 59 || at16(18) != 2;
    VF_CHECK((r == ERROR) == bad, "exactly the headers with values out of range or another version are refused");
    if (r != OK) { VF_REACH("refused"); return; }
    VF_CHECK(mk_arg.tm_year == (int)at16(4) - 1900 && mk_arg.tm_mon == (int)at16(6) && mk_arg.tm_hour == (int)at16(10) && mk_arg.tm_min == (int)at16(12) && mk_arg.tm_sec == (int)at16(14)
             && (at16(8) == 0 || mk_arg.tm_mday == (int)at16(8)), "date and time are taken from their fields");
    VF_CHECK(q.from.node == (int)at16(0) && q.to.node == (int)at16(2) && q.to.net == (int)at16(22), "node and net are taken from their fields");
    cw = at16(44) != 0 && at16(44) == (unsigned)(vf_inodes[0].data[40] << 8 | vf_inodes[0].data[41]);
    oz = at16(34) ? at16(34) : 2; dz = at16(36) ? at16(36) : 2;
    if (cw && at16(46)) oz = at16(46);
    if (cw && at16(48)) dz = at16(48);
    VF_CHECK(q.from.zone == (int)oz && q.to.zone == (int)dz, "zone: FSC-0039 field, else FTS-0001 field, else default");
    VF_CHECK(q.from.point == (cw ? (int)at16(50) : 0) && q.to.point == (cw ? (int)at16(52) : 0), "points are taken from type 2+ headers only");
    if (at16(20) != 0xffff) VF_CHECK(q.from.net == (int)at16(20), "origin net is taken from its field");
    else VF_CHECK(q.from.net == (q.from.point ? (int)at16(38) : q.to.net), "FSC-0048: net of a point packet comes from the auxiliary field");
    for (i = 0; i < 8; i++) VF_CHECK(q.passwd[i] == (char)vf_inodes[0].data[26 + i], "password is taken from its field");
    VF_CHECK(q.passwd[8] == 0, "password is terminated");
    VF_REACH("accepted");
}
void h_hdr_short(void)
{
    Packet q; FILE *f; int r;
    any_time();
    vf_bytes(vf_inodes[0].data, 58);
    vf_inodes[0].len = vf_range(0, 57);
    f = vf_stream_on(0, "r");
    r = pkt_get_hdr(f, &q);
    VF_CHECK(r == ERROR, "a header cut short is refused");
    VF_REACH("refused");
}
/* a failing write is reported */
void h_hdr_fault(void)
{
    Packet p; FILE *f; int r;
    node_clear(&p.from); node_clear(&p.to); p.passwd[0] = 0; p.time = vf_now;
    f = vf_stream_on(0, "w+");
    vf_fault_on = 1;
    r = pkt_put_hdr(f, &p);
    VF_CHECK((r == ERROR) == (vf_faults > 0), "a failing write of the header is reported as ERROR");
    if (vf_faults) VF_REACH("failed");
    else VF_REACH("written");
}
/* ---------------------------------------------------------------- P03 */
#ifndef N
#define N 6
#endif
void h_get_string(void)
{
    FILE *f = vf_stream_on(0, "r");
    int len = vf_range(0, N), size = vf_range(1, N + 1), i, l = 0;
    size_t r;
    char *b = malloc(N + 2);
    vf_bytes(vf_inodes[0].data, N);
    vf_inodes[0].len = len;
    for (i = 0; i < N + 2; i++) b[i] = 'x';
    r = pkt_get_string(f, b, size);
    while (l < len && vf_inodes[0].data[l]) l++;
    VF_CHECK(VFS(f)->pos == (l < len ? l + 1 : l), "the string is consumed up to and including its terminator");
    VF_CHECK(r == (size_t)VFS(f)->pos, "the result is the number of bytes read");
    for (i = 0; i < N; i++) if (i < l && i < size - 1) VF_CHECK(b[i] == (char)vf_inodes[0].data[i], "the buffer holds the longest prefix that fits");
    VF_CHECK(b[l < size - 1 ? l : size - 1] == 0, "the string is terminated inside the buffer");
    for (i = 0; i < N + 2; i++) if (i >= size) VF_CHECK(b[i] == 'x', "nothing is stored behind the buffer");
    if (l == size - 1 && l < len) VF_REACH("string fills the buffer");
    if (l >= size) VF_REACH("string longer than the buffer");
    VF_REACH("read");
}
void h_get_ints(void)
{
    FILE *f = vf_stream_on(0, "r");
    char b[4] = { 1, 2, 3, 4 }; long v; int n, i, len = vf_range(0, 4), r;
    vf_bytes(vf_inodes[0].data, 4);
    vf_inodes[0].len = len;
    v = pkt_get_int16(f);
    VF_CHECK(len >= 2 ? v == (long)(vf_inodes[0].data[0] + 256 * vf_inodes[0].data[1]) : v == ERROR, "16 bit integer: low byte first, a short file is an error");
    rewind(f);
    n = vf_range(0, 4);
    r = pkt_get_nbytes(f, b, n);
    VF_CHECK((r == ERROR) == (n > len), "a block cut short is an error");
    for (i = 0; i < 4; i++) VF_CHECK(b[i] == (i < n && i < len ? (char)vf_inodes[0].data[i] : i + 1), "exactly the bytes asked for are stored");
    VF_REACH("read");
}
time_t vf_date_ret;
#ifdef MSGHDR
static char *pd_text; static int pd_n;
static char pd_buf[24];
time_t parsedate(char *s, TIMEINFO *now)
{ int i; (void)now; pd_n++; for (i = 0; i < 23 && s[i]; i++) pd_buf[i] = s[i]; return vf_date_ret; }
char *date_tz(char *fmt, time_t *t, char *tz) { (void)fmt; (void)t; (void)tz; return "01 Jan 01  00:00:00"; }
/* fields shrunk to MSG_MAXNAME/MSG_MAXSUBJ (registry) */
static Message m;
void h_get_msg_hdr(void)
{
    FILE *f = vf_stream_on(0, "r");
    int i, r, strict = vf_bool(), p, st[3], ln[3], k, over = 0;
    char *fld[3] = { m.name_to, m.name_from, m.subject };
    int cap[3] = { sizeof(m.name_to), sizeof(m.name_from), sizeof(m.subject) }, lim[3] = { MSG_MAXNAME, MSG_MAXNAME, MSG_MAXSUBJ };
    memset(&m, 0x55, sizeof(m));
    vf_bytes(vf_inodes[0].data, 12);
    for (i = 12; i < 32; i++) vf_inodes[0].data[i] = 'd';
    /* three strings of arbitrary length around the limits */
    p = 32;
    for (k = 0; k < 3; k++) {
        ln[k] = k == WHICH ? vf_range(0, LMAX) : 1;
        st[k] = p;
        for (i = 0; i < LMAX; i++) if (i < ln[k]) { unsigned char c = vf_u8(); VF_ASSUME(c); vf_inodes[0].data[p + i] = c; }
        p += ln[k];
        vf_inodes[0].data[p++] = 0;
    }
    vf_inodes[0].len = p;
    vf_date_ret = 12345;
    r = pkt_get_msg_hdr(f, &m, strict);
    for (k = 0; k < 3; k++) if (ln[k] + 1 > lim[k]) over = 1;
    VF_CHECK(strict && over ? r == ERROR : r == OK, "over-long fields are refused in strict mode only");
    if (r == ERROR) { VF_REACH("refused"); return; }
    VF_CHECK(VFS(f)->pos == p, "the header is consumed exactly");
    VF_CHECK(m.node_from.node == (int)at16(0) && m.node_to.node == (int)at16(2) && m.node_from.net == (int)at16(4) && m.node_to.net == (int)at16(6)
             && m.attr == (int)at16(8) && m.cost == (int)at16(10), "fixed fields are taken from their places");
    VF_CHECK(m.date == 12345 && pd_n == 1, "date is parsed");
    for (i = 0; i < 20; i++) VF_CHECK(pd_buf[i] == 'd', "the 20 date bytes are parsed");
    VF_CHECK(m.area == NULL, "no area yet");
    for (k = 0; k < 3; k++) {
        int l = ln[k] < cap[k] - 1 ? ln[k] : cap[k] - 1;
        for (i = 0; i < LMAX; i++) if (i < l) VF_CHECK(fld[k][i] == (char)vf_inodes[0].data[st[k] + i], "names and subject hold the longest prefix that fits");
        VF_CHECK(fld[k][l] == 0, "names and subject are terminated inside their buffers");
    }
    VF_REACH("read");
}
/* ---------------------------------------------------------------- P02 */
static char save[3][LMAX + 1];
/* address printing (P05) replaced: record what is printed */
static Node za, zb;
#ifdef ZNSTUB
char *znf1(Node *n) { za = *n; return "DST"; }
char *znf2(Node *n) { zb = *n; return "SRC"; }
#endif
static int num(int *p)
{ int v = 0, n = 0; while (n < 6 && vf_inodes[0].data[*p] >= '0' && vf_inodes[0].data[*p] <= '9') { v = v * 10 + vf_inodes[0].data[*p] - '0'; (*p)++; n++; } VF_CHECK(n > 0, "kludge holds a number"); return v; }
static void lit(int *p, const char *s)
{ for (; *s; s++, (*p)++) VF_CHECK(vf_inodes[0].data[*p] == (unsigned char)*s, "kludge text"); }
static void any_msg(Message *w, int nm)
{
    int k, i; char *fld[3];
    int pre[3] = { nm ? 0 : PRE, nm ? 0 : PRE, nm ? 0 : PRES };
    memset(w, 0, sizeof(*w));
    fld[0] = w->name_to; fld[1] = w->name_from; fld[2] = w->subject;
    node_clear(&w->node_from); node_clear(&w->node_to);
    w->node_from.net = vf_u16(); w->node_from.node = vf_u16(); w->node_to.net = vf_u16(); w->node_to.node = vf_u16();
    w->node_from.zone = vf_u16(); w->node_to.zone = vf_u16();
    w->node_from.point = vf_u16(); w->node_to.point = vf_u16();
    w->attr = vf_u16(); w->cost = vf_u16();
    w->date = 1; w->tz = NULL; w->area = NULL;
    for (k = 0; k < 3; k++) {
        int sym = !nm && k == WHICH;
        if (!sym) { fld[k][0] = 'A' + k; fld[k][1] = 0; continue; }
        for (i = 0; i < pre[k]; i++) fld[k][i] = 'p';
        vf_str(fld[k] + pre[k], SUF);
    }
    for (k = 0; k < 3; k++) for (i = 0; i <= LMAX; i++) save[k][i] = fld[k][i];
}
void h_msg_roundtrip(void)
{
    Message w; FILE *f = vf_stream_on(0, "w+"); int k, i, r; char *fld[3], lim[3] = { MSG_MAXNAME, MSG_MAXNAME, MSG_MAXSUBJ };
    any_msg(&w, 0);
    r = pkt_put_msg_hdr(f, &w, FALSE);
    VF_CHECK(r == OK, "writing succeeds");
    rewind(f);
    VF_CHECK(pkt_get_int16(f) == MSG_TYPE, "message type word");
    memset(&m, 0x55, sizeof(m));
    vf_date_ret = 1;
    r = pkt_get_msg_hdr(f, &m, true);
    VF_CHECK(r == OK, "the header just written is accepted in strict mode");
    VF_CHECK(VFS(f)->pos == vf_inodes[0].len, "reading consumes the header exactly");
    VF_CHECK(m.node_from.net == w.node_from.net && m.node_from.node == w.node_from.node && m.node_to.net == w.node_to.net && m.node_to.node == w.node_to.node, "net/node addresses survive");
    VF_CHECK(m.attr == w.attr && m.cost == w.cost, "attribute word and cost survive");
    VF_CHECK(strcmp(pd_buf, "01 Jan 01  00:00:00") == 0, "date survives");
    fld[0] = m.name_to; fld[1] = m.name_from; fld[2] = m.subject;
    for (k = 0; k < 3; k++)
        for (i = 0; i < lim[k]; i++) {
            char e = i < lim[k] - 1 ? save[k][i] : 0;
            VF_CHECK(fld[k][i] == e, "names and subject survive up to the FTS-0001 limit");
            if (!e) break;
        }
    VF_REACH("read back");
}
void h_msg_kludges(void)
{
    Message w; FILE *f = vf_stream_on(0, "w+"); int r, p, i; static char area[4];
    any_msg(&w, 1);
    if (AREA) { vf_str(area, 3); w.area = area; }
    r = pkt_put_msg_hdr(f, &w, TRUE);
    VF_CHECK(r == OK, "writing succeeds");
    rewind(f); VFS(f)->pos = 2;
    vf_date_ret = 1;
    r = pkt_get_msg_hdr(f, &m, true);
    VF_CHECK(r == OK, "header is readable");
    p = VFS(f)->pos;
    if (w.area) {
        lit(&p, "AREA:");
        for (i = 0; i < 3 && area[i]; i++, p++) VF_CHECK(vf_inodes[0].data[p] == (unsigned char)area[i], "area name survives");
        lit(&p, "\r");
    } else {
        lit(&p, "\001INTL DST SRC\r");
        VF_CHECK(za.zone == w.node_to.zone && za.net == w.node_to.net && za.node == w.node_to.node && za.point == 0 && !za.domain[0], "INTL carries zone:net/node of the destination");
        VF_CHECK(zb.zone == w.node_from.zone && zb.net == w.node_from.net && zb.node == w.node_from.node && zb.point == 0 && !zb.domain[0], "INTL carries zone:net/node of the origin");
        if (w.node_from.point) { lit(&p, "\001FMPT "); VF_CHECK(num(&p) == w.node_from.point, "origin point is carried by FMPT"); lit(&p, "\r"); }
        if (w.node_to.point) { lit(&p, "\001TOPT "); VF_CHECK(num(&p) == w.node_to.point, "destination point is carried by TOPT"); lit(&p, "\r"); }
    }
    VF_CHECK(p == vf_inodes[0].len, "nothing else is written");
    VF_REACH("kludges read");
}
#endif
/* ---------------------------------------------------------------- P34: pkt_* */
static int seqn;
#ifdef PKTFILES
long sequencer(char *n) { return n[0] == 's' ? 7 : ++seqn; }
Passwd *passwd_lookup(const char *c, Node *n) { (void)c; (void)n; return NULL; }
Node *cf_addr(void) { static Node a; return &a; }
void cf_set_best(int z, int n, int nd) { (void)z; (void)n; (void)nd; }
Node cf_n_addr(void) { static Node a; return a; }
char *cf_p_seq_pkt(void) { return "s"; }
char *cf_p_seq_toss(void) { return "t"; }
Node *cf_uplink(void) { static Node a; return &a; }
char *str_expand_name(char *d, size_t n, char *s) { (void)n; d[0] = s[0]; d[1] = 0; return d; }
#ifndef HDRSTUB
#define HDRSTUB 4
#endif
/* header of HDRSTUB bytes (the real one is checked by P01) */
int pkt_put_hdr(FILE *f, Packet *p) { int i; (void)p; for (i = 0; i < HDRSTUB; i++) putc('H', f); return ferror(f) ? ERROR : OK; }
static int chk_pkt(const char *name, const char *msgs, int nm)
{
    int d = vf_lookup(name), i, k = HDRSTUB;
    if (d < 0) return 0;
    VF_CHECK(vf_inodes[vf_dents[d].ino].len == HDRSTUB + nm + 2, "a published packet is complete: header, every message, terminator");
    for (i = 0; i < nm; i++, k++) VF_CHECK(vf_inodes[vf_dents[d].ino].data[k] == (unsigned char)msgs[i], "messages of a published packet are there in order");
    VF_CHECK(vf_inodes[vf_dents[d].ino].data[k] == 0 && vf_inodes[vf_dents[d].ino].data[k + 1] == 0, "a published packet ends with the zero word");
    return 1;
}
void h_pkt_file(void)
{
    Node n; FILE *f; int r, wr = 1; char ms[2];
    node_clear(&n); n.zone = 1;
    pkt_outdir("o", NULL);
    vf_fault_on = 1; vf_fault_max = 1;
    f = pkt_open(NULL, NULL, NULL, FALSE);
    if (!f) {
        VF_CHECK(vf_faults > 0, "a packet can be opened unless an operation fails");
        VF_CHECK(!pkt_isopen(), "no packet is left open");
        r = pkt_close();
        VF_CHECK(vf_lookup("o/00000007.pkt") < 0, "a packet that could not be opened is not published");
        VF_CHECK(vf_open_count == 0, "no file is left open");
        VF_REACH("open failed");
        return;
    }
    ms[0] = vf_u8(); VF_ASSUME(ms[0]); ms[1] = vf_u8(); VF_ASSUME(ms[1]);
    if (putc(ms[0], f) == EOF) wr = 0;
    if (putc(ms[1], f) == EOF) wr = 0;
    VF_CHECK(vf_lookup("o/00000007.pkt") < 0, "nothing is published before the packet is closed");
    r = pkt_close();
    VF_CHECK((r == OK) == (vf_faults == 0), "success is reported exactly if nothing failed");
    VF_CHECK((vf_lookup("o/00000007.pkt") >= 0) == (r == OK), "the packet is published exactly if closing it succeeded");
    chk_pkt("o/00000007.pkt", ms, 2);
    VF_CHECK(vf_open_count == 0 && !pkt_isopen(), "no file is left open");
    if (r == OK) VF_REACH("published"); else VF_REACH("failed");
}
#ifdef SEQ
/* outpkt: a history of messages to up to two links, limited open files, one failing operation */
#ifndef STEPS
#define STEPS 3
#endif
void h_outpkt(void)
{
    static char ms[2][STEPS]; static int nm[2], bad[2]; Node n[2]; FILE *f; int i, w, k;
    static char *names[2] = { "o/ent00001.pkt", "o/ent00002.pkt" }; int first = -1;
    node_clear(&n[0]); n[0].zone = 1; n[0].node = 1; n[1] = n[0]; n[1].node = 2;
    pkt_outdir("o", NULL);
    static const int seq[] = { SEQ };
    outpkt_set_maxopen(MAXO);
    vf_fault_on = FAULTS; vf_fault_max = 1;
    for (i = 0; i < STEPS; i++) {
        char c = vf_u8();
        VF_ASSUME(c);
        w = seq[i];
        if (first < 0) first = w;
        f = outpkt_open(&n[0], &n[w], 'e', 'n', 't', FALSE);
        if (!f) { VF_CHECK(vf_faults > 0, "a packet is opened unless an operation fails"); break; }
        if (putc(c, f) == EOF) { bad[w] = 1; break; }    /* reported: the caller stops here */
        ms[w][nm[w]++] = c;
    }
    VF_CHECK(vf_lookup(names[0]) < 0 && vf_lookup(names[1]) < 0, "nothing is published before the end");
    outpkt_close();
    VF_CHECK(vf_open_count == 0, "no file is left open");
    for (w = 0; w < 2; w++) {
        char *nn = w == first ? names[0] : names[1];
        if (vf_lookup(nn) >= 0) {
            VF_CHECK(!bad[w], "a packet that could not be written is not published");
            chk_pkt(nn, ms[w], nm[w]);
            VF_REACH("published");
        } else
            VF_CHECK(nm[w] == 0 || vf_faults > 0, "every packet is published unless an operation failed");
    }
    if (vf_faults) VF_REACH("operation failed");
}
#endif
#endif
