/* P03 (lines), P04: message body parsing and writing */
#include "vfh.h"
int cf_defzone(void) { return 2; }

/* -------------------------------------------------- pkt_get_line (P03) */
#ifndef N
#define N 6
#endif
#ifndef SZ
#define SZ 7
#endif
void h_get_line(void)
{
    FILE *f = vf_stream_on(0, "r");
    int len = vf_range(0, N), size = vf_range(4, SZ), r, i, n, plain = 1, pos;
    char *buf = malloc(SZ);
    vf_bytes(vf_inodes[0].data, N);
    vf_inodes[0].len = len;
    for (i = 0; i < SZ; i++) buf[i] = 'x';
    r = pkt_get_line(f, buf, size);             /* out of bounds writes: pointer checks */
    VF_CHECK(r == 0 || r == 1 || r == 2 || r == ERROR, "result is one of the documented values");
    pos = VFS(f)->pos;
    if (r != ERROR) {
        for (n = 0; n < size && buf[n]; n++) ;
        VF_CHECK(n < size, "line is NUL-terminated inside the buffer");
        for (i = 0; i < N; i++) if (i < pos && (vf_inodes[0].data[i] == 0 || vf_inodes[0].data[i] == 2)) plain = 0;
        if (plain) {
            VF_CHECK(r == 1, "text without control bytes is a line");
            VF_CHECK(n == pos, "line holds exactly the bytes consumed");
            for (i = 0; i < N; i++) if (i < pos) VF_CHECK(buf[i] == (char)vf_inodes[0].data[i], "line content equals the packet's");
            if (pos < size - 3) VF_CHECK(pos > 0, "a line is consumed");
            /* the line ends behind CR LF*, unless the buffer is full */
            int cr = -1;
            for (i = 0; i < N; i++) if (i < pos && cr < 0 && buf[i] == '\r') cr = i;
            if (cr >= 0) for (i = 0; i < N; i++) if (i > cr && i < pos) VF_CHECK(buf[i] == '\n', "only line feeds follow the carriage return");
            if (cr < 0) VF_CHECK(n >= size - 3, "a line without end only if the buffer is full");
            if (cr >= 0 && n < size - 3 && pos < len) VF_CHECK(vf_inodes[0].data[pos] != '\n', "all line feeds belong to the line");
        }
        if (r == 2) VF_CHECK(pos >= 2 && vf_inodes[0].data[pos - 1] == 0 && vf_inodes[0].data[pos - 2] == 2, "message end only at a message type word");
        if (r == 0) VF_CHECK(pos >= 3 && !vf_inodes[0].data[pos - 1] && !vf_inodes[0].data[pos - 2] && !vf_inodes[0].data[pos - 3], "packet end only at the zero word");
    } else
        VF_CHECK(VFS(f)->eof, "error only at a premature end of the packet");
    for (i = 0; i < SZ; i++) if (i >= size) VF_CHECK(buf[i] == 'x', "nothing is stored behind the buffer");
    if (r == 1) VF_REACH("line read");
    if (r == 2) VF_REACH("end of message");
    if (r == 0) VF_REACH("end of packet");
    if (r == ERROR) VF_REACH("premature end");
    free(buf);
}

/* -------------------------------------------------- body (P04) */
#ifndef K
#define K 4
#endif
enum { T_KLUDGE, T_AREA, T_BLANK, T_RFC, T_TEXT, T_TEAR, T_TEAR2, T_ORIGIN, T_SEENBY, T_PATH, T_VIA, T_LIKE, NKIND };
#define LL 14
static const char tmpl[NKIND][LL] = {
    "\001K@\r", "AREA:@\r", "\r", "To: @\r", "t@\r", "---\r", "--- @\r", " * Origin:@\r", "SEEN-BY@\r", "\001PATH@\r", "\001Via@\r", "----@\r" };
#ifndef NOLAST
#define NOLAST 0
#endif
#define nolast NOLAST       /* the last line is not terminated */
static int kind[K + 1], nlines, lno;
#ifdef BODY
static char pool[K + 2][24], synth[3][24];
/* the current line is saved in its own slot; saved lines are shared (never freed) */
char *strsave(char *s)
{
    int i; char *p;
    if (s != buffer) return s;
    if (lno < K + !NOLAST) p = pool[lno];
    else if (s[0] == 'S' && s[7] == ':') p = synth[0];       /* lines made up at the end */
    else if (s[0] == 1 && s[5] == ':') p = synth[1];
    else if (!s[0]) p = synth[2];
    else p = pool[lno];
    for (i = 0; i < 23 && s[i]; i++) p[i] = s[i];
    p[i] = 0;
    return p;
}
void *xmalloc(int n) { VF_CHECK(n == sizeof(Textline), "only lines are allocated"); return malloc(sizeof(Textline)); }
void xfree(void *p) { (void)p; }
static void mk(char *b, int i)
{
    int j;
    for (j = 0; j < LL; j++) { char c = tmpl[kind[i]][j]; b[j] = c == '@' ? (char)('a' + i) : c; }
}
int pkt_get_line(FILE *f, char *b, int size)
{
    (void)f; (void)size;
    lno++;
    if (lno > K) { b[0] = 0; return MSG_END; }
    mk(b, lno - 1);
    if (nolast && lno == K) {      /* last line without CR: comes with the end of the message */
        int j;
        for (j = 0; j < LL; j++) if (b[j] == '\r') b[j] = 0;
        return MSG_END;
    }
    return 1;
}
static int is_line(const char *s, int i, int cut)
{
    char b[LL + 4]; int j, k = 0;
    mk(b, i);
    for (j = 0; j < LL + 2; j++) {
        if (s[j] != b[j]) {
            /* the completed last line ends with CR LF */
            return cut && s[j] == '\n' && !s[j + 1] && !b[j];
        }
        if (!b[j]) return 1;
    }
    return 0;
}
static void chk_list(Textlist *l, const int *want, const char *what)
{
    Textline *t = l->first; int i, n = 0;
    for (i = 0; i < K; i++)
        if (want[i]) {
            VF_CHECK(t != NULL, "no line of this kind is lost");
            if (!t) return;
            VF_CHECK(is_line(t->line, i, nolast && i == nlines - 1), "lines stay unchanged, in order");
            t = t->next; n++;
        }
    VF_CHECK(t == NULL || n == 0, "no line is added");
}
static MsgBody body;
void h_body(void)
{
    Node a, b; int i, st = 0, blanks = 0, area = -1, r, hi = 0, trailer = 0;
    int kl[K + 1] = {0}, rfc[K + 1] = {0}, txt[K + 1] = {0}, sb[K + 1] = {0}, pa[K + 1] = {0}, via[K + 1] = {0}, cls[K + 1] = {0};
    msg_body_init(&body);
    node_clear(&a); node_clear(&b);
    a.net = b.net = 1; a.node = b.node = 2;
    nlines = K;
    for (i = 0; i < K; i++) { kind[i] = vf_range(0, NKIND - 1); }
#ifdef ECHO
    kind[0] = T_AREA;
#else
    VF_ASSUME(kind[0] == T_KLUDGE);
#endif
#ifdef LASTK
    kind[K - 1] = LASTK;        /* non-empty last line */
#endif
    /* what every line is, by its content and the section it stands in */
    for (i = 0; i < K; i++) {
        int k = kind[i];
        if (i >= nlines) continue;
        if (st == 0) {
            if (k == T_KLUDGE || k == T_PATH || k == T_VIA) { kl[i] = 1; continue; }
            if (k == T_AREA && area < 0) { area = i; continue; }
            st = 1;
        }
        if (st == 1) {
            if (k == T_BLANK && blanks < 2) { blanks++; continue; }
            st = 2;
        }
        if (st == 2) {
            if (k == T_RFC) { rfc[i] = 1; continue; }
            st = 3;
        }
        if (area >= 0 && k == T_SEENBY) { sb[i] = 1; trailer = 1; continue; }
        if (area >= 0 && k == T_PATH) { pa[i] = 1; trailer = 1; continue; }
        if (area < 0 && k == T_VIA) { via[i] = 1; trailer = 1; continue; }
        txt[i] = 1;
        /* text behind the trailer is not part of the message */
        VF_ASSUME(!trailer);
    }
    r = pkt_get_body_parse(vf_stdin, &body, &a, &b);
    VF_CHECK(r == OK, "a message with kludges or area line is accepted");
    chk_list(&body.kludge, kl, "kludge");
    chk_list(&body.rfc, rfc, "rfc");
    if (area >= 0) {
        VF_CHECK(body.area && is_line(body.area, area, nolast && area == nlines - 1), "area line is kept");
        for (i = 0; i < K; i++) hi |= sb[i];
        if (hi) chk_list(&body.seenby, sb, "seenby");
        else VF_CHECK(body.seenby.n == 1 && strcmp(body.seenby.first->line, "SEEN-BY: 1/2\r") == 0, "a missing SEEN-BY is added as a complete line");
        for (hi = 0, i = 0; i < K; i++) hi |= pa[i];
        if (hi) chk_list(&body.path, pa, "path");
        else VF_CHECK(body.path.n == 1 && strcmp(body.path.first->line, "\001PATH: 1/2\r") == 0, "a missing PATH is added as a complete line");
    } else {
        VF_CHECK(body.area == NULL, "no area line is invented");
        chk_list(&body.via, via, "via");
    }
    /* text + tear line + origin: every line once, in order */
    {
        Textline *t = body.body.first;
        int tear = 0, orig = 0, swapped = 0, last = -1, last2 = -1, last3 = -1, bad = 0;
        for (i = 0; i < K; i++) if (txt[i]) { last3 = last2; last2 = last; last = i; }
        for (i = 0; i < K; i++) {
            int cut;
            if (!txt[i]) continue;
            cut = nolast && i == nlines - 1;
            if (t) {
                VF_CHECK(is_line(t->line, i, cut), "text lines stay unchanged, in order, none lost");
                t = t->next;
            } else if (!tear && !orig && body.tear && is_line(body.tear, i, cut)) tear = 1;
            else if (!orig && body.origin && is_line(body.origin, i, cut)) orig = 1;
            else if (!tear && body.tear && is_line(body.tear, i, cut)) { tear = 1; swapped = 1; }
            else bad = 1;
        }
        VF_CHECK(!bad, "the last text lines are the tear line and the origin");
        VF_CHECK(t == NULL, "no text line is added");
        if (!tear) VF_CHECK(area >= 0 ? body.tear && strcmp(body.tear, "---\r") == 0 : !body.tear, "a missing tear line of echomail is added");
        if (!orig) VF_CHECK(!body.origin || !body.origin[0], "no origin is invented");
        if (swapped) VF_CHECK(last2 >= 0 && kind[last2] == T_ORIGIN, "only an origin before the tear line is moved");
        if (last2 >= 0 && kind[last] == T_ORIGIN && (kind[last2] == T_TEAR || kind[last2] == T_TEAR2)
            && (last3 < 0 || kind[last3] == T_TEXT || kind[last3] == T_BLANK || kind[last3] == T_LIKE))
            VF_CHECK(tear && orig, "tear line and origin at the end are recognised");
#ifndef NOTEAR
        if (tear || orig) VF_REACH("tear line or origin");
#endif
        if (last >= 0) VF_REACH("text");
    }
    VF_REACH("parsed");
}
#endif
/* order of the parts in the written message */
static void one(Textlist *l, Textline *t, char *b, int n)
{
    int i;
    tl_init(l);
    for (i = 0; i < 2; i++) if (i < n) { t[i].line = b + 3 * i; tl_add(l, &t[i]); }
}
#ifndef PAT
#define PAT 2,2,2,2,2,2
#endif
void h_put(void)
{
    static const int pat[6] = { PAT };
    MsgBody m; Textline t[6][2]; char b[6][6], s[3][3]; int n[6], i, j, k = 0, has[3];
    FILE *f = vf_stream_on(0, "w+");
    Textlist *l[6] = { &m.kludge, &m.rfc, &m.body, &m.seenby, &m.path, &m.via };
    for (i = 0; i < 6; i++) {
        n[i] = pat[i];
        for (j = 0; j < 2; j++) { b[i][3 * j] = vf_u8(); VF_ASSUME(b[i][3 * j]); b[i][3 * j + 1] = 0; }
        one(l[i], t[i], b[i], n[i]);
    }
    for (i = 0; i < 3; i++) { has[i] = vf_bool(); s[i][0] = vf_u8(); VF_ASSUME(s[i][0]); s[i][1] = 0; }
    m.area = has[0] ? s[0] : NULL; m.tear = has[1] ? s[1] : NULL; m.origin = has[2] ? s[2] : NULL;
    VF_CHECK(msg_put_msgbody(f, &m) == OK, "writing succeeds");
#define EXP(c) do { VF_CHECK(vf_inodes[0].data[k] == (unsigned char)(c), "message parts come out unchanged, in the standard order"); k++; } while(0)
#define LIST(x) for (j = 0; j < 2; j++) if (j < n[x]) { EXP(b[x][3 * j]); }
    if (has[0]) EXP(s[0][0]);
    LIST(0) LIST(1) LIST(2)
    if (has[1]) EXP(s[1][0]);
    if (has[2]) EXP(s[2][0]);
    LIST(3) LIST(4) LIST(5)
    EXP(0);
    VF_CHECK(vf_inodes[0].len == k, "nothing else is written");
    VF_REACH("written");
}
/* failing writes are reported */
void h_put_fault(void)
{
    MsgBody m; Textline t; char b[3] = "x\r"; int r;
    FILE *f = vf_stream_on(0, "w+");
    msg_body_init(&m);
    t.line = b; tl_add(&m.body, &t);
    m.tear = b;
    vf_fault_on = 1;
    r = msg_put_msgbody(f, &m);
    VF_CHECK((r != OK) == (vf_faults > 0), "a failing write is reported, and only that");
    if (vf_faults) VF_REACH("write failed");
}
