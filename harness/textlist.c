/* P10: line lists behave like plain sequences */
#include "vfh.h"
#define MAX 8
#ifndef OPS
#define OPS 4
#endif
static Textlist a, b;
static char ma[MAX], mb[MAX];      /* model: one letter per line */
static int na, nb;
static long len_sum;

static void same(Textlist *l, char *m, int n)
{
    Textline *p;
    int i;
    VF_CHECK(l->n == (unsigned long)n, "line count is right");
    for (i = 0, p = l->first; i < MAX; i++) {
        if (i >= n) { VF_CHECK(p == NULL, "list ends after the last line"); break; }
        VF_CHECK(p != NULL && p->line != NULL && p->line[0] == m[i] && p->line[1] == 0, "forward: every line, in order");
        if (!p) break;
        p = p->next;
    }
    for (i = 0, p = l->last; i < MAX; i++) {
        if (i >= n) { VF_CHECK(p == NULL, "list starts with the first line"); break; }
        VF_CHECK(p != NULL && p->line != NULL && p->line[0] == m[n - 1 - i] && p->line[1] == 0, "backward: every line, in order");
        if (!p) break;
        p = p->prev;
    }
}
static Textline *nth(Textlist *l, int k)
{
    Textline *p = l->first;
    int i;
    for (i = 0; i < MAX; i++) { if (i == k) break; if (p) p = p->next; }
    return p;
}
static void step(void)
{
    char s[2];
    int i, k, op = vf_range(0, 7);
    s[0] = vf_range('a', 'c'); s[1] = 0;
    switch (op) {
    case 0: tl_append(&a, s); ma[na++] = s[0]; break;
    case 1: tl_append(&b, s); mb[nb++] = s[0]; break;
    case 2:                                  /* delete the k-th */
        if (!na) break;
        k = vf_range(0, MAX - 1); VF_ASSUME(k < na);
        tl_delete(&a, nth(&a, k));
        for (i = 0; i < MAX - 1; i++) if (i >= k) ma[i] = ma[i + 1];
        na--; break;
    case 3:                                  /* move the k-th of a to the end of b */
        if (!na) break;
        { Textline *t; k = vf_range(0, MAX - 1); VF_ASSUME(k < na);
          t = nth(&a, k); tl_remove(&a, t); tl_add(&b, t);
          mb[nb++] = ma[k];
          for (i = 0; i < MAX - 1; i++) if (i >= k) ma[i] = ma[i + 1];
          na--; }
        break;
    case 4:                                  /* append a copy of b */
        VF_ASSUME(na + nb <= MAX);
        tl_addtl(&a, &b);
        for (i = 0; i < MAX; i++) if (i < nb) ma[na + i] = mb[i];
        na += nb; break;
    case 5:                                  /* move all of b */
        VF_ASSUME(na + nb <= MAX);
        tl_addtl_move(&a, &b);
        for (i = 0; i < MAX; i++) if (i < nb) ma[na + i] = mb[i];
        na += nb; nb = 0; break;
    case 6: tl_clear(&b); nb = 0; break;
    case 7:
        VF_ASSUME(na + nb <= MAX);
        tl_copy(&b, &a);
        for (i = 0; i < MAX; i++) if (i < na) mb[nb + i] = ma[i];
        nb += na; break;
    }
    VF_ASSUME(na < MAX && nb < MAX);
}
void h_ops(void)
{
    int i;
    tl_init(&a); tl_init(&b);
    for (i = 0; i < OPS; i++) step();
    same(&a, ma, na);
    same(&b, mb, nb);
    VF_REACH("sequence done");
}
/* one operation from an arbitrary pair of lists of up to 3 lines each */
void h_step(void)
{
    int i;
    char s[2] = "a";
    tl_init(&a); tl_init(&b);
    na = vf_range(0, 3); nb = vf_range(0, 3);
    for (i = 0; i < 3; i++) if (i < na) { s[0] = ma[i] = vf_range('a', 'c'); tl_append(&a, s); }
    for (i = 0; i < 3; i++) if (i < nb) { s[0] = mb[i] = vf_range('a', 'c'); tl_append(&b, s); }
    same(&a, ma, na); same(&b, mb, nb);
    step();
    same(&a, ma, na);
    same(&b, mb, nb);
    VF_REACH("step done");
}
/* searching, sizes, printing, iteration: lists of exactly NL lines */
#ifndef NL
#define NL 3
#endif
static Textline tn[NL + 1];
static char tx[NL + 1][3];
static int tlen[NL + 1];
static void mk(void)
{
    int i;
    tl_init(&a);
    na = NL;
    for (i = 0; i < NL; i++) {
        vf_str(tx[i], 2);
        tlen[i] = tx[i][0] ? (tx[i][1] ? 2 : 1) : 0;
        tn[i].line = tx[i];
        tl_add(&a, &tn[i]);
    }
}
void h_search(void)
{
    int i, want = -1, len;
    char x[3];
    Textline *p;
    mk();
    vf_str(x, 2);
    len = vf_range(0, 2);
    for (i = NL - 1; i >= 0; i--)
        if (len ? strncasecmp(tx[i], x, len) == 0 : strcasecmp(tx[i], x) == 0) want = i;
    p = tl_get(&a, x, len);
    VF_CHECK(want < 0 ? p == NULL : p == &tn[want], "search returns the first matching line");
    VF_REACH("searched");
}
void h_iter(void)
{
    int i;
    Textline *p;
    TextlistIterator it;
    mk();
    tl_iterator_start(&it, &a);
    for (i = 0; i <= NL; i++) {
        p = tl_iterator_next(&it);
        VF_CHECK(i < NL ? p == &tn[i] : p == NULL, "iteration visits every line once");
    }
    for (i = 0, len_sum = 0; i < NL; i++) len_sum += tlen[i];
    VF_CHECK(tl_size(&a) == len_sum, "size is the sum of the line lengths");
    VF_REACH("iterated");
}
void h_print(void)
{
    int i, k, pos = 0;
    FILE *f;
    mk();
    f = vf_stream_on(0, "w");
    tl_print_xx(&a, f, "<", ">");
    for (i = 0; i < NL; i++) {
        VF_CHECK(vf_inodes[0].data[pos] == '<', "prefix"); pos++;
        for (k = 0; k < 2; k++) if (k < tlen[i]) { VF_CHECK(vf_inodes[0].data[pos] == (unsigned char)tx[i][k], "printing keeps text and order"); pos++; }
        VF_CHECK(vf_inodes[0].data[pos] == '>', "suffix"); pos++;
    }
    VF_CHECK(vf_inodes[0].len == pos, "printing writes everything exactly once");
    VF_REACH("printed");
}
void h_chars(void)
{
    int i, k, total = 0;
    char buf[2 * NL + 4], want[2 * NL + 4];
    TextlistCharIterator ci;
    size_t got = 0, chunk = vf_range(1, 3), r;
    mk();
    for (i = 0; i < NL; i++) for (k = 0; k < 2; k++) if (k < tlen[i]) want[total++] = tx[i][k];
    tl_char_iterator_start(&ci, &a);
    for (k = 0; k < 2 * NL + 1; k++) {
        r = tl_char_iterator_next(&ci, buf + got, chunk);
        VF_CHECK(r <= chunk, "no more than asked for");
        got += r;
        VF_CHECK(got <= (size_t)total, "no character twice");
        if (r < chunk) break;
    }
    VF_CHECK(got == (size_t)total, "the character stream has every character");
    for (i = 0; i < 2 * NL; i++) if (i < total) VF_CHECK(buf[i] == want[i], "the character stream is in order");
    VF_REACH("streamed");
}
