/* P31: splitting lines into words */
#include "vfh.h"
#ifndef N
#define N 6
#endif
#define CALLS 3
static char line[N + 1], word[N + 1];
static int pos, end, none;
static int is_in(char c, const char *set) { int i; for (i = 0; set[i]; i++) if (set[i] == c) return 1; return 0; }
/* the next word, by the documented rules */
static void next(const char *delim, int quote)
{
    int k, n = 0, st = 0;        /* 0 before the word, 1 in a plain word, 2 in a quoted word, 3 behind */
    none = 1; word[0] = 0;
    if (end) return;
    for (k = 0; k <= N; k++) {
        char c = line[k];
        if (k < pos) continue;
        if (st == 0) {
            if (!c) { end = 1; return; }
            if (is_in(c, delim)) continue;
            none = 0;
            if (quote && c == '"') { st = 2; continue; }
            st = 1; word[n++] = c;
        } else if (st == 1) {
            if (!c) { end = 1; break; }
            if (is_in(c, delim)) { st = 3; continue; }
            word[n++] = c;
        } else if (st == 2) {
            if (!c) { pos = k; break; }
            if (c == '\\' && line[k + 1] == '"') { word[n++] = '"'; k++; continue; }
            if (c == '"') { pos = k + 1; break; }
            word[n++] = c;
        } else {                  /* skip what separates it from the next word */
            if (c && is_in(c, delim)) continue;
            pos = k; break;
        }
    }
    word[n] = 0;
}
static void run(const char *d1, const char *d2, int quote)
{
    char *l = 0, *t, *s = malloc(N + 1);
    int i, n;
    VF_ASSUME(s != NULL);
    vf_str(line, N);
    for (n = 0; n <= N; n++) s[n] = line[n];
    for (i = 0; i < CALLS; i++) {
        t = strtok_r_ext(i ? NULL : s, i ? d2 : d1, &l, quote);
        next(i ? d2 : d1, quote);
        VF_CHECK((t == NULL) == none, "a word is returned exactly when there is one");
        if (t == NULL || none) { VF_REACH("end"); break; }
        for (n = 0; n <= N; n++) { VF_CHECK(t[n] == word[n], "the word is the one the rules define"); if (!word[n] || !t[n]) break; }
        VF_REACH("word");
    }
}
void h_plain(void) { run(" \t", " \t", FALSE); }
void h_quoted(void) { run(" \t", " \t", DQUOTE); }
void h_line(void) { run(" \t", "\r\n", DQUOTE); }
