/*
 * Models of the operating-system boundary.  Compiled with goto-cc for the
 * solver and with gcc for the native replay: the same model in both.
 */
#define VF_MODEL_IMPL
#include "vf.h"
#ifdef __CPROVER
int vf_errno;
#endif

/* ------------------------------------------------------------------ inputs */
#ifdef __CPROVER
unsigned char nondet_vf_uchar(void);
unsigned short nondet_vf_ushort(void);
unsigned int nondet_vf_uint(void);
unsigned long vf_draw;             /* every draw is assigned here: the trace
                                      gives the replay its input values */
unsigned char vf_u8(void) { unsigned char v = nondet_vf_uchar(); vf_draw = v; return v; }
unsigned vf_u16(void) { unsigned short v = nondet_vf_ushort(); vf_draw = v; return v; }
unsigned vf_u32(void) { unsigned v = nondet_vf_uint(); vf_draw = v; return v; }
#else
static FILE *vf_replay;
#undef fopen
#undef exit
#undef fprintf
#undef fflush
#undef stderr
#undef stdout
#undef getenv
#undef fclose
#undef printf
#undef setvbuf
extern FILE *stderr, *stdout;
static unsigned long vf_next(void)
{
    unsigned long v;
    if (!vf_replay) {
        char *n = getenv("VF_REPLAY");
        vf_replay = n ? fopen(n, "r") : 0;
        if (!vf_replay) { fprintf(stderr, "no replay input\n"); _exit(79); }
    }
#undef fscanf
    if (fscanf(vf_replay, "%lu", &v) != 1) {
        v = 0; /* inputs beyond the trace: don't care */
    }
    return v;
}
unsigned char vf_u8(void) { return (unsigned char)vf_next(); }
unsigned vf_u16(void) { return (unsigned short)vf_next(); }
unsigned vf_u32(void) { return (unsigned)vf_next(); }
void vf_check_failed(const char *m, const char *f, int l)
{ fprintf(stderr, "VF-CHECK-FAILED: %s (%s:%d)\n", m, f, l); fflush(stderr); _exit(77); }
void vf_assume_failed(const char *f, int l)
{ fprintf(stderr, "VF-ASSUME-FAILED %s:%d\n", f, l); fflush(stderr); _exit(78); }
void vf_reached(const char *s) { fprintf(stderr, "VF-REACH: %s\n", s); fflush(stderr); }
#endif
int vf_bool(void) { unsigned char c = vf_u8(); VF_ASSUME(c <= 1); return c; }
long vf_range(long lo, long hi)
{
    long v;
    if (lo >= 0 && hi <= 255) v = vf_u8();
    else if (lo >= 0 && hi <= 65535) v = vf_u16();
    else v = (int)vf_u32();
    VF_ASSUME(v >= lo && v <= hi);
    return v;
}
void vf_bytes(void *p, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) ((unsigned char *)p)[i] = vf_u8();
}
void vf_str(char *p, size_t n)
{
    vf_bytes(p, n);
    p[n] = 0;
}

/* ------------------------------------------------------------ file system */
struct vf_inode vf_inodes[VF_NFILES];
struct vf_stream vf_streams[VF_NSTREAMS];
struct vf_dent vf_dents[VF_NDENT];
static struct vf_stream vf_std[3];
FILE *vf_stdin = (FILE *)&vf_std[0], *vf_stdout = (FILE *)&vf_std[1], *vf_stderr = (FILE *)&vf_std[2];
int vf_ino_next, vf_open_count;
int vf_fault_on, vf_faults, vf_fault_max = 1;
int vf_exited, vf_exit_code;
int vf_ops;
time_t vf_now = 1000000000;

#ifndef VF_HAVE_OP_HOOK
void vf_op_hook(void) { }
#endif
int vf_fault(void)
{
    if (!vf_fault_on || vf_faults >= vf_fault_max) return 0;
    if (vf_bool()) { vf_faults++; errno = ENOSPC; return 1; }
    return 0;
}
#ifdef __CPROVER
static int vf_same(const char *a, const char *b)
{
    int i;
    for (i = 0; i < VF_NAMELEN; i++) {
        if (a[i] != b[i]) return 0;
        if (!a[i]) return 1;
    }
    return 0;
}
#else
static int vf_same(const char *a, const char *b) { return strcmp(a, b) == 0; }
#endif
int vf_lookup(const char *name)
{
    int i;
    for (i = 0; i < VF_NDENT; i++)
        if (vf_dents[i].used && vf_same(vf_dents[i].name, name)) return i;
    return -1;
}
static void vf_setname(int d, const char *name)
{
    int i;
    for (i = 0; i < VF_NAMELEN - 1 && name[i]; i++) vf_dents[d].name[i] = name[i];
    vf_dents[d].name[i] = 0;
    VF_ASSUME(!name[i]);            /* names longer than the model's: out of bounds */
}
static int vf_newdent(const char *name, int ino, int isdir)
{
    int i;
    for (i = 0; i < VF_NDENT; i++)
        if (!vf_dents[i].used) {
            vf_dents[i].used = 1; vf_dents[i].ino = ino; vf_dents[i].isdir = isdir;
            vf_setname(i, name);
            return i;
        }
    VF_ASSUME(0);
    return -1;
}
int vf_mkfile(const char *name)
{
    int ino = vf_ino_next++;
    VF_ASSUME(ino < VF_NFILES);
    vf_inodes[ino].len = 0;
    vf_newdent(name, ino, 0);
    return ino;
}
static struct vf_stream *vf_newstream(void)
{
    int i;
    for (i = 0; i < VF_NSTREAMS; i++)
        if (!vf_streams[i].used) {
            struct vf_stream *s = &vf_streams[i];
            s->used = 1; s->pos = 0; s->rd = s->wr = s->app = s->eof = s->err = 0;
            s->fd = 10 + i;
            vf_open_count++;
            return s;
        }
    VF_ASSUME(0);
    return 0;
}
static FILE *vf_stream_open(int ino, const char *mode)
{
    struct vf_stream *s = vf_newstream();
    int plus = mode[1] == '+' || (mode[1] && mode[2] == '+');
    s->ino = ino;
    if (mode[0] == 'r') { s->rd = 1; s->wr = plus; }
    else if (mode[0] == 'w') { s->wr = 1; s->rd = plus; vf_inodes[ino].len = 0; }
    else { s->wr = 1; s->app = 1; s->rd = plus; s->pos = vf_inodes[ino].len; }
    return (FILE *)s;
}
FILE *vf_stream_on(int ino, const char *mode)
{
    if (ino >= vf_ino_next) vf_ino_next = ino + 1;
    return vf_stream_open(ino, mode);
}
FILE *vf_fopen(const char *name, const char *mode)
{
    int d;
    vf_op_hook(); vf_ops++;
    if (vf_fault()) return 0;
    d = vf_lookup(name);
    if (d >= 0 && vf_dents[d].isdir) { errno = EISDIR; return 0; }
    if (d < 0) {
        int ino;
        if (mode[0] == 'r') { errno = ENOENT; return 0; }
        ino = vf_mkfile(name);
        return vf_stream_open(ino, mode);
    }
    return vf_stream_open(vf_dents[d].ino, mode);
}
FILE *vf_freopen(const char *name, const char *mode, FILE *f)
{ vf_fclose(f); return vf_fopen(name, mode); }
#define S(f) ((struct vf_stream *)(f))
#define ISSTD(f) ((f) == vf_stdin || (f) == vf_stdout || (f) == vf_stderr)
int vf_fclose(FILE *f)
{
    int r;
    if (ISSTD(f)) return 0;
    vf_op_hook(); vf_ops++;
    VF_CHECK(S(f)->used, "fclose of a stream that is not open");
    r = S(f)->err ? EOF : 0;
    if (S(f)->wr && vf_fault()) {       /* buffered data lost at close */
        if (vf_inodes[S(f)->ino].len > 0) vf_inodes[S(f)->ino].len--;
        r = EOF;
    }
    S(f)->used = 0;
    vf_open_count--;
    return r;
}
int vf_getc(FILE *f)
{
    struct vf_stream *s = S(f);
    if (ISSTD(f)) return EOF;
    VF_CHECK(s->used, "read from a closed stream");
    if (!s->rd) { s->err = 1; return EOF; }
    if (s->pos >= vf_inodes[s->ino].len) { s->eof = 1; return EOF; }
    return vf_inodes[s->ino].data[s->pos++];
}
int vf_ungetc(int c, FILE *f)
{
    struct vf_stream *s = S(f);
    if (c == EOF) return EOF;
    if (s->pos > 0) s->pos--;
    s->eof = 0;
    return c;
}
int vf_putc(int c, FILE *f)
{
    struct vf_stream *s = S(f);
    struct vf_inode *n;
    if (ISSTD(f)) return c & 0xff;
    VF_CHECK(s->used, "write to a closed stream");
    if (!s->wr) { s->err = 1; return EOF; }
    if (vf_fault()) { s->err = 1; return EOF; }
    n = &vf_inodes[s->ino];
    if (s->app) s->pos = n->len;
    VF_ASSUME(s->pos < VF_FSIZE);        /* file size bound */
    n->data[s->pos++] = (unsigned char)c;
    if (s->pos > n->len) n->len = s->pos;
    return c & 0xff;
}
int vf_fputs(const char *p, FILE *f)
{
    if (ISSTD(f)) return 0;
    for (; *p; p++) if (vf_putc((unsigned char)*p, f) == EOF) return EOF;
    return 0;
}
char *vf_fgets(char *b, int n, FILE *f)
{
    int i = 0, c;
    if (n <= 0) return 0;
    while (i < n - 1) {
        c = vf_getc(f);
        if (c == EOF) break;
        b[i++] = (char)c;
        if (c == '\n') break;
    }
    if (i == 0 && n > 1) return 0;
    b[i] = 0;
    return b;
}
size_t vf_fread(void *p, size_t sz, size_t n, FILE *f)
{
    size_t i, t = sz * n;
    for (i = 0; i < t; i++) {
        int c = vf_getc(f);
        if (c == EOF) break;
        ((unsigned char *)p)[i] = (unsigned char)c;
    }
    return sz == 1 ? i : (sz ? i / sz : 0);
}
size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    size_t i, t = sz * n;
    for (i = 0; i < t; i++)
        if (vf_putc(((const unsigned char *)p)[i], f) == EOF) break;
    return sz == 1 ? i : (sz ? i / sz : 0);
}
int vf_fseek(FILE *f, long o, int w)
{
    struct vf_stream *s = S(f);
    long p = w == SEEK_SET ? o : w == SEEK_CUR ? s->pos + o : vf_inodes[s->ino].len + o;
    if (vf_fault()) return -1;
    if (p < 0) { errno = EINVAL; return -1; }
    s->pos = (int)p; s->eof = 0;
    return 0;
}
long vf_ftell(FILE *f) { return S(f)->pos; }
void vf_rewind(FILE *f) { S(f)->pos = 0; S(f)->eof = 0; S(f)->err = 0; }
int vf_ferror(FILE *f) { return ISSTD(f) ? 0 : S(f)->err; }
int vf_feof(FILE *f) { return ISSTD(f) ? 1 : S(f)->eof; }
void vf_clearerr(FILE *f) { S(f)->err = S(f)->eof = 0; }
int vf_fflush(FILE *f) { if (!f || ISSTD(f)) return 0; if (vf_fault()) { S(f)->err = 1; return EOF; } return S(f)->err ? EOF : 0; }
int vf_fileno(FILE *f) { return ISSTD(f) ? 2 : S(f)->fd; }
void vf_perror(const char *s) { (void)s; }
char *vf_strerror(int e) { (void)e; return "error"; }

/* --------------------------------------------------- formatted output */
static char *vf_ob; static size_t vf_on, vf_oi; static FILE *vf_of; static int vf_oerr;
static void vf_oc(int c)
{
    if (vf_of) { if (vf_putc(c, vf_of) == EOF) vf_oerr = 1; }
    else if (vf_oi + 1 < vf_on) vf_ob[vf_oi] = (char)c;
    vf_oi++;
}
static void vf_ostr(const char *s, int prec, int width, int left)
{
    int n = 0, i;
    if (width > 0) {
        for (n = 0; (prec < 0 || n < prec) && s[n]; n++) ;
        if (!left) for (i = n; i < width; i++) vf_oc(' ');
    }
    for (i = 0; (prec < 0 || i < prec) && s[i]; i++) vf_oc((unsigned char)s[i]);
    if (width > 0 && left) for (i = n; i < width; i++) vf_oc(' ');
}
#ifndef VF_NUMDIG
#define VF_NUMDIG 20
#endif
static void vf_onumout(char *d, int n, int neg, int width, int zero, int left)
{
    int i, t = n + (neg ? 1 : 0);
    if (!left && !zero) for (i = t; i < width; i++) vf_oc(' ');
    if (neg) vf_oc('-');
    if (!left && zero) for (i = t; i < width; i++) vf_oc('0');
    for (i = n - 1; i >= 0; i--) vf_oc(d[i]);
    if (left) for (i = t; i < width; i++) vf_oc(' ');
}
static void vf_onum(unsigned long v, int neg, int base, int width, int zero, int left, int upper)
{
    char d[24];
    int n = 0;
    do {
        int r = (int)(v % (unsigned)base);
        d[n++] = (char)(r < 10 ? '0' + r : (upper ? 'A' : 'a') + r - 10);
        v /= (unsigned)base;
    } while (v && n < VF_NUMDIG);
    VF_ASSUME(v == 0);                  /* more digits than modelled */
    vf_onumout(d, n, neg, width, zero, left);
}
#ifndef VF_NUMDIG32
#define VF_NUMDIG32 10
#endif
int vf_digs[16], vf_digi, vf_dign;
static void vf_onum32(unsigned v, int neg, unsigned base, int width, int zero, int left, int upper)
{
    char d[12];
    int n = 0;
#ifdef __CPROVER
    /* decimal digits defined by their weighted sum instead of by division */
    if (base == 10) {
        unsigned long s = 0;
        int i, k = 0;
        if (vf_digi < vf_dign) k = vf_digs[vf_digi++];
        if (k) {                /* this query: exactly k digits */
            for (i = k - 1; i >= 0; i--) {
                unsigned char r = nondet_vf_uchar();
                __CPROVER_assume(r <= 9 && (r > 0 || i < k - 1 || k == 1));
                d[i] = (char)('0' + r);
                s = (unsigned)((unsigned)s * 10 + r);
            }
            __CPROVER_assume(s == v);
            vf_onumout(d, k, neg, width, zero, left);
            return;
        }
        for (i = VF_NUMDIG32 - 1; i >= 0; i--) {
            unsigned char r = nondet_vf_uchar();
            __CPROVER_assume(r <= 9);
            d[i] = (char)('0' + r);
            if (r && i >= n) n = i + 1;
#if VF_NUMDIG32 <= 9
            s = (unsigned)((unsigned)s * 10 + r);
#else
            s = s * 10 + r;
#endif
        }
        if (n == 0) n = 1;
        __CPROVER_assume(s == v);       /* also: no more digits than modelled */
        vf_onumout(d, n, neg, width, zero, left);
        return;
    }
#endif
    do {
        unsigned r;
        if (base == 16) { r = v & 15; v >>= 4; }
        else { r = v % base; v /= base; }
        d[n++] = (char)(r < 10 ? '0' + r : (upper ? 'A' : 'a') + r - 10);
    } while (v && n < VF_NUMDIG32);
    VF_ASSUME(v == 0);                  /* more digits than modelled */
    vf_onumout(d, n, neg, width, zero, left);
}
static int vf_doprnt(const char *f, va_list ap)
{
    for (; *f; f++) {
        int left = 0, zero = 0, width = 0, prec = -1, l = 0;
        if (*f != '%') { vf_oc((unsigned char)*f); continue; }
        f++;
        if (*f == '%') { vf_oc('%'); continue; }
        for (; *f == '-' || *f == '0' || *f == '+' || *f == ' ' || *f == '#'; f++)
            if (*f == '-') left = 1; else if (*f == '0') zero = 1;
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
        else for (; *f >= '0' && *f <= '9'; f++) width = width * 10 + *f - '0';
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else for (; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + *f - '0';
        }
        for (; *f == 'l' || *f == 'z' || *f == 'h'; f++) if (*f != 'h') l = 1;
        switch (*f) {
        case 'd': case 'i': {
            long v = l ? va_arg(ap, long) : (long)va_arg(ap, int);
            if (!l) { unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v; vf_onum32(u, v < 0, 10, width, zero, left, 0); }
            else vf_onum(v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0, 10, width, zero, left, 0);
            break; }
        case 'u': case 'x': case 'X': case 'o': {
            unsigned long v;
            if (!l) { unsigned u = va_arg(ap, unsigned); vf_onum32(u, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, width, zero, left, *f == 'X'); break; }
            v = va_arg(ap, unsigned long);
            vf_onum(v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, width, zero, left, *f == 'X');
            break; }
#ifdef __CPROVER        /* CBMC does not promote variadic arguments */
        case 'c': vf_oc(va_arg(ap, char)); break;
#else
        case 'c': vf_oc(va_arg(ap, int)); break;
#endif
        case 's': { char *s = va_arg(ap, char *); vf_ostr(s ? s : "(null)", prec, width, left); break; }
        default: VF_CHECK(0, "format not modelled"); break;
        }
    }
    return 0;
}
int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    char *sb = vf_ob; size_t sn = vf_on, si = vf_oi; FILE *sf = vf_of; size_t r;
    vf_ob = b; vf_on = n; vf_oi = 0; vf_of = 0;
    vf_doprnt(f, ap);
    if (n) b[vf_oi < n ? vf_oi : n - 1] = 0;
    r = vf_oi;
    vf_ob = sb; vf_on = sn; vf_oi = si; vf_of = sf;
    return (int)r;
}
int vf_vfprintf(FILE *o, const char *f, va_list ap)
{
    char *sb = vf_ob; size_t sn = vf_on, si = vf_oi; FILE *sf = vf_of; size_t r; int se = vf_oerr, e;
    if (ISSTD(o)) return 0;
    vf_oi = 0; vf_of = o; vf_oerr = 0;
    vf_doprnt(f, ap);
    r = vf_oi; e = vf_oerr;
    vf_ob = sb; vf_on = sn; vf_oi = si; vf_of = sf; vf_oerr = se;
    return e ? -1 : (int)r;
}
int vf_fprintf(FILE *o, const char *f, ...)
{ va_list ap; int r; va_start(ap, f); r = vf_vfprintf(o, f, ap); va_end(ap); return r; }
int vf_printf(const char *f, ...) { (void)f; return 0; }
int vf_snprintf(char *b, size_t n, const char *f, ...)
{ va_list ap; int r; va_start(ap, f); r = vf_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vf_sprintf(char *b, const char *f, ...)
{ va_list ap; int r; va_start(ap, f); r = vf_vsnprintf(b, 0x7fffffff, f, ap); va_end(ap); return r; }

/* ------------------------------------------------------ directory operations */
int vf_rename(const char *a, const char *b)
{
    int d, e;
    vf_op_hook(); vf_ops++;
    if (vf_fault()) return -1;
    d = vf_lookup(a);
    if (d < 0) { errno = ENOENT; return -1; }
    e = vf_lookup(b);
    if (e == d) return 0;
    if (e >= 0) vf_dents[e].used = 0;
    vf_setname(d, b);
    return 0;
}
int vf_unlink(const char *a)
{
    int d;
    vf_op_hook(); vf_ops++;
    if (vf_fault()) return -1;
    d = vf_lookup(a);
    if (d < 0) { errno = ENOENT; return -1; }
    vf_dents[d].used = 0;
    return 0;
}
int vf_link(const char *a, const char *b)
{
    int d;
    vf_op_hook(); vf_ops++;
    if (vf_fault()) return -1;
    d = vf_lookup(a);
    if (d < 0) { errno = ENOENT; return -1; }
    if (vf_lookup(b) >= 0) { errno = EEXIST; return -1; }
    vf_newdent(b, vf_dents[d].ino, 0);
    return 0;
}
int vf_access(const char *a, int m)
{
    (void)m;
    vf_op_hook(); vf_ops++;
    if (vf_lookup(a) < 0) { errno = ENOENT; return -1; }
    return 0;
}
static void vf_fillstat(struct stat *st, int ino, int isdir)
{
    st->st_mode = isdir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = isdir ? 0 : vf_inodes[ino].len;
    st->st_mtime = vf_now; st->st_atime = vf_now; st->st_ctime = vf_now;
    st->st_nlink = 1;
    st->st_ino = 1000 + ino;
    st->st_dev = 1;
}
int vf_stat(const char *a, struct stat *st)
{
    int d;
    vf_op_hook(); vf_ops++;
    d = vf_lookup(a);
    if (d < 0) { errno = ENOENT; return -1; }
    vf_fillstat(st, vf_dents[d].ino, vf_dents[d].isdir);
    return 0;
}
int vf_fstat(int fd, struct stat *st)
{
    vf_fillstat(st, vf_streams[fd - 10].ino, 0);
    return 0;
}
int vf_mkdir(const char *a, mode_t m)
{
    (void)m;
    vf_op_hook(); vf_ops++;
    if (vf_fault()) return -1;
    if (vf_lookup(a) >= 0) { errno = EEXIST; return -1; }
    vf_newdent(a, 0, 1);
    return 0;
}
int vf_chmod(const char *a, mode_t m) { (void)a; (void)m; return 0; }
int vf_utime(const char *a, const struct utimbuf *t) { (void)a; (void)t; return 0; }
int vf_open(const char *a, int fl, ...)
{
    int d, ino;
    struct vf_stream *s;
    vf_op_hook(); vf_ops++;
    if (vf_fault()) return -1;
    d = vf_lookup(a);
    if (d >= 0 && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if (d < 0) {
        if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        ino = vf_mkfile(a);
    } else ino = vf_dents[d].ino;
    if (fl & O_TRUNC) vf_inodes[ino].len = 0;
    s = vf_newstream();
    s->ino = ino;
    s->rd = (fl & O_ACCMODE) != O_WRONLY;
    s->wr = (fl & O_ACCMODE) != O_RDONLY;
    s->app = (fl & O_APPEND) != 0;
    return s->fd;
}
int vf_creat(const char *a, mode_t m) { return vf_open(a, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *vf_fdopen(int fd, const char *m) { (void)m; return (FILE *)&vf_streams[fd - 10]; }
int vf_close(int fd) { return vf_fclose((FILE *)&vf_streams[fd - 10]); }
ssize_t vf_read(int fd, void *p, size_t n) { return (ssize_t)vf_fread(p, 1, n, (FILE *)&vf_streams[fd - 10]); }
ssize_t vf_write(int fd, const void *p, size_t n)
{
    size_t r = vf_fwrite(p, 1, n, (FILE *)&vf_streams[fd - 10]);
    return r == 0 && n ? -1 : (ssize_t)r;
}
int vf_fsync(int fd) { (void)fd; return vf_fault() ? -1 : 0; }
int vf_ftruncate(int fd, off_t l) { vf_inodes[vf_streams[fd - 10].ino].len = (int)l; return 0; }
int vf_truncate(const char *a, off_t l)
{ int d = vf_lookup(a); if (d < 0) { errno = ENOENT; return -1; } vf_inodes[vf_dents[d].ino].len = (int)l; return 0; }
#ifndef VF_HAVE_FCNTL
int vf_fcntl(int fd, int c, ...) { (void)fd; (void)c; return 0; }
#endif
DIR *vf_opendir(const char *a) { (void)a; return 0; }
struct dirent *vf_readdir(DIR *d) { (void)d; return 0; }
int vf_closedir(DIR *d) { (void)d; return 0; }
int vf_chdir(const char *a) { (void)a; return 0; }

/* --------------------------------------------------------- clock, process */
struct tm vf_tm = { .tm_year = 101, .tm_mon = 8, .tm_mday = 9, .tm_hour = 1, .tm_min = 46, .tm_sec = 40 };
#ifndef VF_HAVE_TIME
time_t vf_time(time_t *t) { if (t) *t = vf_now; return vf_now; }
int vf_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = vf_now; tv->tv_usec = 0; return 0; }
struct tm *vf_localtime(const time_t *t) { (void)t; return &vf_tm; }
struct tm *vf_gmtime(const time_t *t) { (void)t; return &vf_tm; }
time_t vf_mktime(struct tm *t) { (void)t; return vf_now; }
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *t) { (void)f; (void)t; if (n) b[0] = 0; return 0; }
#endif
#ifndef VF_HAVE_SLEEP
unsigned vf_sleep(unsigned n) { (void)n; return 0; }
#endif
#ifndef VF_HAVE_GETPID
pid_t vf_getpid(void) { return 4711; }
#endif
char *vf_getenv(const char *n) { (void)n; return 0; }
int vf_kill(pid_t p, int s) { (void)p; (void)s; return 0; }
#ifndef VF_HAVE_EXIT
void vf_exit(int c)
{
    vf_exited = 1; vf_exit_code = c;
#ifdef __CPROVER
    __CPROVER_assume(0);
    for (;;) ;
#else
    fprintf(stderr, "VF-EXIT %d\n", c);
    _exit(76);
#endif
}
#endif
int vf_system(const char *c) { (void)c; return 0; }
FILE *vf_popen(const char *c, const char *m) { (void)c; (void)m; return 0; }
int vf_pclose(FILE *f) { (void)f; return 0; }

static void vf_swapb(char *a, char *b, size_t n)
{ size_t i; for (i = 0; i < n; i++) { char c = a[i]; a[i] = b[i]; b[i] = c; } }
void vf_qsort(void *p, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    size_t i, j; char *b = p;
    if (sz == sizeof(void *)) {         /* arrays of pointers: keep them whole */
        void **v = p;
        for (i = 1; i < n; i++)
            for (j = i; j > 0 && cmp(&v[j - 1], &v[j]) > 0; j--) {
                void *t = v[j]; v[j] = v[j - 1]; v[j - 1] = t;
            }
        return;
    }
    for (i = 1; i < n; i++)
        for (j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
            vf_swapb(b + (j - 1) * sz, b + j * sz, sz);
}

/* -------------------------------------------------------------- sscanf */
static const char *vf_scannum(const char *s, int base, int width, int sgn, long *out, int *ok)
{
    unsigned long v = 0; int neg = 0, n = 0;
    while (isspace((unsigned char)*s)) s++;
    if (sgn && (*s == '-' || *s == '+')) { neg = *s == '-'; s++; width--; }
    for (; n < width; n++, s++) {
        int c = (unsigned char)*s, d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
        else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        v = v * (unsigned)base + (unsigned)d;
    }
    *ok = n > 0;
    *out = neg ? -(long)v : (long)v;
    return s;
}
int vf_vsscanf(const char *s, const char *f, va_list ap)
{
    int n = 0;
    for (; *f; f++) {
        int width = 30, l = 0, ok, skip = 0;
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return n; s++; continue; }
        f++;
        if (*f == '*') { skip = 1; f++; }
        if (*f >= '0' && *f <= '9') { width = 0; for (; *f >= '0' && *f <= '9'; f++) width = width * 10 + *f - '0'; }
        for (; *f == 'l' || *f == 'z' || *f == 'h'; f++) if (*f == 'l') l = 1;
        if (*f == 'd' || *f == 'u' || *f == 'x') {
            long v;
            s = vf_scannum(s, *f == 'x' ? 16 : 10, width, 1, &v, &ok);
            if (!ok) return n ? n : (*s ? 0 : -1);
            if (!skip) { if (l) *va_arg(ap, long *) = v; else *va_arg(ap, int *) = (int)v; n++; }
        } else if (*f == 's') {
            char *o = skip ? 0 : va_arg(ap, char *); int k = 0;
            while (isspace((unsigned char)*s)) s++;
            for (; *s && !isspace((unsigned char)*s) && k < width; s++, k++) if (o) o[k] = *s;
            if (!k) return n ? n : -1;
            if (o) { o[k] = 0; n++; }
        } else if (*f == 'c') {
            if (!*s) return n ? n : -1;
            if (!skip) { *va_arg(ap, char *) = *s; n++; }
            s++;
        } else VF_CHECK(0, "scan format not modelled");
    }
    return n;
}
int vf_sscanf(const char *s, const char *f, ...)
{ va_list ap; int r; va_start(ap, f); r = vf_vsscanf(s, f, ap); va_end(ap); return r; }

#ifdef __CPROVER
/* --------------------------------------------------- ctype ("C"/UTF-8 locale) */
int vf_isdigit(int c) { return c >= '0' && c <= '9'; }
int vf_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int vf_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int vf_isalpha(int c) { return vf_isupper(c) || vf_islower(c); }
int vf_isalnum(int c) { return vf_isalpha(c) || vf_isdigit(c); }
int vf_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vf_isprint(int c) { return c >= 32 && c <= 126; }
int vf_isgraph(int c) { return c >= 33 && c <= 126; }
int vf_ispunct(int c) { return vf_isgraph(c) && !vf_isalnum(c); }
int vf_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int vf_isxdigit(int c) { return vf_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int vf_toupper(int c) { return c - 32 * ((c >= 'a') & (c <= 'z')); }
int vf_tolower(int c) { return vf_isupper(c) ? c + 32 : c; }

/* --------------------------------------------------- string models */
size_t vf_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *vf_strcpy(char *d, const char *s) { size_t i; for (i = 0; (d[i] = s[i]) != 0; i++) ; return d; }
char *vf_stpcpy(char *d, const char *s) { size_t i; for (i = 0; (d[i] = s[i]) != 0; i++) ; return d + i; }
char *vf_strncpy(char *d, const char *s, size_t n)
{
    size_t i;
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "strncpy: destination holds n bytes");
    for (i = 0; i < n && s[i]; i++) d[i] = s[i];
    if (n <= 16) { for (; i < n; i++) d[i] = 0; }
    else if (i < n) d[i] = 0;           /* rest of the padding not modelled */
    return d;
}
char *vf_strcat(char *d, const char *s) { vf_strcpy(d + vf_strlen(d), s); return d; }
char *vf_strncat(char *d, const char *s, size_t n)
{
    size_t l = vf_strlen(d), i;
    for (i = 0; i < n && s[i]; i++) d[l + i] = s[i];
    d[l + i] = 0;
    return d;
}
int vf_strcmp(const char *a, const char *b)
{
    for (;; a++, b++) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
}
int vf_strncmp(const char *a, const char *b, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        if (!a[i]) return 0;
    }
    return 0;
}
int vf_strcasecmp(const char *a, const char *b)
{
    for (;; a++, b++) {
        int x = vf_tolower((unsigned char)*a), y = vf_tolower((unsigned char)*b);
        if (x != y) return x < y ? -1 : 1;
        if (!*a) return 0;
    }
}
int vf_strncasecmp(const char *a, const char *b, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        int x = vf_tolower((unsigned char)a[i]), y = vf_tolower((unsigned char)b[i]);
        if (x != y) return x < y ? -1 : 1;
        if (!a[i]) return 0;
    }
    return 0;
}
char *vf_strchr(const char *s, int c)
{
    for (;; s++) {
        if (*s == (char)c) return (char *)s;
        if (!*s) return 0;
    }
}
char *vf_strrchr(const char *s, int c)
{
    const char *r = 0;
    for (;; s++) {
        if (*s == (char)c) r = s;
        if (!*s) return (char *)r;
    }
}
char *vf_strstr(const char *s, const char *t)
{
    size_t n = vf_strlen(t);
    for (;; s++) {
        if (vf_strncmp(s, t, n) == 0) return (char *)s;
        if (!*s) return 0;
    }
}
char *vf_strpbrk(const char *s, const char *set)
{
    for (; *s; s++) if (vf_strchr(set, *s)) return (char *)s;
    return 0;
}
size_t vf_strspn(const char *s, const char *set)
{ size_t n = 0; while (s[n] && vf_strchr(set, s[n])) n++; return n; }
size_t vf_strcspn(const char *s, const char *set)
{ size_t n = 0; while (s[n] && !vf_strchr(set, s[n])) n++; return n; }
char *vf_strdup(const char *s)
{ char *p = malloc(vf_strlen(s) + 1); vf_strcpy(p, s); return p; }
void *vf_memchr(const void *p, int c, size_t n)
{ size_t i; for (i = 0; i < n; i++) if (((unsigned char *)p)[i] == (unsigned char)c) return (char *)p + i; return 0; }
int vf_memcmp(const void *a, const void *b, size_t n)
{
    size_t i; const unsigned char *x = a, *y = b;
    for (i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
void *vf_memccpy(void *d, const void *s, int c, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        ((char *)d)[i] = ((char *)s)[i];
        if (((unsigned char *)s)[i] == (unsigned char)c) return (char *)d + i + 1;
    }
    return 0;
}
void *vf_memcpy(void *d, const void *s, size_t n)
{ size_t i; for (i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
void *vf_memmove(void *d, const void *s, size_t n)
{
    size_t i; char *x = d; const char *y = s;
    if (__CPROVER_POINTER_OBJECT(x) == __CPROVER_POINTER_OBJECT(y) && x > y)
        for (i = n; i > 0; i--) x[i - 1] = y[i - 1];
    else for (i = 0; i < n; i++) x[i] = y[i];
    return d;
}
void *vf_memset(void *d, int c, size_t n)
{ size_t i; for (i = 0; i < n; i++) ((char *)d)[i] = (char)c; return d; }
#ifndef VF_HAVE_STRTOK
static char *vf_tok;
char *vf_strtok(char *s, const char *d)
{
    char *b;
    if (s) vf_tok = s;
    if (!vf_tok) return 0;
    while (*vf_tok && vf_strchr(d, *vf_tok)) vf_tok++;
    if (!*vf_tok) { vf_tok = 0; return 0; }
    b = vf_tok;
    while (*vf_tok && !vf_strchr(d, *vf_tok)) vf_tok++;
    if (*vf_tok) { *vf_tok = 0; vf_tok++; } else vf_tok = 0;
    return b;
}
#endif
long vf_strtol(const char *s, char **e, int base)
{
    long v = 0; int neg = 0, any = 0; const char *b = s;
    while (vf_isspace((unsigned char)*s)) s++;
    if (*s == '-' || *s == '+') { neg = *s == '-'; s++; }
    for (;; s++) {
        int c = (unsigned char)*s, d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        any = 1;
        if (v < 1000000000000000L) v = v * base + d;
    }
    if (e) *e = (char *)(any ? s : b);
    return neg ? -v : v;
}
#endif

#ifdef __CPROVER
/* logging: no effect on any property */
void fglog(const char *f, ...) { (void)f; }
void debug(int l, const char *f, ...) { (void)l; (void)f; }
void log_file(char *n) { (void)n; }
void log_program(char *n) { (void)n; }
#endif

#ifdef __CPROVER
int vf_atoi(const char *s) { return (int)vf_strtol(s, 0, 10); }
long vf_atol(const char *s) { return vf_strtol(s, 0, 10); }
#endif
