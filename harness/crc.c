/* P17: checksums equal their polynomial definitions */
#include "vfh.h"
void crc16_init(void); void crc16_update(int); void crc16_update_ccitt(int); unsigned crc16_value(void); unsigned crc16_value_ccitt(void);
void crc32_init(void); void crc32_update(int); void crc32_compute(unsigned char *, int); unsigned long crc32_value(void); unsigned long crc32_file(char *);
#ifndef K
#define K 1
#endif
#ifndef N
#define N 3
#endif
static unsigned char b[N + 1];
/* bit-serial definitions */
static unsigned long bits(unsigned long r, unsigned c, unsigned long poly, int width, int reflect)
{
    int i;
    if (!reflect) {
        unsigned long top = 1UL << (width - 1), mask = (top << 1) - 1;
        r ^= (unsigned long)c << (width - 8);
        for (i = 0; i < 8; i++) r = (r & top) ? ((r << 1) ^ poly) & mask : (r << 1) & mask;
    } else {
        r ^= c;
        for (i = 0; i < 8; i++) r = (r & 1) ? (r >> 1) ^ poly : r >> 1;
    }
    return r;
}
/* N bytes: every state of the register is reached after 2 (4) bytes, and any
   byte from any state after one more */
void h_crc16(void)
{
    unsigned long r = 0; int i;
    vf_bytes(b, N);
    crc16_init();
    VF_CHECK(crc16_value() == 0, "CRC-16 starts with 0");
    for (i = 0; i < N; i++) { crc16_update(b[i]); r = bits(r, b[i], 0xA001, 16, 1); VF_CHECK(crc16_value() == r, "CRC-16 equals its definition"); }
    VF_REACH("crc16");
}
void h_ccitt(void)
{
    unsigned long r = 0; int i;
    vf_bytes(b, N);
    crc16_init();
    VF_CHECK(crc16_value_ccitt() == 0, "CRC-CCITT starts with 0");
    for (i = 0; i < N; i++) { crc16_update_ccitt(b[i]); r = bits(r, b[i], 0x1021, 16, 0); VF_CHECK(crc16_value_ccitt() == r, "CRC-CCITT equals its definition"); }
    VF_REACH("ccitt");
}
void h_crc32(void)
{
    unsigned long r = 0xffffffffUL; int i;
    vf_bytes(b, N);
    crc32_init();
    for (i = 0; i < N; i++) {
#ifdef SIGNED
        crc32_update((signed char)b[i]);
#else
        crc32_update(b[i]);
#endif
        r = bits(r, b[i], 0xEDB88320UL, 32, 1);
        VF_CHECK(crc32_value() == (r ^ 0xffffffffUL), "CRC-32 equals its definition");
    }
    VF_REACH("crc32");
}
/* whole buffers, split at any point, and whole files */
void h_split(void)
{
    unsigned long r = 0xffffffffUL; int i, n = N, k = K;
    vf_bytes(b, N);
    for (i = 0; i < N; i++) if (i < n) r = bits(r, b[i], 0xEDB88320UL, 32, 1);
    r ^= 0xffffffffUL;
    crc32_init(); crc32_compute(b, k); crc32_compute(b + k, n - k);
    VF_CHECK(crc32_value() == r, "CRC-32 does not depend on how the data is split");
    VF_REACH("split");
}
void h_file(void)
{
    unsigned long r = 0xffffffffUL; int i, ino = vf_mkfile("f");
    vf_bytes(b, N);
    for (i = 0; i < N; i++) { vf_inodes[ino].data[i] = b[i]; r = bits(r, b[i], 0xEDB88320UL, 32, 1); }
    vf_inodes[ino].len = N;
    crc32_init(); crc32_update(vf_u8());
    VF_CHECK(crc32_file("f") == (r ^ 0xffffffffUL), "CRC-32 of a file covers all of its bytes");
    VF_CHECK(vf_open_count == 0, "the file is closed");
    VF_REACH("file");
}
