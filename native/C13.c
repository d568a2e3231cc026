#include "h.h"
#include "charstr.h"
/* RFC 3629 decoder over [s, s+n) */
static int ref(const uint8_t *s, size_t n, int *cp)
{
    if (!n) return 0;
    if (s[0] < 0x80) { *cp = s[0]; return 1; }
    int len = s[0] >= 0xc2 && s[0] <= 0xdf ? 2 : s[0] >= 0xe0 && s[0] <= 0xef ? 3 : s[0] >= 0xf0 && s[0] <= 0xf4 ? 4 : 0, i;
    if (!len || len > n) return 0;
    int c = s[0] & (len == 2 ? 0x1f : len == 3 ? 0xf : 7);
    for (i = 1; i < len; i++) {
        if ((s[i] & 0xc0) != 0x80) return 0;
        c = c << 6 | s[i] & 0x3f;
    }
    if (c < (len == 2 ? 0x80 : len == 3 ? 0x800 : 0x10000) || c > 0x10ffff || c >= 0xd800 && c < 0xe000) return 0;
    *cp = c;
    return len;
}
static void dec(const uint8_t *b, size_t n)
{
    char *h = malloc(n);         /* exact size: reading past the bound is seen */
    int cp = -77, want = -1;
    reset();
    hex("decode", b, n);
    memcpy(h, b, n);
    int len = ref(b, n, &want);
    const char *r = charstr_decode_utf8_codepoint(h, h + n, &cp);
    CK(!r == !len, "decoding %s", len ? "rejects a well-formed sequence" : "accepts an ill-formed sequence");
    if (len) {
        CK(r == h + len, "position %ld, expected %d", (long) (r - h), len);
        CK(cp == want, "code point %x, expected %x", cp, want);
    }
    free(h);
}
static void enc(int cp, size_t room)
{
    char *h = malloc(room);
    uint8_t w[4];
    int len = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
    reset();
    note("encode U+%04X into %zu bytes ", cp, room);
    if (len == 1) w[0] = cp;
    if (len == 2) w[0] = 0xc0 | cp >> 6, w[1] = 0x80 | cp & 63;
    if (len == 3) w[0] = 0xe0 | cp >> 12, w[1] = 0x80 | cp >> 6 & 63, w[2] = 0x80 | cp & 63;
    if (len == 4) w[0] = 0xf0 | cp >> 18, w[1] = 0x80 | cp >> 12 & 63, w[2] = 0x80 | cp >> 6 & 63, w[3] = 0x80 | cp & 63;
    char *r = charstr_encode_utf8_codepoint(cp, h, h + room);
    CK(!r == (len > room), "encoding result");
    if (r) {
        CK(r == h + len, "encoded length");
        CK(!memcmp(h, w, len), "encoded bytes");
        int back = -1;
        const char *q = charstr_decode_utf8_codepoint(h, h + len, &back);
        CK(q == h + len && back == cp, "decoding what was encoded");
    }
    free(h);
}
int main(void)
{
    begin();
    static const uint8_t B[] = { 0, 1, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff };
    int cp, a, b, c, d;
    uint8_t s[8];
    dec((uint8_t *) "", 0);
    for (a = 0; a < 256; a++) {
        more();
        for (b = 0; b < 256; b++) {
            s[0] = a; s[1] = b; s[2] = s[3] = s[4] = 0x80;
            for (c = 1; c < 6; c++)
                dec(s, c);
        }
        for (b = 0; b < sizeof B; b++)
            for (c = 0; c < sizeof B; c++) {
                s[0] = a; s[1] = B[b]; s[2] = B[c];
                dec(s, 3);
                if (a >= 0xf0)
                    for (d = 0; d < sizeof B; d++) {
                        s[3] = B[d];
                        dec(s, 4);
                    }
            }
    }
    for (cp = 0; cp < 0x110000; cp++)
        if (cp < 0xd800 || cp > 0xdfff) {
            if (cp % 4096 == 0)
                more();
            enc(cp, 8);
            if (cp % 61 == 0 || cp < 0x900 || cp > 0xff00 && cp < 0x10100 || cp > 0x10fff0)
                for (a = 0; a < 5; a++)
                    enc(cp, a);
        }
    while (more())
        for (a = 0; a < 1000; a++) {
            for (b = 0; b < 8; b++)
                s[b] = below(3) ? B[below(sizeof B)] : below(256);
            dec(s, below(8));
        }
    return 0;
}
