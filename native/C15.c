#include "h.h"
#include "charstr.h"
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int sg(int x) { return (x > 0) - (x < 0); }
static int want(const uint8_t *a, const uint8_t *b, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        if (lo(a[i]) != lo(b[i])) return lo(a[i]) < lo(b[i]) ? -1 : 1;
        if (!a[i]) return 0;
    }
    return 0;
}
static void tables(void)
{
    int c;
    for (c = 0; c < 256; c++) {
        uint64_t k = 0;
        reset(); note("byte %d", c);
        if (c < 32 || c == 127) k |= 0x1;
        if (c >= '0' && c <= '9') k |= 0x2;
        if (c >= 'a' && c <= 'z') k |= 0x4;
        if (c >= 'A' && c <= 'Z') k |= 0x8;
        if (c == 9) k |= 0x10;
        if (c == 10) k |= 0x20;
        if (c == 12) k |= 0x40;
        if (c == 13) k |= 0x80;
        if (c == 32) k |= 0x100;
        if (c >= '0' && c <= '7') k |= 0x200;
        int l = lo(c);
        bool hx = c >= '0' && c <= '9' || l >= 'a' && l <= 'f';
        if (hx) k |= 0x400;
        if (c == '_') k |= 0x800;
        if (c >= 32 && c <= 126) k |= 0x1000;
        CK(charstr_char_class(c) == k, "char_class %#lx, expected %#lx", (long) charstr_char_class(c), (long) k);
        CK((uint8_t) charstr_lcase_char(c) == lo(c), "lcase_char");
        CK((uint8_t) charstr_ucase_char(c) == up(c), "ucase_char");
        if (hx)
            CK(charstr_digit_value(c) == (c <= '9' ? c - '0' : l - 'a' + 10), "digit_value");
    }
}
int main()
{
    begin();
    tables();
    uint8_t *a, *b;
    size_t i;
    int x, y;
    for (x = 0; x < 256; x++)
        for (y = 0; y < 256; y++) {
            uint8_t s[3] = { x, 'q' }, t[3] = { y, 'Q' };
            reset(); hex("a", s, 3); hex("b", t, 3);
            if (x && y) {
                CK(sg(charstr_case_cmp((char *) s, (char *) t)) == want(s, t, 3), "case_cmp");
            }
            uint8_t s1[2] = { x, 0 }, t1[2] = { y, 0 };
            CK(sg(charstr_case_cmp((char *) s1, (char *) t1)) == want(s1, t1, 2), "case_cmp of one byte");
            CK(sg(charstr_ncase_cmp((char *) s1, (char *) t1, 1)) == want(s1, t1, 1), "ncase_cmp of one byte, n=1");
            CK(sg(charstr_ncase_cmp((char *) s1, (char *) t1, 2)) == want(s1, t1, 2), "ncase_cmp of one byte, n=2");
        }
    while (more()) {
        size_t n = below(12), k = below(12), lim;
        reset();
        a = malloc(n + 1); b = malloc(k + 1);
        for (i = 0; i < n; i++) a[i] = below(5) ? "aAzZ@[`{k"[below(9)] : 1 + below(255);
        for (i = 0; i < k; i++) b[i] = i < n && below(5) ? (below(2) ? up(a[i]) : lo(a[i])) : below(2) ? "aAzZ@[`{k"[below(9)] : 1 + below(255);
        a[n] = b[k] = 0;
        hex("a", a, n); hex("b", b, k);
        CK(sg(charstr_case_cmp((char *) a, (char *) b)) == want(a, b, 100), "case_cmp gives %d", charstr_case_cmp((char *) a, (char *) b));
        lim = below(14);
        note("n=%zu ", lim);
        CK(sg(charstr_ncase_cmp((char *) a, (char *) b, lim)) == want(a, b, lim), "ncase_cmp gives %d", charstr_ncase_cmp((char *) a, (char *) b, lim));
        CK(sg(charstr_ncase_cmp((char *) a, (char *) b, -1)) == want(a, b, -1), "ncase_cmp unlimited");
        /* unterminated within the limit */
        size_t m = n < k ? n : k;
        uint8_t *a2 = malloc(m ? m : 1), *b2 = malloc(m ? m : 1);
        memcpy(a2, a, m); memcpy(b2, b, m);
        CK(sg(charstr_ncase_cmp((char *) a2, (char *) b2, m)) == want(a2, b2, m), "ncase_cmp n=%zu of unterminated arrays", m);
        free(a2); free(b2);
        uint8_t *c = malloc(n + 1), *d = malloc(n ? n : 1);
        memcpy(c, a, n + 1);
        CK(charstr_lcase_str((char *) c) == (char *) c, "lcase_str result");
        for (i = 0; i <= n; i++) CK(c[i] == lo(a[i]), "lcase_str at %zu", i);
        memcpy(c, a, n + 1);
        CK(charstr_ucase_str((char *) c) == (char *) c, "ucase_str result");
        for (i = 0; i <= n; i++) CK(c[i] == up(a[i]), "ucase_str at %zu", i);
        size_t f = below(n + 1), t = f + below(n - f + 1);
        memcpy(d, a, n);
        if (n && below(2)) d[below(n)] = 0;
        memcpy(c, d, n);
        CK(charstr_lcase_substr((char *) d + f, (char *) d + t) == (char *) d + f, "lcase_substr result");
        for (i = 0; i < n; i++) CK(d[i] == (i >= f && i < t ? lo(c[i]) : c[i]), "lcase_substr(%zu..%zu) at %zu", f, t, i);
        memcpy(d, c, n);
        CK(charstr_ucase_substr((char *) d + f, (char *) d + t) == (char *) d + f, "ucase_substr result");
        for (i = 0; i < n; i++) CK(d[i] == (i >= f && i < t ? up(c[i]) : c[i]), "ucase_substr(%zu..%zu) at %zu", f, t, i);
        free(a); free(b); free(c); free(d);
    }
    return 0;
}
