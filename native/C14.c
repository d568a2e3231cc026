#include "h.h"
#include "charstr.h"
/* RFC 3629 table 3-7 (Unicode): length of the well-formed sequence at p, 0 if none */
static int wf(const uint8_t *p, const uint8_t *e)
{
    size_t n = e - p;
    if (!n) return 0;
    uint8_t a = p[0];
    if (a < 0x80) return 1;
    if (a < 0xc2 || a > 0xf4) return 0;
    if (n < 2) return 0;
    uint8_t b = p[1], lo = 0x80, hi = 0xbf;
    if (a < 0xe0) return b >= lo && b <= hi ? 2 : 0;
    if (a == 0xe0) lo = 0xa0;
    if (a == 0xed) hi = 0x9f;
    if (a == 0xf0) lo = 0x90;
    if (a == 0xf4) hi = 0x8f;
    if (b < lo || b > hi || n < 3 || (p[2] & 0xc0) != 0x80) return 0;
    if (a < 0xf0) return 3;
    return n >= 4 && (p[3] & 0xc0) == 0x80 ? 4 : 0;
}
static size_t last_req;
static void *rec(void *p, size_t n) { if (n) last_req = n; return counting_realloc(p, n); }
static void one(const uint8_t *s, size_t n)
{
    /* exact blocks, so that any access outside is noticed */
    char *b = malloc(n + 1);
    memcpy(b, s, n);
    b[n] = 0;
    reset(); hex("string", s, n);
    size_t i, k;
    bool ok = true;
    for (i = 0; i < n && b[i]; i += k)
        if (!(k = wf((void *) (b + i), (void *) (b + n)))) { ok = false; break; }
    CK(charstr_valid_utf8(b) == ok, "charstr_valid_utf8 says %d", !ok);
    char *c = malloc(n ? n : 1);
    memcpy(c, s, n);
    bool okb = true;
    for (i = 0; i < n; i += k)
        if (!(k = wf((void *) (c + i), (void *) (c + n)))) { okb = false; break; }
    CK(charstr_valid_utf8_bounded(c, c + n) == okb, "charstr_valid_utf8_bounded says %d", !okb);
    size_t cut = below(n + 1);
    bool okc = true;
    for (i = 0; i < cut; i += k)
        if (!(k = wf((void *) (c + i), (void *) (c + cut)))) { okc = false; break; }
    CK(charstr_valid_utf8_bounded(c, c + cut) == okc, "charstr_valid_utf8_bounded up to %zu says %d", cut, !okc);
    free(c);
    char *want = malloc(3 * n + 1);
    size_t w = 0;
    for (i = 0; b[i];) {
        k = wf((void *) (b + i), (void *) (b + n));
        if (k) { memcpy(want + w, b + i, k); w += k; i += k; }
        else { memcpy(want + w, "\xef\xbf\xbd", 3); w += 3; i++; }
    }
    want[w] = 0;
    char *g = charstr_sanitize_utf8(b);
    CK(last_req == w + 1, "sanitize asks for %zu bytes, needs %zu", last_req, w + 1);
    CK(!memcmp(g, want, w + 1), "sanitize yields other bytes");
    CK(charstr_valid_utf8(g), "sanitized string is not valid");
    fsfree(g);
    CK(blocks == 0, "%ld blocks left", blocks);
    free(want); free(b);
}
int main()
{
    static const uint8_t ed[] = { 0, 1, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff };
    enum { E = sizeof ed };
    uint8_t s[300];
    size_t i, n;
    begin();
    fs_set_reallocator(rec);
    for (n = 0; n <= 3; n++) {
        size_t tot = 1, x;
        for (i = 0; i < n; i++) tot *= E;
        for (x = 0; x < tot && more(); x++) {
            size_t y = x;
            for (i = 0; i < n; i++, y /= E) s[i] = ed[y % E];
            one(s, n);
        }
    }
    while (more()) {
        n = below(below(10) ? 14 : 260);
        for (i = 0; i < n;)
            switch (below(7)) {
                case 0: s[i++] = rnd(); break;
                case 1: case 2: s[i++] = ed[1 + below(E - 1)]; break;
                case 3: s[i++] = 'a'; break;
                default: {
                    int cp = below(4) == 0 ? below(0x800) : below(3) == 0 ? below(0x10000) : below(0x110000);
                    uint8_t t[4]; int k, m;
                    if (cp < 0x80) t[0] = cp, m = 1;
                    else if (cp < 0x800) t[0] = 0xc0 | cp >> 6, t[1] = 0x80 | cp & 63, m = 2;
                    else if (cp < 0x10000) t[0] = 0xe0 | cp >> 12, t[1] = 0x80 | cp >> 6 & 63, t[2] = 0x80 | cp & 63, m = 3;
                    else t[0] = 0xf0 | cp >> 18, t[1] = 0x80 | cp >> 12 & 63, t[2] = 0x80 | cp >> 6 & 63, t[3] = 0x80 | cp & 63, m = 4;
                    if (below(6) == 0) m--;
                    for (k = 0; k < m && i < n; k++) s[i++] = t[k];
                }
            }
        one(s, n);
    }
    return 0;
}
