// generated
#include "h.h"
#include "charstr.h"
const int *_charstr_unicode_decomposition(int codepoint);
int _charstr_unicode_primary_composite(int starter, int cc);
enum { N = 400 };
static int ccc(int c) { return charstr_unicode_canonical_combining_class(c); }
static int enc(uint8_t *t, int cp)
{
    if (cp < 0x80) { t[0] = cp; return 1; }
    if (cp < 0x800) { t[0] = 0xc0 | cp >> 6; t[1] = 0x80 | cp & 63; return 2; }
    if (cp < 0x10000) { t[0] = 0xe0 | cp >> 12; t[1] = 0x80 | cp >> 6 & 63; t[2] = 0x80 | cp & 63; return 3; }
    t[0] = 0xf0 | cp >> 18; t[1] = 0x80 | cp >> 12 & 63; t[2] = 0x80 | cp >> 6 & 63; t[3] = 0x80 | cp & 63; return 4;
}
static void dec1(int cp, int *o, int *n)
{
    const int *d = _charstr_unicode_decomposition(cp);
    int i = cp - 0xac00;
    if (d) { while (*d) dec1(*d++, o, n); return; }
    if (i >= 0 && i < 11172) {
        o[(*n)++] = 0x1100 + i / 588;
        o[(*n)++] = 0x1161 + i % 588 / 28;
        if (i % 28) o[(*n)++] = 0x11a7 + i % 28;
    } else o[(*n)++] = cp;
}
static void order(int *o, int n)
{
    int i, j, x;
    for (i = 1; i < n; i++) {
        x = o[i];
        if (!ccc(x)) continue;
        for (j = i; j > 0 && ccc(o[j - 1]) > ccc(x); j--) o[j] = o[j - 1];
        o[j] = x;
    }
}
static int primary(int a, int b)
{
    if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xac00 + ((a - 0x1100) * 21 + b - 0x1161) * 28;
    if (a >= 0xac00 && a < 0xac00 + 11172 && (a - 0xac00) % 28 == 0 && b > 0x11a7 && b < 0x11c3) return a + b - 0x11a7;
    return _charstr_unicode_primary_composite(a, b);
}
/* canonical composition by the definition: marks (n) of an array */
static int compose(const int *in, int n, int *o)
{
    int i, j, m = 0, st = -1, p;
    for (i = 0; i < n; i++) {
        int c = in[i], k = ccc(c);
        if (st >= 0) {
            bool blocked = false;
            for (j = st + 1; j < m; j++) if (ccc(o[j]) == 0 || ccc(o[j]) >= k) blocked = true;
            if (!blocked && (p = primary(o[st], c)) >= 0) { o[st] = p; continue; }
        }
        if (k == 0) st = m;
        o[m++] = c;
    }
    return m;
}
static int cps[N], ncp;
static void text(const char *what) { int i; reset(); note("%s ", what); for (i = 0; i < ncp; i++) note("U+%04X ", cps[i]); }
static uint8_t *encode(const int *c, int n, size_t *len)
{
    uint8_t *b = malloc(4 * n + 1);
    size_t k = 0; int i;
    for (i = 0; i < n; i++) k += enc(b + k, c[i]);
    b = realloc(b, k + 1);
    b[k] = 0;
    *len = k;
    return b;
}
typedef char *fn(const char *, const char *, char *, const char *);
static void conv(fn *f, const char *what, const int *want, int wn)
{
    size_t len, wl;
    uint8_t *src = encode(cps, ncp, &len), *w = encode(want, wn, &wl);
    int i;
    for (i = 0; i < 5; i++) {
        /* i=0,1: NUL-terminated; 2: bounded, no NUL; 3,4: too small */
        text(what);
        uint8_t *in = i == 2 ? memcpy(malloc(len ? len : 1), src, len) : src;
        size_t room = i < 3 ? wl + 1 + (i == 1 ? below(9) : 0) : below(wl + 1);
        if (i == 4) room = wl;
        char *out = malloc(room ? room : 1);
        memset(out, '#', room);
        note("output of %zu bytes, %zu needed; ", room, wl + 1);
        errno = 0;
        char *r = f((char *) in, i == 0 || i == 3 ? NULL : (char *) in + len, out, out + room);
        if (room < wl + 1) {
            CK(!r, "%s claims success without the room", what);
            CK(errno == EOVERFLOW, "%s: errno %d instead of EOVERFLOW", what, errno);
        } else {
            CK(r, "%s fails, errno %d", what, errno);
            CK(r == out + wl && !memcmp(out, w, wl + 1), "%s: other text (%ld bytes, expected %zu): %s", what, (long) (r - out), wl, out);
        }
        free(out);
        if (in != src) free(in);
    }
    /* malformed input: cut inside the last character or a stray byte */
    if (len) {
        uint8_t *bad = malloc(len + 2);
        memcpy(bad, src, len + 1);
        size_t at = below(len + 1);
        memmove(bad + at + 1, bad + at, len + 1 - at);
        bad[at] = "\x80\xff\xc0\xed\xf5"[below(5)];
        if (!charstr_valid_utf8((char *) bad)) {
            text(what); hex("malformed", bad, len + 1);
            char *out = malloc(20 * len + 50);
            errno = 0;
            CK(!f((char *) bad, NULL, out, out + 20 * len + 50), "%s accepts malformed UTF-8", what);
            CK(errno == EILSEQ, "%s: errno %d instead of EILSEQ", what, errno);
            free(out);
        }
        free(bad);
    }
    free(src); free(w);
}
static void detect(void)
{
    static const int fl[4][2] = { { 1, 2 }, { 4, 8 }, { 16, 32 }, { 64, 128 } };
    int i, f, last = 0;
    size_t len;
    uint8_t *s = encode(cps, ncp, &len);
    for (f = 0; f < 4; f++) {
        int want = 0;
        last = 0;
        for (i = 0; i < ncp && want != fl[f][0]; i++) {
            int k = ccc(cps[i]), a = charstr_allowed_unicode_normal_forms(cps[i]);
            if (k && last > k || a & fl[f][0]) want = fl[f][0];
            else if (a & fl[f][1]) want = fl[f][1];
            last = k;
        }
        text("quick check");
        note("form %d ", f);
        uint8_t *b = memcpy(malloc(len ? len : 1), s, len);
        CK(charstr_detect_unicode_normal_form((char *) s, NULL, fl[f][0], fl[f][1]) == want, "quick check, expected %d", want);
        CK(charstr_detect_unicode_normal_form((char *) b, (char *) b + len, fl[f][0], fl[f][1]) == want, "bounded quick check, expected %d", want);
        if (f == 0) CK(charstr_unicode_canonically_composed((char *) s, NULL) == (want == 0), "canonically_composed");
        if (f == 1) CK(charstr_unicode_canonically_decomposed((char *) s, NULL) == (want == 0), "canonically_decomposed");
        if (want != fl[f][0] && len) {
            /* appended malformed byte */
            uint8_t *m = malloc(len + 2);
            memcpy(m, s, len); m[len] = "\x80\xfe\xe0\xc1"[below(4)]; m[len + 1] = 0;
            errno = 0;
            CK(charstr_detect_unicode_normal_form((char *) m, NULL, fl[f][0], fl[f][1]) == -1 && errno == EILSEQ, "malformed UTF-8 not reported");
            if (f == 0) CK(!charstr_unicode_canonically_composed((char *) m, NULL), "canonically_composed malformed");
            free(m);
        }
        free(b);
    }
    free(s);
}
static int tmp[4 * N], tn;
static void all(void)
{
    int i;
    detect();
    for (i = tn = 0; i < ncp; i++) dec1(cps[i], tmp, &tn);
    order(tmp, tn);
    conv(charstr_unicode_decompose, "decompose", tmp, tn);
    int o[4 * N], on;
    on = compose(cps, ncp, o);
    conv(charstr_unicode_recompose, "recompose", o, on);
    if (tn <= N) {
        memcpy(cps, tmp, tn * sizeof *tmp); ncp = tn;
        on = compose(cps, ncp, o);
        conv(charstr_unicode_recompose, "recompose", o, on);
    }
}
int main()
{
    int i, j;
    static int pool[6][20000], pn[6];
    begin();
    for (i = 1; i < 0x110000; i++) {
        if (i >= 0xd800 && i < 0xe000) continue;
        const int *d = _charstr_unicode_decomposition(i);
        if (ccc(i)) pool[0][pn[0]++] = i;
        if (d) pool[1][pn[1]++] = i;
        if (d && d[1] && _charstr_unicode_primary_composite(d[0], d[1]) >= 0) { pool[2][pn[2]++] = d[0]; if (ccc(d[1])) pool[3][pn[3]++] = d[1]; else pool[4][pn[4]++] = d[1]; }
        if (charstr_allowed_unicode_normal_forms(i) & 0x3 && pn[5] < 20000) pool[5][pn[5]++] = i;
    }
    /* all Hangul syllables, both ways */
    for (i = 0xac00; i < 0xac00 + 11172 && more(); i++) { cps[0] = i; ncp = 1; all(); }
    /* jamo next to jamo, in and just outside the ranges */
    for (i = 0x10ff; i <= 0x1114 && more(); i++)
        for (j = 0x1160; j <= 0x1177; j++) { cps[0] = i; cps[1] = j; cps[2] = 0x11a6 + below(32); ncp = 3; all(); }
    for (i = 0xac00 - 2; i < 0xac00 + 60; i++) for (j = 0x11a5; j < 0x11c6; j++) { cps[0] = i; cps[1] = j; ncp = 2; all(); }
    for (i = 11100; i < 11180; i++) { cps[0] = 0xac00 + i; cps[1] = 0x11a8 + below(27); ncp = 2; all(); }
    for (i = 0; i < pn[1] && more(); i++) { cps[0] = pool[1][i]; cps[1] = pool[0][below(pn[0])]; ncp = 2; all(); }
    /* many marks after one starter: kept in order, or refused for a reason */
    for (i = 95; i <= 260 && more(); i++)
        for (j = 0; j < 3; j++) {
            char in[600], *p = in, *out = malloc(1200), *q;
            int k;
            reset();
            note("recompose: a, then %d times U+0316%s", i, j == 2 ? ", then U+0301" : "");
            *p++ = 'a';
            for (k = 0; k < i; k++) { *p++ = 0xcc; *p++ = 0x96; }
            if (j == 2) { *p++ = 0xcc; *p++ = 0x81; }
            *p = 0;
            memset(out, 'x', 1200);
            errno = 0;
            q = charstr_unicode_recompose(in, j ? p : NULL, out, out + 1200);
            if (q) {
                char want[700], *w = want;
                if (j == 2) { *w++ = 0xc3; *w++ = 0xa1; memcpy(w, in + 1, 2 * i); w[2 * i] = 0; }
                else memcpy(want, in, p - in + 1);
                CK(!strcmp(out, want) && q == out + strlen(want), "marks are lost or changed");
            } else CK(i > 100 && errno == ENOBUFS, "refused, errno %d", errno);
            free(out);
        }
    while (more()) {
        int n = 1 + below(8), runs = 0;
        if (below(40) == 0) n = 90;
        for (ncp = 0; ncp < n; ncp++)
            switch (below(12)) {
            case 0: cps[ncp] = 'a' + below(26); break;
            case 1: cps[ncp] = pool[1][below(pn[1])]; break;
            case 2: case 3: cps[ncp] = pool[2][below(pn[2])]; break;
            case 4: case 5: cps[ncp] = pool[3][below(pn[3])]; break;
            case 6: cps[ncp] = pool[4][below(pn[4])]; break;
            case 7: case 8: cps[ncp] = pool[0][below(pn[0])]; break;
            case 9: cps[ncp] = below(3) == 0 ? 0x1100 + below(20) : below(2) ? 0x1160 + below(23) : 0x11a7 + below(30); break;
            case 10: cps[ncp] = 0xac00 + below(11172); break;
            default: if (ncp && _charstr_unicode_decomposition(cps[ncp - 1])) { cps[ncp] = cps[ncp - 1]; break; }
                { const int *d = _charstr_unicode_decomposition(pool[1][below(pn[1])]); cps[ncp] = d[0]; if (d[1] && ncp + 1 < n) cps[++ncp] = d[1]; }
            }
        all();
    }
    return 0;
}
