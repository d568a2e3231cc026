// generated
#include "h.h"
#include "charstr.h"
static int enc(uint8_t *t, int cp)
{
    if (cp < 0x80) { t[0] = cp; return 1; }
    if (cp < 0x800) { t[0] = 0xc0 | cp >> 6; t[1] = 0x80 | cp & 63; return 2; }
    if (cp < 0x10000) { t[0] = 0xe0 | cp >> 12; t[1] = 0x80 | cp >> 6 & 63; t[2] = 0x80 | cp & 63; return 3; }
    t[0] = 0xf0 | cp >> 18; t[1] = 0x80 | cp >> 12 & 63; t[2] = 0x80 | cp >> 6 & 63; t[3] = 0x80 | cp & 63; return 4;
}
static long ok_, no_;
static void one(const uint8_t *s, size_t n)
{
    char *b = malloc(n + 1);
    size_t i;
    memcpy(b, s, n); b[n] = 0; n = strlen(b);
    reset(); hex("hostname", s, n); if (n > 80) note("... the rest repeats the pattern ");
    bool ascii = true;
    for (i = 0; i < n; i++) if (b[i] & 0x80) ascii = false;
    char *r = charstr_idna_encode(b);
    CK(!memcmp(b, s, n), "the argument changed");
    if (ascii) {
        CK(r && strlen(r) == n, "ASCII name: no copy");
        for (i = 0; i < n; i++) CK(r[i] == (b[i] >= 'A' && b[i] <= 'Z' ? b[i] + 32 : b[i]), "ASCII name: byte %zu", i);
    } else if (r) {
        size_t m = strlen(r), lab = 0;
        ok_++;
        CK(m <= 254, "%zu characters", m);
        for (i = 0; i < m; i++) {
            if (r[i] == '.') { lab = 0; continue; }
            CK(r[i] >= 'a' && r[i] <= 'z' || r[i] >= '0' && r[i] <= '9' || r[i] == '-', "character %d in the result %s", r[i], r);
            CK(++lab <= 63, "label longer than 63 in %s", r);
        }
    } else no_++;
    if (r) fsfree(r);
    CK(!blocks, "%ld blocks left", blocks);
    free(b);
}
static int cls[8][70000], cn[8];
static int pick(void)
{
    for (;;) {
        int k = below(8);
        if (cn[k]) return cls[k][below(cn[k])];
    }
}
int main()
{
    int i;
    uint8_t s[3000];
    begin();
    fs_set_reallocator(counting_realloc);
    for (i = 1; i < 0x110000; i++) {
        int k = -1;
        if (i >= 0xd800 && i < 0xe000) continue;
        if (i < 128) k = 0;
        else if (charstr_idna_status_is_valid(i)) k = below(20) ? -1 : 1;
        else if (charstr_idna_status_is_mapped(i)) k = strlen(charstr_idna_mapping(i)) > 8 ? 7 : 2;
        else if (charstr_idna_status_is_deviation(i)) k = 3;
        else if (charstr_idna_status_is_ignored(i)) k = 4;
        if (charstr_unicode_canonical_combining_class(i) || charstr_unicode_category(i) == UNICODE_CATEGORY_Mc) k = 5;
        if (charstr_allowed_unicode_normal_forms(i) & 0xf && below(8) == 0) k = 6;
        if (k >= 0 && cn[k] < 70000) cls[k][cn[k]++] = i;
    }
    /* every single code point, alone and after a letter */
    for (i = 1; i < 0x110000 && now() - t_start < t_budget / 3; i++) {
        size_t n = 0;
        if (i >= 0xd800 && i < 0xe000) continue;
        if (i > 0x3400 && i < 0xd000 && i % 16) continue;
        if (i > 0x17000 && i % 64) continue;
        more();
        n = enc(s, i); one(s, n);
        s[0] = 'a'; n = 1 + enc(s + 1, i); s[n++] = 'b'; one(s, n);
    }
    while (more()) {
        size_t n = 0, want;
        int mode = below(8), labels = 1 + below(5), l;
        switch (mode) {
        case 0: /* raw bytes */
            want = below(300);
            while (n < want) s[n++] = 1 + below(255);
            break;
        case 1: /* one character repeated */
            want = below(400); l = pick();
            while (n < want) n += enc(s + n, l);
            break;
        case 2: /* labels of given sizes around the limits */
            for (l = 0; l < labels; l++) {
                int len = below(3) == 0 ? 55 + below(12) : below(64), k, at = below(len + 1), c = pick();
                for (k = 0; k < len && n < 1000; k++) n += enc(s + n, k == at ? c : below(30) ? 'a' + below(26) : pick());
                if (l + 1 < labels || below(3) == 0) s[n++] = '.';
            }
            break;
        case 3: /* total around 254 */
            want = 230 + below(40);
            n = enc(s, below(2) ? 0xe4 : pick());
            while (n < want) { s[n] = n % (20 + labels * 10) == 0 ? '.' : 'a' + below(26); n++; }
            break;
        case 4: /* starter and a run of marks */
            n = enc(s, pick());
            want = below(3) ? below(12) : below(130);
            for (l = 0; l < want; l++) n += enc(s + n, cls[5][below(cn[5])]);
            break;
        case 6: /* plain non-ASCII names */
            want = 1 + below(12);
            for (l = 0; l < want; l++) n += enc(s + n, below(3) ? 'a' + below(26) : below(2) ? 0xdf + below(32) : 0x3b1 + below(20));
            break;
        default:
            want = below(40);
            for (l = 0; l < want; l++) n += enc(s + n, below(8) == 0 ? '.' : below(3) == 0 ? "a-Z09_"[below(6)] : pick());
        }
        if (below(12) == 0 && n) s[below(n)] = 1 + below(255);
        if (below(20) == 0) for (l = 0; l < n; l++) if (s[l] > 127) s[l] = 'A' + below(26);
        one(s, n);
    }
    fprintf(stderr, "%ld encoded, %ld rejected\n", ok_, no_);
    return 0;
}
