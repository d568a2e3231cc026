// generated
#include "h.h"
#include "charstr.h"
const int *_charstr_unicode_decomposition(int codepoint);
int _charstr_unicode_primary_composite(int starter, int cc);
enum { M = 0x110000 };
static uint8_t cat[M], ccc_[M], nf[M], excl[M];
static int lc[M], uc[M], dec[M][3];
static char *ist[M], *imap[M];
static const char *CN[] = { "Cn", "Cc", "Cf", "Co", "Cs", "Ll", "Lm", "Lo", "Lt", "Lu", "Mc", "Me", "Mn", "Nd", "Nl", "No", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Sc", "Sk", "Sm", "So", "Zl", "Zp", "Zs" };
static FILE *op(const char *n) { char p[500]; snprintf(p, sizeof p, "%s/%s", REPO, n); FILE *f = fopen(p, "r"); if (!f) { perror(p); exit(3); } return f; }
static char *trim(char *s) { while (*s == ' ' || *s == '\t') s++; char *e = s + strlen(s); while (e > s && strchr(" \t\r\n", e[-1])) *--e = 0; return s; }
static int split(char *l, char **f, int max) { int n = 0; for (;;) { f[n++] = l; char *p = strchr(l, ';'); if (!p || n == max) return n; *p = 0; l = p + 1; } }
static void range(char *s, int *a, int *b) { char *d = strstr(s, ".."); *a = strtol(s, 0, 16); *b = d ? strtol(d + 2, 0, 16) : *a; }
static void load(void)
{
    char line[4000], *f[40], *p;
    int i, a, b, n, first = -1;
    for (i = 0; i < M; i++) lc[i] = uc[i] = i;
    FILE *h = op("unicode/UnicodeData.txt");
    while (fgets(line, sizeof line, h)) {
        n = split(trim(line), f, 40);
        if (n < 15) continue;
        a = strtol(f[0], 0, 16);
        for (i = 0; strcmp(CN[i], f[2]); i++) ;
        cat[a] = i; ccc_[a] = atoi(f[3]);
        if (strstr(f[1], ", First>")) first = a;
        if (strstr(f[1], ", Last>")) for (b = first; b <= a; b++) { cat[b] = i; ccc_[b] = ccc_[a]; }
        if (*f[5] && *f[5] != '<') { dec[a][0] = strtol(f[5], &p, 16); dec[a][1] = strtol(p, 0, 16); }
        if (*f[12] && !strcmp(f[2], "Ll")) uc[a] = strtol(f[12], 0, 16);
        if (*f[13] && !strcmp(f[2], "Lu")) lc[a] = strtol(f[13], 0, 16);
    }
    fclose(h);
    h = op("unicode/CompositionExclusions.txt");
    while (fgets(line, sizeof line, h)) {
        if ((p = strchr(line, '#'))) *p = 0;
        p = trim(line);
        if (!*p) continue;
        range(p, &a, &b);
        for (; a <= b; a++) excl[a] = 1;
    }
    fclose(h);
    h = op("unicode/DerivedNormalizationProps.txt");
    while (fgets(line, sizeof line, h)) {
        if ((p = strchr(line, '#'))) *p = 0;
        n = split(line, f, 5);
        if (n < 3) continue;
        char *t = trim(f[1]), *v = trim(f[2]);
        int sh = !strcmp(t, "NFC_QC") ? 0 : !strcmp(t, "NFD_QC") ? 2 : !strcmp(t, "NFKC_QC") ? 4 : !strcmp(t, "NFKD_QC") ? 6 : -1;
        if (sh < 0) continue;
        range(f[0], &a, &b);
        for (; a <= b; a++) nf[a] |= (*v == 'N' ? 1 : *v == 'M' ? 2 : 0) << sh;
    }
    fclose(h);
    h = op("idna/IdnaMappingTable.txt");
    while (fgets(line, sizeof line, h)) {
        if ((p = strchr(line, '#'))) *p = 0;
        n = split(line, f, 5);
        if (n < 2) continue;
        range(f[0], &a, &b);
        char m[400] = "", *q = m;
        if (n > 2) for (p = f[2];;) {
            char *e; long cp = strtol(p, &e, 16);
            if (e == p) break;
            p = e;
            if (cp < 0x80) *q++ = cp;
            else if (cp < 0x800) { *q++ = 0xc0 | cp >> 6; *q++ = 0x80 | cp & 63; }
            else if (cp < 0x10000) { *q++ = 0xe0 | cp >> 12; *q++ = 0x80 | cp >> 6 & 63; *q++ = 0x80 | cp & 63; }
            else { *q++ = 0xf0 | cp >> 18; *q++ = 0x80 | cp >> 12 & 63; *q++ = 0x80 | cp >> 6 & 63; *q++ = 0x80 | cp & 63; }
            *q = 0;
        }
        char *st = strdup(trim(f[1])), *mm = *m ? strdup(m) : NULL;
        for (; a <= b; a++) { ist[a] = st; imap[a] = mm; }
    }
    fclose(h);
}
int main()
{
    int c, i;
    begin();
    load();
    static const struct { const char *n; bool (*f)(int); } is[] = {
        { "deviation", charstr_idna_status_is_deviation }, { "disallowed", charstr_idna_status_is_disallowed },
        { "disallowed_STD3_valid", charstr_idna_status_is_disallowed_STD3_valid }, { "disallowed_STD3_mapped", charstr_idna_status_is_disallowed_STD3_mapped },
        { "ignored", charstr_idna_status_is_ignored }, { "mapped", charstr_idna_status_is_mapped }, { "valid", charstr_idna_status_is_valid } };
    for (c = 0; c < M; c++) {
        if (c % 4096 == 0) alarm(60);
        reset(); note("U+%04X", c);
        CK(charstr_unicode_category(c) == cat[c], "category %d, expected %s", charstr_unicode_category(c), CN[cat[c]]);
        CK(charstr_unicode_canonical_combining_class(c) == ccc_[c], "combining class %d, expected %d", charstr_unicode_canonical_combining_class(c), ccc_[c]);
        CK(charstr_naive_lcase_unicode(c) == lc[c], "lower case %x, expected %x", charstr_naive_lcase_unicode(c), lc[c]);
        CK(charstr_naive_ucase_unicode(c) == uc[c], "upper case %x, expected %x", charstr_naive_ucase_unicode(c), uc[c]);
        CK(charstr_allowed_unicode_normal_forms(c) == nf[c], "normal form flags %x, expected %x", charstr_allowed_unicode_normal_forms(c), nf[c]);
        const int *d = _charstr_unicode_decomposition(c);
        CK(!d == !dec[c][0], "decomposition");
        for (i = 0; d && i < 3; i++) { CK(d[i] == dec[c][i], "decomposition"); if (!d[i]) break; }
        for (i = 0; i < 7; i++) CK(is[i].f(c) == !strcmp(ist[c], is[i].n), "idna status %s: %d, the file says %s", is[i].n, is[i].f(c), ist[c]);
        CK(!strcmp(charstr_idna_status(c), ist[c]), "idna status %s, the file says %s", charstr_idna_status(c), ist[c]);
        const char *m = charstr_idna_mapping(c);
        CK(!m == !imap[c] && (!m || !strcmp(m, imap[c])), "idna mapping %s, expected %s", m ? m : "none", imap[c] ? imap[c] : "none");
    }
    /* primary composites: exactly the canonical pairs that are not excluded */
    static int ss[20000], cc[20000], wn, cs[20000], ks[20000], cn_, kn;
    static int pair[20000];
    for (c = 0; c < M; c++)
        if (dec[c][1]) {
            if (!excl[c]) { ss[wn] = dec[c][0]; cc[wn] = dec[c][1]; pair[wn++] = c; }
            cs[cn_++] = dec[c][0]; ks[kn++] = dec[c][1];
        }
    for (i = 0; i < wn; i++) {
        reset(); note("U+%04X U+%04X", ss[i], cc[i]);
        int j, clash = 0;
        for (j = 0; j < wn; j++) if (j != i && ss[j] == ss[i] && cc[j] == cc[i]) clash = 1;
        CK(clash || _charstr_unicode_primary_composite(ss[i], cc[i]) == pair[i], "primary composite %x, expected %x", _charstr_unicode_primary_composite(ss[i], cc[i]), pair[i]);
    }
    /* nothing else: all pairs over the second elements, and every code point as the second */
    long hits = 0;
    static uint8_t seen[M];
    for (i = 0; i < kn; i++) {
        if (seen[ks[i]]) continue;
        seen[ks[i]] = 1;
        alarm(60);
        for (c = 0; c < M; c++) if (_charstr_unicode_primary_composite(c, ks[i]) >= 0) hits++;
    }
    reset();
    CK(hits == wn, "%ld composing pairs, the files give %d", hits, wn);
    for (c = 0; c < M; c++) {
        if (c % 4096 == 0) alarm(60);
        if (!seen[c])
            for (i = 0; i < cn_; i += 7) { CK(_charstr_unicode_primary_composite(cs[i], c) < 0, "U+%04X U+%04X composes", cs[i], c); }
    }
    return 0;
}
