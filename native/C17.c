#include "h.h"
#include "charstr.h"
static int lo(int c) { c &= 255; return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool ws(int c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static size_t last_req;
static void *rec(void *p, size_t n) { if (n) last_req = n; return counting_realloc(p, n); }
static void is(char *g, const char *s, size_t n, const char *what)
{
    CK(g, "%s: nothing", what);
    CK(last_req == n + 1, "%s: allocates %zu for %zu", what, last_req, n + 1);
    CK(!memcmp(g, s, n) && !g[n], "%s: other bytes: '%s'", what, g);
    fsfree(g);
}
static size_t ps[64], pe[64], np;
static void pieces(list_t *l, const char *s, const char *what)
{
    size_t i;
    CK(list_size(l) == np, "%s: %zu pieces, expected %zu", what, list_size(l), np);
    for (i = 0; i < np; i++) {
        char *p = (char *) list_pop_first(l);
        CK(strlen(p) == pe[i] - ps[i] && !memcmp(p, s + ps[i], pe[i] - ps[i]), "%s: piece %zu is '%s'", what, i, p);
        fsfree(p);
    }
    destroy_list(l);
    CK(!blocks, "%s: %ld blocks left", what, blocks);
}
int main()
{
    size_t i, n, k;
    begin();
    fs_set_reallocator(rec);
    CK(!charstr_dupstr(NULL) && !charstr_strip(NULL) && !charstr_dupsubstr(NULL, NULL), "NULL");
    { reset(); note("dupsubstr(\"abc\", NULL)"); last_req = 0; is(charstr_dupsubstr("abc", NULL), "abc", 3, "dupsubstr"); }
    while (more()) {
        char s_[40], *s, p_[16], *p;
        int al = below(4);
        const char *ab = al == 0 ? "ab" : al == 1 ? "aAbBzZ@[`{" : al == 2 ? "a \t\n\f\r\v" : "a,,b";
        reset();
        n = below(14);
        for (i = 0; i < n; i++) s_[i] = below(12) ? ab[below(strlen(ab))] : 1 + below(255);
        s_[n] = 0;
        s = strdup(s_);
        k = below(5);
        size_t off = below(3) ? 0 : below(n + 1);
        for (i = 0; i < k; i++) p_[i] = off + i < n && below(8) ? (below(4) ? s[off + i] : s[off + i] ^ 32) : ab[below(strlen(ab))];
        for (i = 0; i < k; i++) if (!p_[i]) p_[i] = 'a';
        p_[k] = 0;
        p = strdup(p_);
        hex("s", s, n); hex("p", p, k);
        is(charstr_dupstr(s), s, n, "dupstr");
        size_t f = below(n + 1), t = f + below(n - f + 1);
        is(charstr_dupsubstr(s + f, s + t), s + f, t - f, "dupsubstr");
        /* prefixes */
        bool pre = n >= k && !memcmp(s, p, k), cpre = n >= k;
        for (i = 0; i < k && cpre; i++) cpre = lo(s[i]) == lo(p[i]);
        const char *w = pre ? s + k : NULL, *cw = cpre ? s + k : NULL;
        CK(charstr_skip_prefix(s, p) == w, "skip_prefix");
        CK(charstr_case_starts_with(s, p) == w, "case_starts_with");
        CK(charstr_case_skip_prefix(s, p) == cw, "case_skip_prefix");
        CK(charstr_ncase_starts_with(s, p) == cw, "ncase_starts_with");
        CK(charstr_ends_with(s, p) == (n >= k && !memcmp(s + n - k, p, k)), "ends_with");
        CK(charstr_ends_with(s, s + f), "ends_with its own end");
        /* strip */
        f = 0; t = n;
        while (f < t && ws(s[f])) f++;
        while (t > f && ws(s[t - 1])) t--;
        is(charstr_strip(s), s + f, t - f, "strip");
        CK(!blocks, "%ld blocks left", blocks);
        /* splits */
        unsigned max = below(4) ? below(5) : -1u;
        char d = n && below(5) ? s[below(n)] : 'a';
        note("delim %d max %u ", d, max);
        np = 0; ps[0] = 0;
        for (i = 0; i < n && np < max; i++)
            if (s[i] == d) { pe[np++] = i; ps[np] = i + 1; }
        pe[np++] = n;
        pieces(charstr_split(s, d, max), s, "split");
        unsigned amax = max == -1u ? 50 : max;
        char **arr = malloc((amax + 1) * sizeof *arr);
        unsigned got = charstr_split_into_array(s, d, arr, amax);
        CK(got + 1 == np, "split_into_array returns %u, expected %zu", got, np - 1);
        for (i = 0; i < np; i++) {
            CK(strlen(arr[i]) == pe[i] - ps[i] && !memcmp(arr[i], s + ps[i], pe[i] - ps[i]), "split_into_array: piece %zu is '%s'", i, arr[i]);
            fsfree(arr[i]);
        }
        free(arr);
        CK(!blocks, "%ld blocks left", blocks);
        np = 0;
        for (i = 0; i < n;) {
            while (i < n && ws(s[i])) i++;
            if (i == n) break;
            ps[np] = i;
            while (i < n && !ws(s[i])) i++;
            pe[np++] = i;
        }
        pieces(charstr_split_atoms(s), s, "split_atoms");
        if (k) {
            np = 0; ps[0] = 0;
            for (i = 0; i + k <= n && np < max;)
                if (!memcmp(s + i, p, k)) { pe[np++] = i; i += k; ps[np] = i; }
                else i++;
            pe[np++] = n;
            pieces(charstr_split_str(s, p, max), s, "split_str");
        }
        CK(!strcmp(s, s_) && !strcmp(p, p_), "an argument changed");
        free(s); free(p);
    }
    return 0;
}
