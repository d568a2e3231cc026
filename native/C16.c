#include "h.h"
#include "charstr.h"
static size_t last_req;
static void *rec(void *p, size_t n) { if (n) last_req = n; return counting_realloc(p, n); }
static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 55 : c >= 'a' && c <= 'f' ? c - 87 : -1; }
static void encb(int c, char *out, bool res, bool unres)
{
    bool self = c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c && strchr("\"-./<>\\^_`{|}~", c);
    if (unres && c) { out[0] = c; out[1] = 0; }
    else if (res && c) sprintf(out, "%%%02X", c);
    else if (c == ' ') strcpy(out, "+");
    else if (self) { out[0] = c; out[1] = 0; }
    else sprintf(out, "%%%02X", c);
}
static void decode(const char *t, size_t tn)
{
    char *e = malloc(tn + 1);
    size_t i, w;
    int plus;
    memcpy(e, t, tn); e[tn] = 0;
    for (plus = 0; plus < 2; plus++) {
        reset(); note("decode plus_is_space=%d ", plus); hex("text", t, tn);
        char *want = malloc(tn + 1);
        bool ok = true;
        for (i = w = 0; ok && e[i]; w++)
            if (e[i] == '%') {
                if (hx(e[i + 1]) < 0 || hx(e[i + 2]) < 0) ok = false;
                else { want[w] = hx(e[i + 1]) * 16 + hx(e[i + 2]); i += 3; }
            } else { want[w] = e[i] == '+' && plus ? ' ' : e[i]; i++; }
        size_t sz = 777;
        errno = 0;
        bool pass = below(4);
        char *d = charstr_url_decode(e, plus, pass ? &sz : NULL);
        if (!ok) {
            CK(!d, "malformed escape accepted");
            CK(errno == EILSEQ, "errno is %d", errno);
        } else {
            CK(d, "rejected");
            CK(!pass || sz == w, "size %zu, expected %zu", sz, w);
            CK(last_req == w + 1, "allocates %zu bytes for %zu", last_req, w + 1);
            CK(!memcmp(d, want, w) && !d[w], "other bytes");
            fsfree(d);
        }
        CK(!blocks, "%ld blocks left", blocks);
        free(want);
    }
    free(e);
}
int main()
{
    int c, x, y;
    size_t i, n;
    begin();
    fs_set_reallocator(rec);
    for (c = 0; c < 256; c++) {
        char w[8];
        reset(); note("byte %d", c);
        encb(c, w, 0, 0);
        CK(!strcmp(charstr_url_encode_byte(c), w), "charstr_url_encode_byte gives %s, expected %s", charstr_url_encode_byte(c), w);
    }
    for (x = 0; x < 256; x++)
        for (y = 0; y < 256; y++) {
            char t[4] = { '%', x, y, 0 };
            decode(t, strlen(t));
        }
    decode("", 0); decode("%", 1); decode("a%4", 3); decode("%4%41", 5);
    while (more()) {
        char s[40], r[20], u[20];
        n = below(30);
        for (i = 0; i < n; i++) s[i] = below(3) ? " +%az09\"~-."[below(11)] : 1 + below(255);
        s[n] = 0;
        char *b = strdup(s);
        size_t rn = below(5), un = below(5);
        for (i = 0; i < rn; i++) r[i] = below(2) && n ? s[below(n)] : 1 + below(255);
        for (i = 0; i < un; i++) u[i] = below(2) && n ? s[below(n)] : 1 + below(255);
        r[rn] = u[un] = 0;
        int custom;
        for (custom = 0; custom < 2; custom++) {
            reset(); hex("encode", s, n);
            if (custom) { hex("reserve", r, rn); hex("unreserve", u, un); }
            char want[200] = "";
            size_t w = 0;
            for (i = 0; i < n; i++) {
                encb((uint8_t) s[i], want + w, custom && strchr(r, s[i]), custom && strchr(u, s[i]));
                w += strlen(want + w);
            }
            charstr_url_encoder_t *e = custom ? charstr_create_url_encoder(r, u) : NULL;
            if (custom)
                for (c = 0; c < 256; c++) {
                    char wb[8];
                    encb(c, wb, c && strchr(r, c), c && strchr(u, c));
                    CK(!strcmp(charstr_url_custom_encode_byte(e, c), wb), "custom encoding of byte %d is %s, expected %s", c, charstr_url_custom_encode_byte(e, c), wb);
                }
            last_req = 0;
            char *g;
            bool pct = custom && strchr(u, '%') ? true : false;
            g = custom ? charstr_url_custom_encode(e, b) : charstr_url_encode(b);
            CK(pct ? last_req >= w + 1 : last_req == w + 1, "allocates %zu bytes for %zu", last_req, w + 1);
            CK(!strcmp(g, want), "encoding is %s, expected %s", g, want);
            CK(!strcmp(b, s), "the string changed");
            if (!custom) {
                size_t sz;
                char *d = charstr_url_decode(g, true, &sz);
                CK(d && sz == n && !strcmp(d, s), "does not decode to the original");
                fsfree(d);
            }
            fsfree(g);
            if (e) charstr_destroy_url_encoder(e);
            CK(!blocks, "%ld blocks left", blocks);
            for (c = 0; custom && c < 256; c++) {
                char wb[8];
                encb(c, wb, 0, 0);
                CK(!strcmp(charstr_url_encode_byte(c), wb), "default encoding of byte %d changed", c);
            }
        }
        free(b);
        char t[60];
        n = below(16);
        for (i = 0; i < n; i++) t[i] = "%%%0123456789abcdefABCDEFgG/:@`+x"[below(34)];
        if (n && below(3) == 0) t[below(n)] = 1 + below(255);
        decode(t, n);
        /* well-formed text */
        for (n = 0; n < 30;)
            if (below(2)) t[n++] = "+az/\xff"[below(5)];
            else { t[n++] = '%'; t[n++] = "0123456789abcdefABCDEF"[below(22)]; t[n++] = "0123456789abcdefABCDEF"[below(22)]; }
        decode(t, n);
    }
    return 0;
}
