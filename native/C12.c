#include "h.h"
#include "base64.h"
static bool wsp(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; }
static int val(char c, char p62, char p63)
{
    if (c == p62) return 62;
    if (c == p63) return 63;
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    return -1;
}
/* -1: not well-formed */
static long ref(const char *s, size_t n, uint8_t *o, char p62, char p63, bool ign)
{
    size_t i = 0, k = 0, b;
    static uint8_t bits[8000];
    size_t nb = 0;
    if (p62 == -1) p62 = '+';
    if (p63 == -1) p63 = '/';
    for (; i < n && s[i] && s[i] != '='; i++) {
        int v = val(s[i], p62, p63);
        if (v < 0) {
            if (ign && wsp(s[i])) continue;
            return -1;
        }
        for (b = 0; b < 6; b++) bits[nb++] = v >> (5 - b) & 1;
        k++;
    }
    if (k % 4 == 1) return -1;
    size_t len = nb / 8, pad = k % 4 ? 4 - k % 4 : 0;
    for (b = len * 8; b < nb; b++) if (bits[b]) return -1;
    for (; pad; pad--, i++) if (i >= n || s[i] != '=') return -1;
    for (; i < n && s[i]; i++) if (!ign || !wsp(s[i])) return -1;
    for (b = 0; b < len; b++) {
        int j, x = 0;
        for (j = 0; j < 8; j++) x = x << 1 | bits[b * 8 + j];
        o[b] = x;
    }
    return len;
}
static void one(const char *src, size_t n, bool term, size_t size, size_t room, char p62, char p63, bool ign)
{
    uint8_t w[1000];
    char *s = malloc(n + term);
    uint8_t *d = malloc(room);
    size_t i;
    reset();
    note("decode \"%.*s\" ", (int) n, src);
    hex("bytes", src, n);
    note("%s, size %zd, room %zu, 62=%d 63=%d, ignore %d", term ? "NUL-terminated" : "bare", (ssize_t) size, room, p62, p63, ign);
    memcpy(s, src, n);
    if (term) s[n] = 0;
    memset(d, 0x5a, room);
    long len = ref(s, size < n + term ? size : n + term, w, p62, p63, ign);
    errno = 0;
    ssize_t r = base64_decode_buffer(s, size, room ? d : NULL, room, p62, p63, ign);
    CK(r == len, "result %zd, expected %ld", r, len);
    if (len < 0)
        CK(errno == EILSEQ, "errno %d", errno);
    else {
        size_t k = len < (long) room ? len : room;
        CK(!memcmp(d, w, k), "wrong bytes");
        for (i = k; i < room; i++) CK(d[i] == 0x5a, "stored beyond the decoded length");
    }
    if (term && size > n && ign && p62 == -1 && p63 == -1) {
        size_t bs = 12345;
        uint8_t *t = base64_decode_simple(s, &bs);
        CK(!t == (len < 0), "simple decoding");
        if (t) CK(bs == (size_t) len && !memcmp(t, w, len) && t[len] == 0, "simple decoding: bytes");
        fsfree(t);
    }
    free(s);
    free(d);
}
int main(void)
{
    begin();
    static const char P[] = { -1, '+', '/', '-', '_', '*', '!', '.', ':' };
    char b[300];
    size_t i, j;
    int c;
    for (c = 0; c < 256; c++)
        for (i = 0; i < 6; i++) {
            char t[8] = "QUFBQQ==";
            more();
            t[i] = c;
            one(t, 8, 1, -1, 20, -1, -1, 0);
            one(t, 8, 1, -1, 20, -1, -1, 1);
            one(t, 8, 0, 8, 3, '-', '_', 1);
        }
    while (more()) {
        char p62 = below(2) ? -1 : P[below(sizeof P)], p63 = below(2) ? -1 : P[below(sizeof P)];
        if (p62 == p63 && p62 != -1) p63 = -1, p62 = -1;
        if (p62 == '/' && p63 == -1 || p63 == '+' && p62 == -1) p62 = p63 = -1;
        uint8_t raw[60];
        size_t n = below(below(2) ? 10 : 60);
        for (j = 0; j < n; j++) raw[j] = rnd();
        size_t len = base64_encode_buffer(raw, n, b, sizeof b, p62, p63);
        int m = below(5);
        bool w = below(2);
        if (w)
            for (j = below(5); j--; ) {
                size_t at = below(len + 1);
                memmove(b + at + 1, b + at, len - at);
                b[at] = "  \t\n\f\r\v"[below(7)];
                len++;
            }
        while (m-- > 2 && len) {
            size_t at = below(3) ? len - 1 - below(len < 5 ? len : 5) : below(len);
            switch (below(4)) {
                case 0: b[at] = rnd(); break;
                case 1: b[at] = '='; break;
                case 2: memmove(b + at, b + at + 1, len - at - 1); len--; break;
                default: memmove(b + at + 1, b + at, len - at); b[at] = "AQgw=/ +"[below(8)]; len++;
            }
        }
        bool term = below(2);
        size_t size = term ? below(2) ? (size_t) -1 : below(len + 3) : below(3) ? len : below(len + 1);
        one(b, len, term, size, below(3) ? n + below(3) - (n > 0) : below(70), p62, p63, below(4) ? w : !w);
    }
    return 0;
}
