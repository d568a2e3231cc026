#include <sys/mman.h>
#include "h.h"
#include "base64.h"
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static size_t ref(const uint8_t *s, size_t n, char *o, char p62, char p63)
{
    size_t i, k = 0;
    int c;
    if (p62 == -1) p62 = '+';
    if (p63 == -1) p63 = '/';
    for (i = 0; i < n; i += 3) {
        uint32_t v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
        for (c = 0; c < 4; c++) {
            int d = v >> (18 - 6 * c) & 63;
            o[k++] = c > (int) (n - i) ? '=' : d == 62 ? p62 : d == 63 ? p63 : AL[d];
        }
    }
    return k;
}
static void one(const uint8_t *src, size_t n, size_t room, char p62, char p63)
{
    char w[1000];
    uint8_t *s = malloc(n);
    char *d = malloc(room);
    reset();
    hex("encode", src, n);
    note("into %zu bytes, 62='%d' 63='%d' ", room, p62, p63);
    memcpy(s, src, n);
    memset(d, 0x5a, room);
    size_t len = ref(s, n, w, p62, p63), i;
    size_t r = base64_encode_buffer(s, n, room ? d : NULL, room, p62, p63);
    CK(r == len, "length %zu, expected %zu", r, len);
    CK(base64_encoding_size(n) == len, "advertised size");
    size_t k = room ? len < room ? len : room - 1 : 0;
    CK(!memcmp(d, w, k), "wrong text %.*s", (int) k, d);
    if (room) CK(d[k] == 0, "not terminated");
    for (i = k + 1; i < room; i++) CK(d[i] == 0x5a, "stored beyond the NUL");
    if (p62 == -1 && p63 == -1) {
        char *t = base64_encode_simple(s, n);
        CK(t && strlen(t) == len && !memcmp(t, w, len), "simple encoding");
        fsfree(t);
    }
    free(s);
    free(d);
}
int main(void)
{
    begin();
    static const char P[] = { -1, '+', '/', '-', '_', '*', '!', -2, 127 };
    uint8_t b[64];
    size_t n, room, i;
    for (n = 0; n <= 13; n++)
        for (room = 0; room <= 24; room++)
            for (i = 0; i < 12; i++) {
                size_t j;
                more();
                for (j = 0; j < n; j++) b[j] = below(3) ? rnd() : below(2) ? 0xff : 0xfb;
                one(b, n, room, P[below(sizeof P)], P[below(sizeof P)]);
                one(b, n, room, -1, -1);
            }
    for (i = 0; i < 70; i++) {
        size_t x = i < 64 ? (size_t) 1 << i : (size_t) -1, d;
        for (d = 0; d < 9; d++) {
            size_t y = x + d - 4;
            unsigned __int128 e = ((unsigned __int128) y + 2) / 3 * 4;
            reset();
            note("encoding size of %zu", y);
            CK(base64_encoding_size(y) == (e > (size_t) -1 ? (size_t) -1 : (size_t) e), "got %zu", base64_encoding_size(y));
        }
    }
    for (i = 0; i < 64; i++) {
        size_t y = (size_t) -1 / 4 * 3 + i - 32;
        unsigned __int128 e = ((unsigned __int128) y + 2) / 3 * 4;
        reset();
        note("encoding size of %zu", y);
        CK(base64_encoding_size(y) == (e > (size_t) -1 ? (size_t) -1 : (size_t) e), "got %zu", base64_encoding_size(y));
    }
    for (i = 0; i < 6; i++) {
        /* more than can be counted in 31 or 32 bits */
        static const size_t M[] = { (size_t) 3 << 29, ((size_t) 1 << 31) + 5, ((size_t) 3 << 30) + 1, ((size_t) 1 << 32) + 7, (size_t) 5 << 30, ((size_t) 9 << 30) + 2 };
        void *big = mmap(0, M[i], PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (big == MAP_FAILED) continue;
        for (room = 0; room < 10; room += 3) {
            char d[10] = "";
            reset();
            note("%zu zero bytes into %zu bytes", M[i], room);
            more();
            n = base64_encode_buffer(big, M[i], d, room, -1, -1);
            CK(n == (M[i] + 2) / 3 * 4, "length %zu reported", n);
            CK(!room || (strlen(d) == room - 1 && strspn(d, "A") == room - 1), "wrong text");
        }
        munmap(big, M[i]);
    }
    while (more()) {
        size_t j;
        n = below(64);
        for (j = 0; j < n; j++) b[j] = rnd();
        one(b, n, below(100), P[below(sizeof P)], P[below(sizeof P)]);
        one(b, n, below(100), -1, -1);
    }
    return 0;
}
