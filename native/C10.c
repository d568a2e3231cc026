#include "h.h"
#include "bytearray.h"
#define M 200
static uint8_t md[M + 1];
static size_t n, mx;
static void look(byte_array_t *a)
{
    CK(byte_array_size(a) == n, "size %zu, expected %zu", byte_array_size(a), n);
    const uint8_t *p = byte_array_data(a);
    CK(n < mx, "model");
    if (memcmp(p, md, n)) {
        hex("have", p, n);
        hex("want", md, n);
        FAIL("contents differ");
    }
    CK(p[n] == 0, "no NUL after the contents");
}
static size_t asked;
static ssize_t give;
static uint8_t pat;
static ssize_t rd(void *o, void *buf, size_t count)
{
    size_t i;
    CK(o == &give, "obj");
    CK(asked == (size_t) -1, "read twice");
    asked = count;
    CK(count + n < mx, "stream read asked for %zu bytes, at most %zu fit", count, mx - 1 - n);
    if (give > (ssize_t) count)
        give = count;
    if (give < 0) {
        errno = EAGAIN;
        return -1;
    }
    for (i = 0; i < give; i++)
        ((uint8_t *) buf)[i] = pat + i;
    return give;
}
static size_t some(void)
{
    switch (below(6)) {
    case 0: return below(3);
    case 1: return mx - 1 - n;
    case 2: return mx - n;
    case 3: return mx + below(3) - 1;
    default: return below(M);
    }
}
static size_t huge(void)
{
    static const size_t h[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 100 };
    return below(3) ? h[below(5)] : SIZE_MAX - n - below(3);
}
static void step(byte_array_t *a)
{
    uint8_t buf[M + 8];
    size_t i, len = some(), pos;
    bool ok, r;
    for (i = 0; i < sizeof buf; i++)
        buf[i] = 1 + below(255);
    if (len > M)
        len = M;
    switch (below(9)) {
    case 0:
        pos = below(4) == 0 ? some() : below(n + 1);
        if (below(12) == 0)
            pos = huge();
        if (below(12) == 0)
            len = huge();
        note("copy(%zu,%zu) ", pos, len);
        ok = pos <= n && len < mx - pos;
        CK(byte_array_copy(a, pos, buf, len) == ok, "copy %zu at %zu into %zu/%zu: result", len, pos, n, mx);
        if (ok) {
            memcpy(md + pos, buf, len);
            if (pos + len > n)
                n = pos + len;
        }
        break;
    case 1:
        pos = below(4) == 0 ? some() : below(n + 1);
        buf[len] = 0;
        note("copy_string(%zu,%zu) ", pos, len);
        ok = pos <= n && len < mx - pos;
        CK(byte_array_copy_string(a, pos, (char *) buf) == ok, "copy_string result");
        if (ok) {
            memcpy(md + pos, buf, len);
            if (pos + len > n)
                n = pos + len;
        }
        break;
    case 2: case 3:
        if (below(12) == 0)
            len = huge();
        note("append(%zu) ", len);
        ok = len < mx - n;
        CK(byte_array_append(a, buf, len) == ok, "append %zu to %zu/%zu: result", len, n, mx);
        if (ok) {
            memcpy(md + n, buf, len);
            n += len;
        }
        break;
    case 4:
        buf[len] = 0;
        note("append_string(%zu) ", len);
        ok = len < mx - n;
        CK(byte_array_append_string(a, (char *) buf) == ok, "append_string result");
        if (ok) {
            memcpy(md + n, buf, len);
            n += len;
        }
        break;
    case 5: case 6: {
        if (below(8) == 0)
            len = huge();
        give = (ssize_t) below(M) - (below(4) == 0 ? M : 0);
        if (below(2))
            give = M;
        pat = below(256);
        asked = -1;
        note("append_stream(%zu, gives %zd) ", len, give);
        size_t room = mx - 1 - n;
        ssize_t got = byte_array_append_stream(a, rd, &give, len);
        if (asked == (size_t) -1) {
            /* the read may be skipped when nothing fits or is wanted */
            CK(len == 0 || room == 0, "the stream is never read");
            CK(got <= 0, "stream result %zd without reading", got);
        } else {
            CK(asked <= len, "asked for more than wanted");
            CK(asked == (len < room ? len : room), "asked for %zu; wanted %zu, %zu fit", asked, len, room);
            CK(got == give || (give < 0 && got < 0), "stream result");
            if (got > 0)
                for (i = 0; i < got; i++)
                    md[n++] = pat + i;
        }
        break;
    }
    case 7:
        if (below(4))
            return;
        note("clear ");
        byte_array_clear(a);
        n = 0;
        break;
    case 8: {
        if (below(12) == 0)
            len = huge();
        uint8_t c = below(256);
        note("resize(%zu) ", len);
        ok = len < mx;
        CK(byte_array_resize(a, len, c) == ok, "resize to %zu of max %zu: result", len, mx);
        if (ok) {
            if (len > n)
                memset(md + n, c, len - n);
            n = len;
        }
    }
    }
    look(a);
}
int main(void)
{
    begin();
    fs_set_reallocator(counting_realloc);
    while (more()) {
        reset();
        n = 0;
        mx = below(3) ? 1 + below(20) : 1 + below(M - 1);
        note("max %zu: ", mx);
        blocks = 0;
        byte_array_t *a = make_byte_array(mx), *b = NULL;
        int steps = below(40);
        look(a);
        while (steps--)
            step(a);
        if (below(3) == 0) {
            b = share_byte_array(a);
            if (below(2))
                destroy_byte_array(share_byte_array(a));
            destroy_byte_array(a);
            a = b;
            look(a);
            step(a);
        }
        destroy_byte_array(a);
        CK(blocks == 0, "%ld blocks leaked", blocks);
    }
    return 0;
}
