//@ prove charstr_decode_utf8_codepoint harness=h_decode
//@ prove charstr_decode_utf8_codepoint harness=h_decode_unbounded
//@ prove charstr_encode_utf8_codepoint harness=h_encode
//@ harness h_roundtrip
#include "spec.h"
#include "charstr.h"
/* Well-formed UTF-8 by the table in RFC 3629 section 4 (an independent
 * statement: byte ranges, not arithmetic).  n = bytes available. */
#define U(i) ((unsigned char) s[i])
static size_t spec_wf(const char *s, size_t n)
{
    if (n >= 1 && U(0) <= 0x7f) return 1;
    if (n >= 2 && U(0) >= 0xc2 && U(0) <= 0xdf && U(1) >= 0x80 && U(1) <= 0xbf) return 2;
    if (n >= 3 && U(2) >= 0x80 && U(2) <= 0xbf &&
        ((U(0) == 0xe0 && U(1) >= 0xa0 && U(1) <= 0xbf) ||
         (U(0) >= 0xe1 && U(0) <= 0xec && U(1) >= 0x80 && U(1) <= 0xbf) ||
         (U(0) == 0xed && U(1) >= 0x80 && U(1) <= 0x9f) ||
         (U(0) >= 0xee && U(0) <= 0xef && U(1) >= 0x80 && U(1) <= 0xbf))) return 3;
    if (n >= 4 && U(2) >= 0x80 && U(2) <= 0xbf && U(3) >= 0x80 && U(3) <= 0xbf &&
        ((U(0) == 0xf0 && U(1) >= 0x90 && U(1) <= 0xbf) ||
         (U(0) >= 0xf1 && U(0) <= 0xf3 && U(1) >= 0x80 && U(1) <= 0xbf) ||
         (U(0) == 0xf4 && U(1) >= 0x80 && U(1) <= 0x8f))) return 4;
    return 0;
}
static int spec_cp(const char *s, size_t len)
{
    switch (len) {
        case 1: return U(0);
        case 2: return (U(0) - 0xc0) * 64 + (U(1) - 0x80);
        case 3: return (U(0) - 0xe0) * 4096 + (U(1) - 0x80) * 64 + (U(2) - 0x80);
        default: return (U(0) - 0xf0) * 262144 + (U(1) - 0x80) * 4096 +
                (U(2) - 0x80) * 64 + (U(3) - 0x80);
    }
}
static bool spec_scalar(int cp)
{
    return (cp >= 0 && cp < 0xd800) || (cp > 0xdfff && cp <= 0x10ffff);
}
static size_t spec_len(int cp)
{
    return cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
}
size_t ghost_n;      /* bytes from s to end (or to the end of the object) */
bool ghost_bounded, ghost_want;
/* length of the sequence at s: with no bound the object is NUL-terminated,
 * so that a sequence running into the NUL is ill-formed anyway */
static bool spec_decode(const char *s, const char *r, const int *codepoint)
{
    size_t len = spec_wf(s, ghost_n);
    if (!len)
        return r == NULL;
    return r == s + len && (!codepoint || *codepoint == spec_cp(s, len));
}
/* s has exactly n bytes: reading at or beyond end is out of bounds */
const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
                                          int *codepoint)
__CPROVER_requires(ghost_n <= 0x7fffffff && (ghost_bounded || ghost_n > 0))
__CPROVER_requires(__CPROVER_is_fresh(s, ghost_n))
__CPROVER_requires(ghost_bounded ? end == s + ghost_n : (end == NULL && s[ghost_n - 1] == 0))
__CPROVER_requires(ghost_want ? __CPROVER_is_fresh(codepoint, sizeof *codepoint) : codepoint == NULL)
__CPROVER_assigns(codepoint != NULL: *codepoint)
__CPROVER_ensures(spec_decode(s, __CPROVER_return_value, codepoint))
REACH;

size_t ghost_size;
static bool spec_encode(int cp, const char *s, const char *r, size_t n)
{
    size_t len = spec_len(cp);
    if (len > n)
        return r == NULL;
    return r == s + len && spec_wf(s, len) == len && spec_cp(s, len) == cp;
}
char *charstr_encode_utf8_codepoint(int codepoint, char *s, const char *end)
__CPROVER_requires(spec_scalar(codepoint) && ghost_n <= 0x7fffffff)
__CPROVER_requires(__CPROVER_is_fresh(s, ghost_n))
__CPROVER_requires(ghost_bounded ? end == s + ghost_n : (end == NULL && ghost_n >= spec_len(codepoint)))
__CPROVER_requires(ghost_size == (ghost_n < spec_len(codepoint) ? ghost_n : spec_len(codepoint)))
__CPROVER_assigns(__CPROVER_object_upto(s, ghost_size))
__CPROVER_ensures(spec_encode(codepoint, s, __CPROVER_return_value, ghost_n))
REACH;
#include "charstr.c"
void h_decode(void)
{
    size_t n; bool w;
    ghost_n = n; ghost_want = w; ghost_bounded = true;
    const char *s, *e; int *cp;
    charstr_decode_utf8_codepoint(s, e, cp);
}
void h_decode_unbounded(void)
{
    size_t n; bool w;
    ghost_n = n; ghost_want = w; ghost_bounded = false;
    const char *s, *e; int *cp;
    charstr_decode_utf8_codepoint(s, e, cp);
}
void h_encode(void)
{
    size_t n, k; bool b;
    ghost_n = n; ghost_size = k; ghost_bounded = b;
    int cp; char *s; const char *e;
    charstr_encode_utf8_codepoint(cp, s, e);
}
/* null pointers propagate as failure; decoding inverts encoding */
void h_roundtrip(void)
{
    int cp, back, other;
    char b[4];
    const char *nul = 0;
    __CPROVER_assert(charstr_decode_utf8_codepoint(0, b, &other) == 0, "decoding nothing fails");
    __CPROVER_assert(charstr_encode_utf8_codepoint(cp, 0, b) == 0, "encoding to nowhere fails");
    __CPROVER_assume(spec_scalar(cp));
    char *q = charstr_encode_utf8_codepoint(cp, b, b + 4);
    __CPROVER_assert(q != 0, "a scalar value fits in four bytes");
    const char *p = charstr_decode_utf8_codepoint(b, q, &back);
    __CPROVER_assert(p == q, "decoding consumes the encoding");
    __CPROVER_assert(back == cp, "decoding inverts encoding");
    REACH_END;
}
