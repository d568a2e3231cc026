#include "h.h"
#include "integer.h"
#include "hashtable.h"
static int sg(long long x) { return (x > 0) - (x < 0); }
static void two(uint64_t a, uint64_t b)
{
    reset();
    note("a=%llx b=%llx", (unsigned long long) a, (unsigned long long) b);
    intptr_t x = a, y = b;
    CK(as_intptr(as_integer(x)) == x && as_uintptr(as_unsigned(a)) == a, "boxing");
    CK((as_integer(x) == as_integer(y)) == (x == y) && (as_unsigned(a) == as_unsigned(b)) == (a == b), "distinct objects");
    CK(sg(integer_cmp(as_integer(x), as_integer(y))) == (x > y) - (x < y), "integer_cmp");
    CK(sg(unsigned_cmp(as_unsigned(a), as_unsigned(b))) == (a > b) - (a < b), "unsigned_cmp");
    CK(hash_integer(as_integer(x)) == (uint64_t) x && hash_unsigned(as_unsigned(a)) == a, "hash of a boxed integer");
}
int main(void)
{
    begin();
    static uint64_t v[400];
    int n = 0, i, j;
    for (i = 0; i < 64; i++)
        for (j = -1; j < 2; j++)
            v[n++] = (1ULL << i) + j;
    v[n++] = 0; v[n++] = -1; v[n++] = -2; v[n++] = 0x8000000000000001; v[n++] = 0xffffffff00000000; v[n++] = 0xffffffff80000000;
    for (i = 0; i < n; i++)
        for (j = 0; j < n; j++)
            two(v[i], v[j]);
    while (more())
        for (i = 0; i < 1000; i++) {
            uint64_t a = rnd() << 40 ^ rnd() << 20 ^ rnd(), b = below(2) ? a + below(5) - 2 : rnd() << 40 ^ rnd() << 20 ^ rnd();
            two(a, b);
            size_t len = below(below(8) ? 40 : 600), k;
            /* two copies with exact allocations and different alignment and surroundings */
            char *p = malloc(len + 1), *qq = malloc(len + 32), *q = qq + 8 + below(16);
            for (k = 0; k < len; k++)
                p[k] = q[k] = below(3) ? 1 + below(255) : 0x80 + below(128);
            p[len] = q[len] = 0;
            for (k = 0; k < 8; k++)
                q[(int) k - 8] = below(256);
            reset();
            hex("string", p, len);
            CK(hash_string(p) == hash_string(q), "equal strings hash differently");
            if (len)
                p[below(len)] = 0, memcpy(q, p, len);
            char *r = malloc(len);
            memcpy(r, p, len);
            reset();
            hex("blob", p, len);
            CK(hash_blob(r, len) == hash_blob(q, len), "equal blobs hash differently");
            free(r); free(p); free(qq);
        }
    return 0;
}
