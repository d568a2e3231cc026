#include "h.h"
#include "float.h"
static void one(uint64_t v)
{
    double x;
    memcpy(&x, &v, 8);
    reset();
    note("pattern %016llx (%a)", (unsigned long long) v, x);
    long long n = -99;
    unsigned long long u = 99;
    bool si = x >= -9223372036854775808.0 && x < 9223372036854775808.0 && x == (double) (long long) x;
    bool ui = x >= 0 && x < 18446744073709551616.0 && x == (double) (unsigned long long) x;
    CK(binary64_to_integer(v, &n) == si, "signed: result");
    CK(!si || n == (long long) x, "signed: value %lld", n);
    CK(binary64_to_unsigned(v, &u) == ui, "unsigned: result");
    CK(!ui || u == (unsigned long long) x, "unsigned: value %llu", u);
}
int main(void)
{
    begin();
    uint64_t s, e, k;
    int i, j;
    for (s = 0; s < 2; s++)
        for (e = 0; e < 2048; e++) {
            more();
            uint64_t b = s << 63 | e << 52;
            for (i = 0; i < 52; i++)
                for (j = 0; j <= i; j++) {
                    one(b | 1ULL << i | 1ULL << j);
                    one(b | (1ULL << 52) - (1ULL << i));
                    one(b | (1ULL << i) - 1);
                }
            one(b);
        }
    while (more())
        for (i = 0; i < 1000; i++) {
            k = rnd() << 40 ^ rnd() << 20 ^ rnd();
            e = 1000 + below(100);
            one(below(4) ? k & ~(2047ULL << 52) | e << 52 : k);
            one((k & ~(2047ULL << 52) | e << 52) & ~0ULL << below(53));
        }
    return 0;
}
