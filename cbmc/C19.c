//@ prove binary64_to_integer harness=h_signed
//@ prove binary64_to_unsigned harness=h_unsigned
#include "spec.h"
/* The number denoted by the pattern, by CBMC's own IEEE 754 semantics. */
static double spec_number(uint64_t v)
{
    union { uint64_t u; double d; } x;
    x.u = v;
    return x.d;
}
static bool spec_signed(uint64_t v, bool r, long long n)
{
    double d = spec_number(v);
    bool ok = !__CPROVER_isnand(d) && d >= -9223372036854775808.0 &&
        d < 9223372036854775808.0 && (double) (long long) d == d;
    return ok ? r && n == (long long) d : !r;
}
static bool spec_unsigned(uint64_t v, bool r, unsigned long long n)
{
    double d = spec_number(v);
    bool ok = !__CPROVER_isnand(d) && d >= 0.0 &&
        d < 18446744073709551616.0 && (double) (unsigned long long) d == d;
    return ok ? r && n == (unsigned long long) d : !r;
}
bool binary64_to_integer(uint64_t value, long long *n)
__CPROVER_requires(__CPROVER_is_fresh(n, sizeof *n))
__CPROVER_assigns(*n)
__CPROVER_ensures(spec_signed(value, __CPROVER_return_value, *n))
REACH;
bool binary64_to_unsigned(uint64_t value, unsigned long long *n)
__CPROVER_requires(__CPROVER_is_fresh(n, sizeof *n))
__CPROVER_assigns(*n)
__CPROVER_ensures(spec_unsigned(value, __CPROVER_return_value, *n))
REACH;
#include "float.c"
void h_signed(void) { uint64_t v; long long *n; binary64_to_integer(v, n); }
void h_unsigned(void) { uint64_t v; unsigned long long *n; binary64_to_unsigned(v, n); }
