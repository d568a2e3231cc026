//@ prove integer_cmp harness=h_icmp
//@ prove unsigned_cmp harness=h_ucmp
//@ prove hash_integer harness=h_hi
//@ prove hash_unsigned harness=h_hu
//@ harness h_box
#include "spec.h"
#include "integer.h"
#include "hashtable.h"
int integer_cmp(const void *a, const void *b)
__CPROVER_assigns()
__CPROVER_ensures((__CPROVER_return_value < 0) == ((intptr_t) a < (intptr_t) b))
__CPROVER_ensures((__CPROVER_return_value > 0) == ((intptr_t) a > (intptr_t) b))
REACH;
int unsigned_cmp(const void *a, const void *b)
__CPROVER_assigns()
__CPROVER_ensures((__CPROVER_return_value < 0) == ((uintptr_t) a < (uintptr_t) b))
__CPROVER_ensures((__CPROVER_return_value > 0) == ((uintptr_t) a > (uintptr_t) b))
REACH;
uint64_t hash_integer(integer_t *value)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == (uint64_t) (intptr_t) value)
REACH;
uint64_t hash_unsigned(unsigned_t *value)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == (uint64_t) (uintptr_t) value)
REACH;
#include "integer.c"
#include "hashtable.c"
intptr_t nondet_i(void);
uintptr_t nondet_u(void);
void h_icmp(void) { integer_cmp((void *) nondet_i(), (void *) nondet_i()); }
void h_ucmp(void) { unsigned_cmp((void *) nondet_u(), (void *) nondet_u()); }
void h_hi(void) { hash_integer((integer_t *) nondet_i()); }
void h_hu(void) { hash_unsigned((unsigned_t *) nondet_u()); }
void h_box(void)
{
    intptr_t i, j; uintptr_t u, v;
    __CPROVER_assert(as_intptr(as_integer(i)) == i, "unboxing inverts boxing (signed)");
    __CPROVER_assert(as_uintptr(as_unsigned(u)) == u, "unboxing inverts boxing (unsigned)");
    __CPROVER_assert((as_integer(i) == as_integer(j)) == (i == j), "distinct integers box to distinct objects (signed)");
    __CPROVER_assert((as_unsigned(u) == as_unsigned(v)) == (u == v), "distinct integers box to distinct objects (unsigned)");
    __CPROVER_assert((integer_cmp(as_integer(i), as_integer(j)) < 0) == (i < j), "order of boxed integers");
    __CPROVER_assert((integer_cmp(as_integer(i), as_integer(j)) > 0) == (i > j), "order of boxed integers");
    __CPROVER_assert((unsigned_cmp(as_unsigned(u), as_unsigned(v)) < 0) == (u < v), "order of boxed unsigned");
    __CPROVER_assert((unsigned_cmp(as_unsigned(u), as_unsigned(v)) > 0) == (u > v), "order of boxed unsigned");
    __CPROVER_assert(hash_integer(as_integer(i)) == (uint64_t) i, "hash is the value");
    __CPROVER_assert(hash_unsigned(as_unsigned(u)) == u, "hash is the value");
    REACH_END;
}
