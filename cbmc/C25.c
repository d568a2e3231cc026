//@ harness h_alloc
//@ harness h_realloc
//@ harness h_free
//@ harness h_setters
//@ harness h_skew
//@ harness h_default
#include "spec.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
/* ghost log of the last request seen by an arbitrary reallocator */
static unsigned calls; static void *got_ptr; static size_t got_size; static void *give;
static void *rec(void *ptr, size_t size)
{
    calls++; got_ptr = ptr; got_size = size; return give;
}
static unsigned rcalls; static void *r_ptr; static size_t r_size; static void *r_give;
static unsigned fcalls; static void *f_ptr; static unsigned aborted;
#define realloc sys_realloc
#define abort sys_abort
#define free sys_free
static void *sys_realloc(void *p, size_t n) { rcalls++; r_ptr = p; r_size = n; return r_give; }
static void sys_free(void *p) { fcalls++; f_ptr = p; }
static void sys_abort(void) { aborted++; __CPROVER_assume(0); }
/* memset with a recorded extent: the block handed out by the reallocator is
 * represented by its address only */
static unsigned mcalls; static void *m_ptr; static int m_c; static size_t m_n;
#define memset sys_memset
static void *sys_memset(void *p, int c, size_t n) { mcalls++; m_ptr = p; m_c = c; m_n = n; return p; }
#include "fsalloc.c"
#undef memset
#undef realloc
#undef abort
#undef free
static void setup(void)
{
    uintptr_t g; give = (void *) g; fs_set_reallocator(rec); calls = 0; mcalls = 0;
}
void h_alloc(void)
{
    size_t n; setup();
    void *r = fsalloc(n);
    __CPROVER_assert(calls == 1 && got_ptr == NULL && got_size == n, "fsalloc asks for exactly n bytes");
    __CPROVER_assert(r == give, "fsalloc returns the block");
    REACH_END;
}
void h_realloc(void)
{
    size_t n; uintptr_t p; setup();
    void *r = fsrealloc((void *) p, n);
    __CPROVER_assert(calls == 1 && got_ptr == (void *) p && got_size == n, "fsrealloc passes pointer and size");
    __CPROVER_assert(r == give, "fsrealloc returns the block");
    REACH_END;
}
void h_free(void)
{
    uintptr_t p; setup();
    fsfree((void *) p);
    __CPROVER_assert(p ? calls == 1 && got_ptr == (void *) p && got_size == 0 : calls == 0,
                     "fsfree requests size zero for the block, nothing for NULL");
    REACH_END;
}
void h_calloc(void)
{
    size_t nmemb, size; setup();
    void *r = fscalloc(nmemb, size);
    unsigned __int128 need = (unsigned __int128) nmemb * size;
    __CPROVER_assert(calls == 1 && got_ptr == NULL, "one allocation");
    if (need <= SIZE_MAX)
        __CPROVER_assert(got_size == (size_t) need, "fscalloc asks for exactly nmemb x size bytes");
    else
        __CPROVER_assert(got_size == SIZE_MAX || r == NULL, "an overflowing product is never met by a smaller block");
    __CPROVER_assert(r == give, "fscalloc returns the block");
    if (r)
        __CPROVER_assert(mcalls == 1 && m_ptr == r && m_c == 0 && m_n == got_size, "all of it is zeroed");
    else
        __CPROVER_assert(mcalls == 0, "nothing is zeroed without a block");
    REACH_END;
}
static void *other(void *p, size_t n) { return (void *) 0; }
static int counted, ncount;
static void cnt(int c) { counted = c; ncount++; }
static int counted2, ncount2;
static void cnt2(int c) { counted2 = c; ncount2++; }
void h_setters(void)
{
    bool b; setup();
    fs_set_reallocator(b ? rec : other);
    __CPROVER_assert(fs_get_reallocator() == (b ? rec : other), "the getter reports the reallocator set");
    size_t n; (void) fsalloc(n);
    __CPROVER_assert(calls == (b ? 1 : 0), "a new reallocator takes effect");
    fs_set_reallocator_counter(b ? cnt : cnt2);
    __CPROVER_assert(fs_get_reallocator_counter() == (b ? cnt : cnt2), "the getter reports the counter set");
    __CPROVER_assert(fs_get_reallocator() == (b ? rec : other), "the counter does not disturb the reallocator");
    REACH_END;
}
void h_skew(void)
{
    int c; bool b;
    fs_set_reallocator_counter(b ? cnt : cnt2);
    fs_reallocator_skew(c);
    __CPROVER_assert(b ? ncount == 1 && counted == c && ncount2 == 0 : ncount2 == 1 && counted2 == c && ncount == 0,
                     "the skew reaches the counter set");
    REACH_END;
}
void h_default(void)
{
    size_t n; uintptr_t p, g;
    r_give = (void *) g;
    fs_realloc_t f = fs_get_reallocator();
    void *r = f((void *) p, n);
    __CPROVER_assert(n == 0 || r != NULL, "the default reallocator never returns NULL for a non-zero size");
    __CPROVER_assert(rcalls == 1 && r_ptr == (void *) p && r_size == n, "the default reallocator passes the request on");
    __CPROVER_assert(r == r_give, "and returns what the system gave");
    fs_get_reallocator_counter()(3);
    REACH_END;
}
