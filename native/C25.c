#include "h.h"
#include <sys/resource.h>
static void *lp; static size_t ls; static int calls, counted; static long csum;
static void *next;
static void *rec(void *p, size_t n) { calls++; lp = p; ls = n; return next; }
static void *rec2(void *p, size_t n) { calls += 100; lp = p; ls = n; return next; }
static void cnt(int c) { csum += c; counted++; }
static void cnt2(int c) { csum += 1000 * c; counted++; }
static void *lastp; static size_t lasts;
static void *big(void *p, size_t n) { calls++; lp = p; ls = n; if (n > 1 << 20) return NULL; return n ? memset(malloc(n), 0xa5, n) : (free(p), NULL); }
int main(void)
{
    static char block[4096];
    begin();
    size_t v[] = { 0, 1, 2, 3, 7, 8, 16, 255, 4096, 65536, 1u << 31, 1ull << 32, (1ull << 32) - 1, (1ull << 32) + 1, 1ull << 33, 1ull << 62, 1ull << 63, SIZE_MAX / 2, SIZE_MAX / 3, SIZE_MAX / 3 + 1, SIZE_MAX - 1, SIZE_MAX };
    int i, j, k, n = sizeof v / sizeof *v;
    fs_realloc_t def = fs_get_reallocator();
    fs_reallocator_counter_t dc = fs_get_reallocator_counter();
    CK(def, "no default reallocator");
    for (k = 0; k < 2; k++) {
        fs_realloc_t f = k ? rec2 : rec;
        int one = k ? 100 : 1;
        fs_set_reallocator(f);
        CK(fs_get_reallocator() == f, "getter of the reallocator");
        for (i = 0; i < n; i++) {
            reset();
            note("size %zu", v[i]);
            next = v[i] ? block : NULL;
            calls = 0; lp = block;
            CK(fsalloc(v[i]) == next, "fsalloc result");
            CK(calls == one && lp == NULL && ls == v[i], "fsalloc request: %d calls, %p, %zu", calls, lp, ls);
            calls = 0;
            next = v[i] ? block + 64 : NULL;
            CK(fsrealloc(block, v[i]) == next, "fsrealloc result");
            CK(calls == one && lp == block && ls == v[i], "fsrealloc request: %d calls, %p, %zu", calls, lp, ls);
            calls = 0;
            CK(fsrealloc(NULL, v[i]) == next, "fsrealloc result");
            CK(calls == one && lp == NULL && ls == v[i], "fsrealloc request");
        }
        calls = 0;
        fsfree(NULL);
        CK(calls == 0, "freeing nothing makes a request");
        next = NULL;
        fsfree(block + 5);
        CK(calls == one && lp == block + 5 && ls == 0, "fsfree request: %d calls, %p, %zu", calls, lp, ls);
    }
    fs_set_reallocator(big);
    for (i = 0; i < n; i++)
        for (j = 0; j < n; j++) {
            reset();
            note("fscalloc(%zu, %zu)", v[i], v[j]);
            unsigned __int128 prod = (unsigned __int128) v[i] * v[j];
            calls = 0;
            if (prod > 1 << 20) {
                /* the request must not be smaller than the product (or the maximum if that overflows) */
                void *p = NULL;
                ls = 0;
                p = prod <= SIZE_MAX || 1 ? fscalloc(v[i], v[j]) : NULL;
                CK(ls >= (prod > SIZE_MAX ? SIZE_MAX : (size_t) prod), "request of %zu bytes", ls);
                CK(!p, "a block smaller than the product");
            } else {
                uint8_t *p = fscalloc(v[i], v[j]);
                size_t q;
                if (prod) {
                    CK(p && ls >= prod, "block");
                    for (q = 0; q < prod; q++)
                        CK(p[q] == 0, "byte %zu not zero", q);
                }
                fsfree(p);
            }
        }
    /* counter, with the default reallocator */
    fs_set_reallocator(def);
    for (k = 0; k < 3; k++) {
        fs_reallocator_counter_t f = k == 2 ? dc : k ? cnt2 : cnt;
        fs_set_reallocator_counter(f);
        CK(fs_get_reallocator_counter() == f, "getter of the counter");
        if (k == 2)
            break;
        long w = k ? 1000 : 1;
        reset(); note("default reallocator with counter %d", k);
        void *p = fsalloc(10);
        p = fsrealloc(p, 100);
        void *q = fscalloc(3, 5);
        CK(p && q, "allocation");
        memset(p, 1, 100);
        fsfree(p);
        fsfree(q);
        csum = 0;
        fs_reallocator_skew(5);
        CK(csum == 5 * w, "skew");
        fs_reallocator_skew(-2);
        CK(csum == 3 * w, "skew");
    }
    return 0;
}
