#include "h.h"
#include "list.h"
#define MAXN 64
static list_elem_t *at[MAXN];
static const void *val[MAXN];
static int n;
static void same_as_model(list_t *l)
{
    int i;
    list_elem_t *e;
    CK(list_size(l) == n, "size %zu, expected %d", list_size(l), n);
    CK(!!list_empty(l) == (n == 0), "emptiness");
    for (i = 0, e = list_get_first(l); e; e = list_next(e), i++) {
        CK(i < n, "forward walk too long");
        CK(e == at[i], "forward walk: wrong element at %d", i);
        CK(list_elem_get_value(e) == val[i], "forward walk: wrong value at %d", i);
    }
    CK(i == n, "forward walk ends after %d of %d", i, n);
    for (i = n, e = list_get_last(l); e; e = list_previous(e)) {
        CK(i-- > 0, "backward walk too long");
        CK(e == at[i], "backward walk: wrong element at %d", i);
    }
    CK(i == 0, "backward walk short");
    for (i = -2; i < n + 2; i++)
        CK(list_get_by_index(l, i) == (i >= 0 && i < n ? at[i] : NULL), "by index %d", i);
    CK(list_get_by_index(l, INT_MIN) == NULL && list_get_by_index(l, INT_MAX) == NULL, "extreme index");
    intptr_t v;
    for (v = 1; v < 6; v++) {
        for (i = 0; i < n && val[i] != (void *) v; i++)
            ;
        CK(list_get(l, (void *) v) == (i < n ? at[i] : NULL), "lookup of value %d", (int) v);
    }
    for (i = 0; i < n && val[i] != NULL; i++)
        ;
    CK(list_get(l, NULL) == (i < n ? at[i] : NULL), "lookup of null");
}
static int fe;
static void each(const void *v, void *arg)
{
    CK(arg == &fe, "argument");
    CK(fe < n && v == val[fe], "foreach order at %d", fe);
    fe++;
}
static void ins(int k, list_elem_t *e, const void *v)
{
    memmove(at + k + 1, at + k, (n - k) * sizeof *at);
    memmove(val + k + 1, val + k, (n - k) * sizeof *val);
    at[k] = e, val[k] = v;
    n++;
}
static void del(int k)
{
    n--;
    memmove(at + k, at + k + 1, (n - k) * sizeof *at);
    memmove(val + k, val + k + 1, (n - k) * sizeof *val);
}
static void op(list_t **pl, int what, int k, intptr_t v)
{
    list_t *l = *pl;
    switch (what) {
    case 0:
        if (n < MAXN) { note("append(%d) ", (int) v); ins(n, list_append(l, (void *) v), (void *) v); }
        break;
    case 1:
        if (n < MAXN) { note("prepend(%d) ", (int) v); ins(0, list_prepend(l, (void *) v), (void *) v); }
        break;
    case 2:
        if (n && n < MAXN) { k %= n; note("insert_before(%d at %d) ", (int) v, k); ins(k, list_insert_before(l, (void *) v, at[k]), (void *) v); }
        break;
    case 3:
        if (n) { k %= n; note("remove(at %d) ", k); list_remove(l, at[k]); del(k); }
        break;
    case 4: {
        note("pop_first ");
        const void *w = list_pop_first(l);
        CK(w == (n ? val[0] : NULL), "pop_first result");
        if (n) del(0);
        break;
    }
    case 5: {
        note("pop_last ");
        const void *w = list_pop_last(l);
        CK(w == (n ? val[n - 1] : NULL), "pop_last result");
        if (n) del(n - 1);
        break;
    }
    case 6: {
        note("copy ");
        list_t *c = list_copy(l);
        same_as_model(l);
        list_elem_t *e;
        int i = 0;
        for (e = list_get_first(c); e; e = list_next(e), i++) {
            CK(i < n && list_elem_get_value(e) == val[i], "copy differs at %d", i);
            CK(e != at[i], "copy shares an element");
        }
        CK(i == n && list_size(c) == n, "copy length");
        if (v & 1) {
            list_t *t = l; l = c; c = t;
            for (i = 0, e = list_get_first(l); e; e = list_next(e))
                at[i++] = e;
            *pl = l;
        } else if (n)
            list_pop_first(c);
        destroy_list(c);
        break;
    }
    case 7:
        fe = 0;
        note("foreach ");
        list_foreach(l, each, &fe);
        CK(fe == n, "foreach called %d times for %d elements", fe, n);
        break;
    }
    same_as_model(*pl);
}
int main(void)
{
    begin();
    int a, b, c, d, e;
    for (a = 0; a < 8 * 8 * 8 * 8 * 8 && more(); a++) {
        list_t *l = make_list();
        reset(); n = 0;
        same_as_model(l);
        for (b = a, c = 0; c < 5; c++, b /= 8)
            op(&l, b % 8, a / 7 + c * 5, 1 + c % 3);
        destroy_list(l);
    }
    while (more()) {
        list_t *l = make_list();
        reset(); n = 0;
        int bias = below(3), steps = below(80);
        while (steps--) {
            int w = below(8);
            if (bias && below(2))
                w = below(3);
            op(&l, w, below(1000), below(6));
        }
        destroy_list(l);
    }
    return 0;
}
