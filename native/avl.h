#include "h.h"
#include "avltree.h"
#include "avltree_imp.h"
#ifndef MAP
#define MAP 0
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
#ifndef NEIGH
#define NEIGH 0
#endif
#ifndef MEM
#define MEM 0
#endif
#define K 512
/* keys are pointers to one of two copies of a number: equal keys are not identical */
static int keys[2][K], nk;
static int cmode;
static int ordr(int x) { return cmode == 2 ? -x : x; }
static int cf(const void *a, const void *b)
{
    int x = ordr(*(const int *) a), y = ordr(*(const int *) b);
    return x < y ? (cmode == 1 ? INT_MIN : -1) : x > y ? (cmode == 1 ? INT_MAX : 1) : 0;
}
static int cf2(const void *a, const void *b, void *o) { CK(o == keys, "obj handed to the comparator"); return cf(a, b); }
static struct { bool in; avl_elem_t *e; const void *key, *value; } md[K];
static int cnt;
static int height(avl_elem_t *e, avl_elem_t *parent, avl_elem_t *lo, avl_elem_t *hi, int *n)
{
    if (!e) return 0;
    CK(++*n <= cnt, "more elements linked than the history implies");
    CK(e->parent == parent, "parent link of key %d", *(int *) e->key);
    CK(!lo || cf(lo->key, e->key) < 0, "key %d is not above %d", *(int *) e->key, *(int *) lo->key);
    CK(!hi || cf(e->key, hi->key) < 0, "key %d is not below %d", *(int *) e->key, *(int *) hi->key);
    int l = height(e->left, e, lo, e, n), r = height(e->right, e, e, hi, n);
    CK(r - l >= -1 && r - l <= 1, "key %d is out of balance: %d %d", *(int *) e->key, l, r);
    CK(e->balance == r - l, "recorded balance of key %d is %d, not %d", *(int *) e->key, e->balance, r - l);
    return 1 + (l > r ? l : r);
}
static void shape(avl_tree_t *t)
{
    int n = 0;
    height(t->root, NULL, NULL, NULL, &n);
    CK(n == cnt, "%d elements linked, expected %d", n, cnt);
}
static void one(avl_tree_t *t, int i)
{
    avl_elem_t *e = avl_tree_get(t, &keys[below(2)][i]);
    if (!md[i].in) { CK(!e, "absent key %d found", i); return; }
    CK(e, "key %d lost", i);
    CK(!md[i].e || md[i].e == e, "key %d: another element", i);
    md[i].e = e;
    CK(avl_elem_get_key(e) == md[i].key, "key %d: stored key", i);
    CK(avl_elem_get_value(e) == md[i].value, "key %d: stored value", i);
}
static void map(avl_tree_t *t)
{
    int i;
    CK(avl_tree_size(t) == cnt, "size %zu, expected %d", avl_tree_size(t), cnt);
    CK(!!avl_tree_empty(t) == (cnt == 0), "emptiness");
    for (i = 0; i < nk; i++) one(t, i);
}
static int mid(avl_elem_t *e) { return e ? *(const int *) avl_elem_get_key(e) : -1; }
static void neigh(avl_tree_t *t)
{
    /* in the order of the comparator: position j holds key kk(j) */
    int j, prev = -1, first = -1, last = -1;
#define KK(j) (cmode == 2 ? nk - 1 - (j) : (j))
    for (j = 0; j < nk; j++) {
        int k = KK(j), on = md[k].in ? k : -1, before = prev, i;
        const void *key = &keys[below(2)][k];
        CK(mid(avl_tree_get_before(t, key)) == before, "before %d: %d, expected %d", k, mid(avl_tree_get_before(t, key)), before);
        CK(mid(avl_tree_get_on_or_before(t, key)) == (on >= 0 ? on : before), "on or before %d: %d", k, mid(avl_tree_get_on_or_before(t, key)));
        for (i = j + 1; i < nk && !md[KK(i)].in; i++) ;
        int after = i < nk ? KK(i) : -1;
        CK(mid(avl_tree_get_after(t, key)) == after, "after %d: %d, expected %d", k, mid(avl_tree_get_after(t, key)), after);
        CK(mid(avl_tree_get_on_or_after(t, key)) == (on >= 0 ? on : after), "on or after %d: %d", k, mid(avl_tree_get_on_or_after(t, key)));
        if (on >= 0) {
            if (first < 0) first = k;
            last = k;
            avl_elem_t *e = avl_tree_get(t, key);
            CK(e, "key %d lost", k);
            CK(mid(avl_tree_next(e)) == after, "next of %d: %d, expected %d", k, mid(avl_tree_next(e)), after);
            CK(mid(avl_tree_previous(e)) == before, "previous of %d: %d, expected %d", k, mid(avl_tree_previous(e)), before);
            prev = k;
        }
    }
    CK(mid(avl_tree_get_first(t)) == first, "first: %d, expected %d", mid(avl_tree_get_first(t)), first);
    CK(mid(avl_tree_get_last(t)) == last, "last: %d, expected %d", mid(avl_tree_get_last(t)), last);
}
static bool full;
static void look(avl_tree_t *t, int touched)
{
    if (!full && below(8)) { if (MAP) one(t, touched); return; }
    if (MAP) map(t);
    if (SHAPE) shape(t);
    if (NEIGH) neigh(t);
}
static void gone(int k, avl_elem_t *e)
{
    CK(md[k].in && (!md[k].e || e == md[k].e), "another element taken out for key %d", k);
    CK(avl_elem_get_key(e) == md[k].key && avl_elem_get_value(e) == md[k].value, "element taken out has changed");
    md[k].in = false; md[k].e = NULL;
    cnt--;
}
static void dump(avl_elem_t *e)
{
    if (!e) { note("."); return; }
    note("(%d ", *(int *) e->key); dump(e->left); dump(e->right); note(")");
}
static void step(avl_tree_t *t, int what, int k)
{
    avl_elem_t *e, *r;
    long base = blocks;
    if (histn > 3000) { histn = 0; note("tree "); dump(t->root); note(": "); }
    switch (what) {
    case 0: {
        const void *key = &keys[below(2)][k];
        intptr_t v = md[k].in && below(4) == 0 ? (intptr_t) md[k].value : 1 + below(3);
        note("put(%d,%d) ", k, (int) v);
        bool same = md[k].in && md[k].value == (void *) v;
        e = md[k].in ? md[k].e ? md[k].e : avl_tree_get(t, key) : NULL;
        r = avl_tree_put(t, key, (void *) v);
        if (same) CK(!r, "putting the very same value returns something");
        else if (md[k].in) {
            CK(r, "replaced element not handed back");
            CK(r == e && avl_elem_get_key(r) == md[k].key && avl_elem_get_value(r) == md[k].value, "another element handed back");
            md[k].e = NULL; md[k].key = key; md[k].value = (void *) v;
            if (MEM) CK(blocks == base + 1, "blocks: %ld more", blocks - base);
            destroy_avl_element(r);
        } else {
            CK(!r, "something handed back");
            md[k].in = true; md[k].e = NULL; md[k].key = key; md[k].value = (void *) v; cnt++;
            base++;
        }
        break;
    }
    case 1:
    case 2:
        if (!md[k].in) return;
        e = avl_tree_get(t, &keys[0][k]);
        CK(e, "key %d lost", k);
        note(what == 1 ? "detach(%d) " : "remove(%d) ", k);
        if (what == 1) { avl_tree_detach(t, e); gone(k, e); CK(!MEM || blocks == base, "detach frees"); destroy_avl_element(e); }
        else { md[k].in = false; md[k].e = NULL; cnt--; avl_tree_remove(t, e); }
        base--;
        break;
    case 3:
        note("pop(%d) ", k);
        e = avl_tree_pop(t, &keys[below(2)][k]);
        CK(!e == !md[k].in, "pop result");
        if (e) { gone(k, e); destroy_avl_element(e); base--; }
        break;
    default: {
        int j, w = -1;
        for (j = 0; j < nk; j++) if (md[KK(what == 4 ? j : nk - 1 - j)].in) { w = KK(what == 4 ? j : nk - 1 - j); break; }
        note(what == 4 ? "pop_first " : "pop_last ");
        e = what == 4 ? avl_tree_pop_first(t) : avl_tree_pop_last(t);
        CK(!e == (w < 0), "pop result");
        if (e) { CK(mid(e) == w, "popped key %d, expected %d", mid(e), w); gone(w, e); destroy_avl_element(e); base--; k = w; }
    }
    }
    if (MEM) CK(blocks == base, "%ld blocks, expected %ld", blocks, base);
    look(t, k);
}
static avl_tree_t *fresh(void)
{
    reset();
    cnt = 0;
    memset(md, 0, sizeof md);
    return below(2) ? make_avl_tree(cf) : make_avl_tree_2(cf2, keys);
}
static void finish(avl_tree_t *t)
{
    destroy_avl_tree(t);
    CK(!blocks, "%ld blocks left after destroying the tree", blocks);
}
static void copytest(avl_tree_t *t)
{
    int i;
    avl_tree_t *c = avl_tree_copy(t);
    note("copy ");
    avl_elem_t *old[K];
    for (i = 0; i < nk; i++) { old[i] = md[i].e = md[i].in ? avl_tree_get(t, &keys[0][i]) : NULL; }
    for (i = 0; i < nk; i++) if (md[i].in) {
        avl_elem_t *e = avl_tree_get(c, &keys[0][i]);
        CK(e, "key %d is not in the copy", i);
        CK(e != md[i].e, "the copy shares the element of key %d", i);
        md[i].e = NULL;
    }
    look(c, 0);
    for (i = 0; i < nk; i++) md[i].e = old[i];
    look(t, 0);
    /* change the copy: the original stays */
    struct { bool in; } was[K];
    int j;
    for (j = 0; j < 3; j++) {
        int k = below(nk);
        avl_elem_t *e = avl_tree_get(c, &keys[0][k]);
        if (e) avl_tree_remove(c, e); else avl_tree_put(c, &keys[0][k], "x");
    }
    note("changed the copy ");
    look(t, 0);
    if (below(2)) { avl_tree_t *x = c; destroy_avl_tree(x); look(t, 0); }
    else { /* go on with nothing but the original's death seen by the copy */ destroy_avl_tree(c); }
}
int main()
{
    int i, j, k, n;
    begin();
    fs_set_reallocator(counting_realloc);
    for (i = 0; i < K; i++) keys[0][i] = keys[1][i] = i;
    full = true;
    /* every insertion order of up to 7 keys, then every single removal */
    for (n = 0; n <= 7 && more(); n++) {
        int p[8], c[8] = { 0 }, done = 0;
        for (i = 0; i < n; i++) p[i] = i;
        nk = n ? n : 1;
        while (!done && more()) {
            for (k = -1; k < n; k++) {
                cmode = 0;
                avl_tree_t *t = fresh();
                full = false;
                for (i = 0; i < n; i++) step(t, 0, p[i]);
                full = true;
                look(t, 0);
                if (k >= 0) step(t, 1 + (k & 1), k);
                finish(t);
                if (n > 6 && k > 3) break;
            }
            /* next permutation */
            for (i = n - 2; i >= 0 && p[i] > p[i + 1]; i--) ;
            if (i < 0) break;
            for (j = n - 1; p[j] < p[i]; j--) ;
            k = p[i]; p[i] = p[j]; p[j] = k;
            for (i++, j = n - 1; i < j; i++, j--) { k = p[i]; p[i] = p[j]; p[j] = k; }
        }
    }
    while (more()) {
        cmode = below(3);
        nk = below(3) == 0 ? 8 : below(2) ? 40 : 1 + below(K);
        full = nk <= 64;
        avl_tree_t *t = fresh();
        note("(%d keys, comparator %d) ", nk, cmode);
        int phase, bias = below(6);
        for (phase = 0; phase < 4; phase++) {
            int pat = below(4), steps = nk * 2 + 5, del = phase & 1;
            for (i = 0; i < steps; i++) {
                k = pat == 0 ? i % nk : pat == 1 ? nk - 1 - i % nk : below(nk);
                if (below(5) ? !del : del) step(t, 0, k);
                else step(t, bias ? 1 + below(bias) : 3, k);
            }
            if (below(4) == 0) copytest(t);
        }
        full = true;
        look(t, 0);
        if (below(2)) while (cnt) step(t, 1 + below(5), below(nk));
        finish(t);
    }
    return 0;
}
