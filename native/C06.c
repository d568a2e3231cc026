#include "h.h"
#include "hashtable.h"
#define K 12
/* a key is a pointer to one of two copies of a number, so equal keys are not identical */
static int keys[2][K];
static int hmode;
static uint64_t hfun(const void *k)
{
    uint64_t v = *(const int *) k;
    switch (hmode) {
    case 0: return v;
    case 1: return 7;
    case 2: return v % 3;
    case 3: return v * 53;
    case 4: return UINT64_MAX - v;
    case 5: return v * 0x123456789abcdefULL;
    default: return v % 2 ? UINT64_MAX : v << 40;
    }
}
static int cfun(const void *a, const void *b)
{
    int x = *(const int *) a, y = *(const int *) b;
    return x < y ? -3 : x > y ? 2 : 0;
}
static struct { bool in; hash_elem_t *e; const void *key, *value; } md[K];
static int cnt;
static void compare(hash_table_t *t)
{
    int i, j;
    CK(hash_table_size(t) == cnt, "size %zu, expected %d", hash_table_size(t), cnt);
    CK(!!hash_table_empty(t) == (cnt == 0), "emptiness");
    for (i = 0; i < K; i++)
        for (j = 0; j < 2; j++) {
            hash_elem_t *e = hash_table_get(t, &keys[j][i]);
            if (!md[i].in) {
                CK(!e, "absent key %d found", i);
                continue;
            }
            CK(e, "key %d lost", i);
            CK(!md[i].e || md[i].e == e, "key %d: another element", i);
            md[i].e = e;
            CK(hash_elem_get_key(e) == md[i].key, "key %d: stored key", i);
            CK(hash_elem_get_value(e) == md[i].value, "key %d: stored value", i);
        }
    hash_elem_t *e;
    int seen[K] = { 0 };
    for (i = 0, e = hash_table_get_any(t); e; e = hash_table_get_other(e), i++) {
        CK(i < cnt, "traversal visits too many elements");
        int k = *(const int *) hash_elem_get_key(e);
        CK(k >= 0 && k < K && md[k].in && md[k].e == e && !seen[k], "traversal: element of key %d", k);
        seen[k] = 1;
    }
    CK(i == cnt, "traversal visits %d of %d", i, cnt);
}
static void gone(int k, hash_elem_t *e)
{
    CK(md[k].in && (!md[k].e || e == md[k].e), "another element taken out for key %d", k);
    CK(hash_elem_get_key(e) == md[k].key && hash_elem_get_value(e) == md[k].value, "element taken out has changed");
    md[k].in = false; md[k].e = NULL;
    cnt--;
}
static void step(hash_table_t *t, int what, int k, int c, intptr_t v)
{
    hash_elem_t *e;
    k %= K;
    switch (what) {
    case 0: case 1: case 2:
        note("put(%d.%d,%d) ", k, c, (int) v);
        e = hash_table_put(t, &keys[c][k], (void *) v);
        if (!md[k].in) {
            CK(!e, "something handed back for a new key");
            md[k].in = true; md[k].e = NULL; md[k].key = &keys[c][k]; md[k].value = (void *) v;
            cnt++;
        } else if (md[k].value == (void *) v)
            CK(!e, "something handed back although nothing changes");
        else {
            CK(e, "replaced element not handed back");
            CK(e == md[k].e, "another element handed back");
            CK(hash_elem_get_key(e) == md[k].key && hash_elem_get_value(e) == md[k].value, "replaced element has changed");
            destroy_hash_element(e);
            md[k].e = NULL; md[k].key = &keys[c][k]; md[k].value = (void *) v;
        }
        break;
    case 3:
        if ((e = hash_table_get(t, &keys[c][k]))) {
            note("remove(%d) ", k);
            gone(k, e);
            hash_table_remove(t, e);
        }
        break;
    case 4:
        if ((e = hash_table_get(t, &keys[c][k]))) {
            note("detach(%d) ", k);
            hash_table_detach(t, e);
            gone(k, e);
            destroy_hash_element(e);
        }
        break;
    case 5:
        note("pop(%d) ", k);
        e = hash_table_pop(t, &keys[c][k]);
        CK(!e == !md[k].in, "pop result");
        if (e) {
            gone(k, e);
            destroy_hash_element(e);
        }
        break;
    case 6:
        note("pop_any ");
        e = hash_table_pop_any(t);
        CK(!e == (cnt == 0), "pop_any result");
        if (e) {
            int q = *(const int *) hash_elem_get_key(e);
            gone(q, e);
            destroy_hash_element(e);
        }
        break;
    }
    compare(t);
}
static hash_table_t *fresh(void)
{
    int i;
    reset(); cnt = 0;
    memset(md, 0, sizeof md);
    hmode = below(7);
    size_t cap = below(4) == 0 ? below(300) : below(2);
    note("hash mode %d capacity %zu: ", hmode, cap);
    hash_table_t *t = make_hash_table(cap, hfun, cfun);
    compare(t);
    return t;
}
int main(void)
{
    begin();
    int i, a;
    for (i = 0; i < K; i++)
        keys[0][i] = keys[1][i] = i;
    for (a = 0; a < 30000 && more(); a++) {
        hash_table_t *t = fresh();
        int b = a, c;
        for (c = 0; c < 5; c++, b /= 7)
            step(t, b % 7, below(3), below(2), 1 + below(2));
        destroy_hash_table(t);
    }
    while (more()) {
        hash_table_t *t = fresh();
        int steps = below(120), bias = below(3), kk = 1 + below(K);
        while (steps--)
            step(t, bias && below(2) ? 0 : below(7), below(kk), below(2), below(4));
        destroy_hash_table(t);
    }
    return 0;
}
