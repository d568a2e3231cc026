/* memory only: histories on every container below a counting reallocator and
   the address sanitizer; results are used, not judged */
#include "h.h"
#include "list.h"
#include "avltree.h"
#include "hashtable.h"
#include "priority_queue.h"
#include "intset.h"
#include "bytearray.h"
#define N 64
/* keys and values live in blocks of their own: freeing one is noticed */
typedef struct { int v; void *loc; int in; } item_t;
static item_t *it[N];
static long sum;
static void items(void)
{
    int i;
    for (i = 0; i < N; i++) { if (!it[i]) it[i] = malloc(sizeof **it); it[i]->v = i; it[i]->loc = NULL; it[i]->in = 0; }
}
static void touch(const void *p) { if (p) sum += ((const item_t *) p)->v; }
static void items_alive(void) { int i; for (i = 0; i < N; i++) touch(it[i]); }
static int cmp(const void *a, const void *b) { return ((const item_t *) a)->v - ((const item_t *) b)->v; }
static int cmp2(const void *a, const void *b, void *o) { return cmp(a, b); }
static void reloc(const void *e, void *loc) { ((item_t *) e)->loc = loc; }
static void reloc2(const void *e, void *loc, void *o) { ((item_t *) e)->loc = loc; }
static int hm;
static uint64_t hash(const void *k) { uint64_t v = ((const item_t *) k)->v; return hm == 0 ? v : hm == 1 ? v % 3 : hm == 2 ? 5 : v * 0x9e3779b97f4a7c15ULL; }
static void each(const void *v, void *arg) { touch(v); }

static void lists(void)
{
    list_t *l = make_list(), *c;
    list_elem_t *h[200], *e;
    int n = 0, i, k, steps = below(80);
    note("list: ");
    for (i = 0; i < steps; i++) {
        void *v = it[below(N)];
        switch (below(11)) {
        case 0: case 1: note("append "); h[n++] = list_append(l, v); break;
        case 2: note("prepend "); h[n++] = list_prepend(l, v); break;
        case 3:
            if (!n) break;
            k = below(n);
            note("insert_before(%d) ", k);
            h[n] = list_insert_before(l, v, h[k]);
            n++;
            break;
        case 4: case 5:
            if (!n) break;
            k = below(3) ? below(n) : below(2) ? 0 : n - 1;
            note("remove(%d) ", k);
            list_remove(l, h[k]);
            h[k] = h[--n];
            break;
        case 6: case 7: {
            bool first = below(2);
            e = first ? list_get_first(l) : list_get_last(l);
            note(first ? "pop_first " : "pop_last ");
            if (!n) break;
            for (k = 0; k < n && h[k] != e; k++) ;
            if (k == n) goto out;
            touch(first ? list_pop_first(l) : list_pop_last(l));
            h[k] = h[--n];
            break;
        }
        case 8:
            note("copy ");
            c = list_copy(l);
            for (e = list_get_first(c), k = 0; e && k <= n; e = list_next(e), k++) touch(list_elem_get_value(e));
            if (below(2)) list_append(c, v);
            if (below(2) && !list_empty(c)) list_pop_first(c);
            destroy_list(c);
            break;
        case 9:
            note("walk ");
            for (e = list_get_last(l), k = 0; e && k <= n; e = list_previous(e), k++) touch(list_elem_get_value(e));
            list_foreach(l, each, NULL);
            list_size(l);
            break;
        default:
            list_get(l, v);
            list_get_by_index(l, (int) below(n + 4) - 2);
        }
        if (n > 150) break;
    }
out:
    note("destroy ");
    destroy_list(l);
    CK(!blocks, "%ld blocks left after destroying the list", blocks);
}

static void avls(void)
{
    avl_tree_t *t = below(2) ? make_avl_tree(cmp) : make_avl_tree_2(cmp2, it), *c;
    avl_elem_t *e, *f;
    int i, k, nk = 1 + below(N), steps = below(200);
    note("avl tree: ");
    for (i = 0; i < steps; i++) {
        item_t *key = it[below(nk)];
        switch (below(9)) {
        case 0: case 1: case 2:
            k = below(3);
            note("put(%d,%d) ", key->v, k);
            e = avl_tree_put(t, key, it[k]);
            if (e) { touch(avl_elem_get_key(e)); touch(avl_elem_get_value(e)); destroy_avl_element(e); }
            break;
        case 3: case 4:
            e = avl_tree_get(t, key);
            if (!e) break;
            if (below(2)) { note("remove(%d) ", key->v); avl_tree_remove(t, e); }
            else { note("detach(%d) ", key->v); avl_tree_detach(t, e); touch(avl_elem_get_key(e)); destroy_avl_element(e); }
            break;
        case 5:
            k = below(3);
            note(k == 0 ? "pop(%d) " : k == 1 ? "pop_first " : "pop_last ", key->v);
            e = k == 0 ? avl_tree_pop(t, key) : k == 1 ? avl_tree_pop_first(t) : avl_tree_pop_last(t);
            if (e) { touch(avl_elem_get_value(e)); destroy_avl_element(e); }
            break;
        case 6:
            if (below(4)) break;
            note("copy ");
            c = avl_tree_copy(t);
            e = avl_tree_get(c, key);
            if (e && below(2)) avl_tree_remove(c, e);
            else { e = avl_tree_put(c, key, it[0]); if (e) destroy_avl_element(e); }
            destroy_avl_tree(c);
            break;
        default:
            note("look(%d) ", key->v);
            for (e = avl_tree_get_first(t), k = 0; e && k < nk; e = avl_tree_next(e), k++) touch(avl_elem_get_key(e));
            for (e = avl_tree_get_last(t), k = 0; e && k < nk; e = avl_tree_previous(e), k++) touch(avl_elem_get_key(e));
            f = avl_tree_get_before(t, key); if (f) touch(avl_elem_get_key(f));
            f = avl_tree_get_on_or_before(t, key); if (f) touch(avl_elem_get_key(f));
            f = avl_tree_get_after(t, key); if (f) touch(avl_elem_get_key(f));
            f = avl_tree_get_on_or_after(t, key); if (f) touch(avl_elem_get_key(f));
            avl_tree_empty(t); avl_tree_size(t);
        }
    }
    note("destroy ");
    destroy_avl_tree(t);
    CK(!blocks, "%ld blocks left after destroying the tree", blocks);
}

static void hashes(void)
{
    hash_table_t *t = make_hash_table(1 + below(below(2) ? 4 : 40), hash, cmp);
    hash_elem_t *e;
    int i, k, nk = 1 + below(N), steps = below(120);
    hm = below(4);
    note("hash table (hash %d): ", hm);
    for (i = 0; i < steps; i++) {
        item_t *key = it[below(nk)];
        switch (below(8)) {
        case 0: case 1: case 2:
            k = below(3);
            note("put(%d,%d) ", key->v, k);
            e = hash_table_put(t, key, it[k]);
            if (e) { touch(hash_elem_get_key(e)); touch(hash_elem_get_value(e)); destroy_hash_element(e); }
            break;
        case 3: case 4:
            e = hash_table_get(t, key);
            if (!e) break;
            if (below(2)) { note("remove(%d) ", key->v); hash_table_remove(t, e); }
            else { note("detach(%d) ", key->v); hash_table_detach(t, e); touch(hash_elem_get_key(e)); destroy_hash_element(e); }
            break;
        case 5:
            note("pop(%d) ", key->v);
            e = below(2) ? hash_table_pop(t, key) : hash_table_pop_any(t);
            if (e) { touch(hash_elem_get_value(e)); destroy_hash_element(e); }
            break;
        default:
            note("walk ");
            for (e = hash_table_get_any(t), k = 0; e && k < nk; e = hash_table_get_other(e), k++) touch(hash_elem_get_key(e));
            hash_table_empty(t); hash_table_size(t);
        }
    }
    note("destroy ");
    destroy_hash_table(t);
    CK(!blocks, "%ld blocks left after destroying the hash table", blocks);
}

static void queues(void)
{
    priorq_t *q = below(2) ? make_priority_queue(cmp, reloc) : make_priority_queue_2(cmp2, reloc2, it);
    int i, k, n = 0, steps = below(100);
    const void *p;
    items();
    note("priority queue: ");
    for (i = 0; i < steps; i++)
        switch (below(6)) {
        case 0: case 1: case 2:
            k = below(N);
            if (it[k]->in) break;
            note("enqueue(%d) ", k);
            it[k]->in = 1;
            priorq_enqueue(q, it[k]); n++;
            break;
        case 3:
            if (!n) break;
            note("dequeue ");
            p = below(2) ? priorq_dequeue(q) : priorq_pop(q); n--;
            if (!p) goto out;
            ((item_t *) p)->in = 0;
            break;
        case 4:
            k = below(N);
            if (!it[k]->in || !it[k]->loc) break;
            note("remove(%d) ", k);
            p = priorq_remove(q, it[k]->loc); n--;
            if (!p) goto out;
            ((item_t *) p)->in = 0;
            break;
        default:
            note("peek ");
            priorq_size(q); priorq_empty(q);
            touch(priorq_peek(q));
        }
out:
    note("destroy ");
    destroy_priority_queue(q);
    CK(!blocks, "%ld blocks left after destroying the queue", blocks);
}

static void sets(void)
{
    size_t n = below(200);
    intset_t *s = make_intset(n);
    int i;
    note("intset(%zu): ", n);
    for (i = 0; i < 40; i++) {
        unsigned e = n ? below(n) : 0;
        switch (below(6)) {
        case 0: case 1: if (n) { note("add(%u) ", e); intset_add(s, e); } break;
        case 2: if (n) { note("remove(%u) ", e); intset_remove(s, e); } break;
        case 3: if (n) { note("has(%u) ", e); sum += intset_has(s, e); } break;
        case 4: note("fill "); if (below(5) == 0) intset_fill(s); break;
        default: e = below(n + 1); note("find(%u) ", e); sum += intset_find_next_hit(s, e) + intset_find_next_miss(s, e);
        }
    }
    note("destroy ");
    destroy_intset(s);
    CK(!blocks, "%ld blocks left after destroying the set", blocks);
}

static ssize_t give;
static ssize_t rd(void *o, void *buf, size_t count)
{
    if (give < 0) { errno = EIO; return -1; }
    size_t n = give < (ssize_t) count ? give : count;
    memset(buf, 7, n);
    return n;
}
static void arrays(void)
{
    size_t mx = 1 + below(below(2) ? 20 : 5000), n, pos;
    byte_array_t *a = make_byte_array(mx);
    int i, refs = 1;
    static char buf[6000];
    note("byte array(%zu): ", mx);
    memset(buf, 'x', sizeof buf);
    for (i = 0; i < 40 && refs; i++) {
        n = below(3) ? below(mx + 2) : mx - below(2);
        pos = below(byte_array_size(a) + 2);
        switch (below(11)) {
        case 0: note("append(%zu) ", n); byte_array_append(a, buf, n); break;
        case 1: note("copy(%zu,%zu) ", pos, n); byte_array_copy(a, pos, buf, n); break;
        case 2: note("append_string(%zu) ", n); buf[n] = 0; byte_array_append_string(a, buf); buf[n] = 'x'; break;
        case 3: note("copy_string(%zu,%zu) ", pos, n); buf[n] = 0; byte_array_copy_string(a, pos, buf); buf[n] = 'x'; break;
        case 4: give = below(4) ? below(mx) : -1; note("append_stream(%zu,%zd) ", n, give); byte_array_append_stream(a, rd, &give, n); break;
        case 5: note("clear "); byte_array_clear(a); break;
        case 6: note("resize(%zu) ", n); byte_array_resize(a, n, 'r'); break;
        case 7: if (refs < 5) { note("share "); a = share_byte_array(a); refs++; } break;
        case 8:
            if (below(3)) break;
            note("drop ");
            destroy_byte_array(a);
            refs--;
            CK(!refs || blocks, "freed before the last owner destroyed it");
            break;
        default: {
            const char *p = byte_array_data(a);
            size_t k;
            for (k = 0; k <= byte_array_size(a); k++) sum += p[k];
        }
        }
    }
    note("destroy ");
    while (refs--) destroy_byte_array(a);
    CK(!blocks, "%ld blocks left after the last owner destroyed the array", blocks);
}

int main()
{
    int i;
    begin();
    fs_set_reallocator(counting_realloc);
    while (more()) {
        for (i = 0; i < 50; i++) {
            void (*f[])(void) = { lists, avls, hashes, queues, sets, arrays };
            reset();
            items();
            blocks = 0;
            f[below(6)]();
            items_alive();
        }
    }
    return 0;
}
