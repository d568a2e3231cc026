#include "h.h"
#include "priority_queue.h"
/* values are numbers 1..; several share a rank, duplicates may be queued */
#define N 400
static int m[N], n;              /* multiset of queued values */
static void *loc[1 << 12];       /* last reported locator per value */
static bool in[1 << 12];
static bool distinct, two, null_reloc;
static int cmpmode;
static int rank_(const void *v) { intptr_t x = (intptr_t) v; return cmpmode == 0 ? x : cmpmode == 1 ? x / 3 : cmpmode == 2 ? 0 : -x % 5; }
static int cm(const void *a, const void *b) { int x = rank_(a), y = rank_(b); return x < y ? (cmpmode & 1 ? INT_MIN : -7) : x > y ? 5 : 0; }
static int cm2(const void *a, const void *b, void *o) { CK(o == m, "obj"); return cm(a, b); }
static void rl(const void *e, void *l) { loc[(intptr_t) e & 4095] = l; }
static void rl2(const void *e, void *l, void *o) { CK(o == m, "obj"); rl(e, l); }
static void gone(const void *v)
{
    int i;
    for (i = 0; i < n && m[i] != (intptr_t) v; i++)
        ;
    CK(i < n, "%d is not in the queue", (int) (intptr_t) v);
    m[i] = m[--n];
    in[(intptr_t) v & 4095] = false;
}
static void look(priorq_t *q)
{
    int i;
    CK(priorq_size(q) == n, "size %zu, expected %d", priorq_size(q), n);
    CK(priorq_empty(q) == (n == 0), "emptiness");
    const void *v = priorq_peek(q);
    if (n == 0) {
        CK(!v, "peek of an empty queue");
        return;
    }
    bool there = false;
    for (i = 0; i < n; i++) {
        there |= m[i] == (intptr_t) v;
        CK(rank_((void *) (intptr_t) m[i]) >= rank_(v), "peek gives %d although %d precedes it", (int) (intptr_t) v, m[i]);
    }
    CK(there, "peek gives %d which is not queued", (int) (intptr_t) v);
}
static void step(priorq_t *q, int what, intptr_t v)
{
    const void *r;
    int i;
    if (what < 3) {
        if (n == N || distinct && in[v])
            return;
        note("enqueue(%d) ", (int) v);
        m[n++] = v;
        in[v] = true;
        loc[v] = (void *) -1L;
        priorq_enqueue(q, (void *) v);
        if (!null_reloc)
            CK(loc[v] != (void *) -1L, "no locator reported for %d", (int) v);
    } else if (what == 3 && distinct && !null_reloc && n) {
        i = below(n);
        int w = m[i];
        note("remove(%d) ", w);
        r = priorq_remove(q, loc[w]);
        CK((intptr_t) r == w, "removing by the locator of %d returns %d", w, (int) (intptr_t) r);
        gone(r);
    } else {
        note(what == 4 ? "pop " : "dequeue ");
        const void *p = priorq_peek(q);
        r = what == 4 ? priorq_pop(q) : priorq_dequeue(q);
        CK(!r == (n == 0), "dequeue result");
        if (r) {
            for (i = 0; i < n && what != 4; i++)
                CK(rank_((void *) (intptr_t) m[i]) >= rank_(r), "dequeue gives %d although %d precedes it", (int) (intptr_t) r, m[i]);
            gone(r);
        }
    }
    look(q);
}
static priorq_t *fresh(void)
{
    reset();
    n = 0;
    memset(in, 0, sizeof in);
    cmpmode = below(4);
    distinct = below(3) != 0;
    two = below(2);
    null_reloc = below(8) == 0;
    note("cmp %d two %d: ", cmpmode, two);
    return two ? make_priority_queue_2(cm2, null_reloc ? NULL : rl2, m) : make_priority_queue(cm, null_reloc ? NULL : rl);
}
int main(void)
{
    begin();
    while (more()) {
        priorq_t *q = fresh();
        int range = 2 + below(below(3) ? 12 : 900), steps = below(300), bias = below(4), i;
        for (i = 0; i < steps; i++)
            step(q, bias && below(2) ? 0 : below(6), 1 + below(range));
        /* drain by locator in random order: every locator must still be right */
        if (distinct && !null_reloc && below(2))
            while (n)
                step(q, 3, 0);
        destroy_priority_queue(q);
    }
    return 0;
}
