#include "h.h"
#include "intset.h"
#define MAX 400
static void round_(size_t size)
{
    bool mem[MAX] = { 0 };
    int n = 0, i, j, ops = 1 + below(20);
    reset();
    note("make(%zu) ", size);
    intset_t *s = make_intset(size);
    for (j = 0; j <= ops; j++) {
        if (j) {
            unsigned e = below(6) == 0 ? size + below(70) : below(8) == 0 ? rnd() : size ? below(3) ? below(size) : size - 1 - below(size < 3 ? size : 3) : 0;
            switch (below(below(10) ? 2 : 3)) {
                case 0:
                    note("add(%u) ", e);
                    intset_add(s, e);
                    if (e < size) mem[e] = true;
                    break;
                case 1:
                    note("remove(%u) ", e);
                    intset_remove(s, e);
                    if (e < size) mem[e] = false;
                    break;
                default:
                    note("fill ");
                    intset_fill(s);
                    for (i = 0; i < (int) size; i++) mem[i] = true;
            }
        }
        for (i = 0; i < (int) size + 70; i++)
            CK(intset_has(s, i) == (i < (int) size && mem[i]), "has(%d)", i);
        CK(!intset_has(s, -1), "has(UINT_MAX)");
        int hit = -1, miss = -1;
        CK(intset_find_next_hit(s, -1) == -1 && intset_find_next_miss(s, INT_MAX) == -1, "search from far beyond");
        for (i = size + 69; i >= 0; i--) {
            if (i < (int) size) { if (mem[i]) hit = i; else miss = i; }
            CK(intset_find_next_hit(s, i) == hit, "next hit from %d: %d, expected %d", i, intset_find_next_hit(s, i), hit);
            CK(intset_find_next_miss(s, i) == miss, "next miss from %d: %d, expected %d", i, intset_find_next_miss(s, i), miss);
        }
        CK(intset_empty(s) == (hit < 0), "empty");
    }
    (void) n;
    destroy_intset(s);
}
int main(void)
{
    begin();
    size_t size;
    int i;
    while (more())
        for (size = 0; size <= 200; size++) {
            more();
            for (i = 0; i < 3; i++) round_(size);
        }
    return 0;
}
