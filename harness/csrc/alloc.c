/* counting allocator with canaries on both sides of every block */
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#undef malloc
#undef calloc
#undef realloc
#undef free
#define PAD 64
static atomic_long live = 0, bad = 0;
typedef struct { size_t n; unsigned char pad[PAD - sizeof(size_t)]; } head;

void *vp_malloc(size_t n) {
    unsigned char *p = malloc(n + 2 * PAD);
    if (!p) return 0;
    memset(p, 0xA5, PAD);
    ((head *)p)->n = n;
    memset(p + PAD, 0xFF, n);          /* doubles read as NaN */
    memset(p + PAD + n, 0xA5, PAD);
    atomic_fetch_add(&live, 1);
    return p + PAD;
}
void vp_free(void *q) {
    unsigned char *p;
    size_t i, n;
    int hurt = 0;
    if (!q) return;
    p = (unsigned char *)q - PAD;
    n = ((head *)p)->n;
    for (i = sizeof(size_t); i < PAD; i++) hurt |= p[i] != 0xA5;
    for (i = 0; i < PAD && !hurt; i++) hurt |= p[PAD + n + i] != 0xA5;
    if (hurt) { atomic_fetch_add(&bad, 1); atomic_fetch_sub(&live, 1); return; }
    atomic_fetch_sub(&live, 1);
    free(p);
}
void *vp_calloc(size_t a, size_t b) { void *p = vp_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *vp_realloc(void *q, size_t n) {
    void *p = vp_malloc(n);
    if (p && q) { size_t m = ((head *)((char *)q - PAD))->n; memcpy(p, q, m < n ? m : n); vp_free(q); }
    return p;
}
long vp_live(void) { return atomic_load(&live); }
long vp_bad(void) { return atomic_load(&bad); }
