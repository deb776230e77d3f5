/* Simulated allocator: fails the allocations it is told to fail, fills fresh
   and freed memory with a NaN pattern, guards both ends of every block, keeps
   freed blocks in quarantine so that a second free or a write after free is
   seen. Nothing here calls abort(): faults are counted, and the harness reads
   the counters. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define GUARD 64
#define MAGIC_LIVE 0x51AC0FFEE51AC0FFULL
#define MAGIC_DEAD 0xDEADB10CDEADB10CULL
#define QMAX 4096

typedef struct hdr {
    uint64_t magic;
    size_t n;
    struct hdr *next, *prev;
    int pat;
    char guard[GUARD];
} hdr;

static hdr *live;
static hdr *quar[QMAX];
static int nquar;
/* counters */
static long n_alloc, n_free, n_live, n_failed, n_overflow, n_double, n_bad, n_uaf;
static long fail_from = -1, fail_count = 0;
static uint64_t size_limit = (uint64_t)1 << 34;

/* what fresh and freed memory holds (a double) and what surrounds a block */
static int pattern = 0;
static const uint64_t fills[4] = {
    0x7FF85A5A5A5A5A5AULL,   /* NaN */
    0, 0x3FF0000000000000ULL /* 1.0 */, 0x7E37E43C8800759CULL /* 1e300 */};
static const unsigned char guards[4] = {0xA5, 0x00, 0x3F, 0x7E};

static int guard_ok(hdr *h)
{
    unsigned char c = guards[h->pat];
    int i;
    unsigned char *tail = (unsigned char *)(h + 1) + h->n;
    for (i = 0; i < GUARD; ++i)
        if ((unsigned char)h->guard[i] != c || tail[i] != c)
            return 0;
    return 1;
}

static void fill(void *p, size_t n, int pat)
{
    size_t i;
    const unsigned char *c = (const unsigned char *)&fills[pat];
    for (i = 0; i < n; ++i)
        ((unsigned char *)p)[i] = c[i & 7];
}

static int filled(void *p, size_t n, int pat)
{
    size_t i;
    const unsigned char *c = (const unsigned char *)&fills[pat];
    for (i = 0; i < n; ++i)
        if (((unsigned char *)p)[i] != c[i & 7])
            return 0;
    return 1;
}

void *sim_malloc(size_t n)
{
    hdr *h;
    long k = n_alloc++;
    if ((fail_from >= 0 && k >= fail_from && k < fail_from + fail_count) || n > size_limit) {
        ++n_failed;
        return NULL;
    }
    h = malloc(sizeof(hdr) + n + GUARD);
    if (!h) { ++n_failed; return NULL; }
    h->magic = MAGIC_LIVE;
    h->n = n;
    h->pat = pattern;
    memset(h->guard, guards[pattern], GUARD);
    memset((char *)(h + 1) + n, guards[pattern], GUARD);
    fill(h + 1, n, pattern);
    h->prev = NULL;
    h->next = live;
    if (live) live->prev = h;
    live = h;
    ++n_live;
    return h + 1;
}

void *sim_calloc(size_t a, size_t b)
{
    void *p = sim_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}

void sim_free(void *p)
{
    hdr *h, *q;
    int i;
    if (!p) return;
    h = (hdr *)p - 1;
    for (i = 0; i < nquar; ++i)
        if (quar[i] == h) { ++n_double; return; }
    for (q = live; q && q != h; q = q->next)
        ;
    if (!q) { ++n_bad; return; }
    if (!guard_ok(h)) ++n_overflow;
    if (h->prev) h->prev->next = h->next; else live = h->next;
    if (h->next) h->next->prev = h->prev;
    h->magic = MAGIC_DEAD;
    fill(h + 1, h->n, h->pat);
    --n_live;
    ++n_free;
    if (nquar < QMAX) quar[nquar++] = h;
    else free(h);
}

void *sim_realloc(void *p, size_t n)
{
    hdr *h;
    void *q;
    if (!p) return sim_malloc(n);
    h = (hdr *)p - 1;
    q = sim_malloc(n);
    if (!q) return NULL;
    memcpy(q, p, h->n < n ? h->n : n);
    sim_free(p);
    return q;
}

/* control, called by the harness through ctypes */
void simctl_reset(void)
{
    int i;
    for (i = 0; i < nquar; ++i) free(quar[i]);
    nquar = 0;
    n_alloc = n_free = n_failed = n_overflow = n_double = n_bad = n_uaf = 0;
    fail_from = -1; fail_count = 0;
}
void simctl_pattern(long k) { pattern = (int)(k & 3); }
void simctl_fail(long from, long count) { fail_from = from < 0 ? -1 : n_alloc + from; fail_count = count; }
void simctl_scan(void)
{
    hdr *h;
    int i;
    for (h = live; h; h = h->next) if (!guard_ok(h)) ++n_overflow;
    for (i = 0; i < nquar; ++i) if (!filled(quar[i] + 1, quar[i]->n, quar[i]->pat) || !guard_ok(quar[i])) ++n_uaf;
}
void simctl_stats(long *out)
{
    out[0] = n_alloc; out[1] = n_free; out[2] = n_live; out[3] = n_failed;
    out[4] = n_overflow; out[5] = n_double; out[6] = n_bad; out[7] = n_uaf;
}
