// Heap monitor linked into compiled Clara programs (link flags: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free).
//
// Every object lives on its own pages, ends at a page which cannot be accessed and is made inaccessible for ever when it is
// freed: reads and writes of freed objects, accesses behind an object, double and invalid frees are reported at once.
// Writes into the slack around an object are found when it is freed and at exit.
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#define PAGE 4096UL
#define ARENA (1UL << 38) // address space only
#define MAXOBJ (1 << 22)
#define FAULT_STATUS 77

typedef struct {
    uintptr_t start;  // first accessible page
    uintptr_t ptr;    // user pointer
    uint64_t size;
    uint32_t state;   // 1 live, 2 freed
    int32_t id;       // registered id or -1
    uint64_t born, died;
} obj;

static char *arena, *next;
static obj *objs;
static uint32_t nobj;
static uint32_t *pageobj; // page of arena -> object + 1
static uint64_t nalloc, nfree, nlive, maxlive, bytes;
static int ready;
static int32_t ids[1 << 16]; // id -> object + 1

static void out(const char *s) { size_t n = strlen(s); while (n) { ssize_t k = write(2, s, n); if (k <= 0) break; s += k; n -= k; } }

static void die(const char *what, uintptr_t addr, obj *o)
{
    char b[400];
    if (o) {
        snprintf(b, sizeof b, "\nMON FAULT %s addr=obj#%ld%+ld size=%lu born=%lu died=%lu now=%lu\n", what, (long) (o - objs), (long) (addr - o->ptr),
            o->size, o->born, o->died, nalloc);
    } else {
        snprintf(b, sizeof b, "\nMON FAULT %s addr=0x%lx\n", what, addr);
    }
    fflush(stdout);
    out(b);
    _exit(FAULT_STATUS);
}

static obj *find(uintptr_t a)
{
    if (a < (uintptr_t) arena || a >= (uintptr_t) arena + ARENA) return 0;
    uint64_t p = (a - (uintptr_t) arena) / PAGE;
    if (pageobj[p]) return &objs[pageobj[p] - 1];
    return p > 0 && pageobj[p - 1] ? &objs[pageobj[p - 1] - 1] : 0;
}

static void onsegv(int sig, siginfo_t *si, void *uc)
{
    uintptr_t a = (uintptr_t) si->si_addr;
    obj *o = find(a);
    if (!o) {
        if (a >= (uintptr_t) arena && a < (uintptr_t) arena + ARENA) die("wild-heap-access", a, 0);
        die(sig == SIGSEGV ? "segmentation-fault" : sig == SIGBUS ? "bus-error" : "illegal-instruction", a, 0);
    }
    die(o->state == 2 ? "use-after-free" : "out-of-bounds-access", a, o);
}

static void report(void);

static void init(void)
{
    if (ready) return;
    ready = 1;
    arena = mmap(0, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    objs = mmap(0, sizeof(obj) * MAXOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pageobj = mmap(0, ARENA / PAGE * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || objs == MAP_FAILED || pageobj == MAP_FAILED) { out("MON INCONCLUSIVE no address space\n"); _exit(78); }
    next = arena + PAGE;
    static char alt[65536];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onsegv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    atexit(report);
}

static void *alloc(size_t size)
{
    int e = errno;
    init();
    if (size == 0) size = 1;
    if (size > (1UL << 33)) { errno = ENOMEM; return 0; }
    if (nobj >= MAXOBJ || nlive > 30000 || next + size + 3 * PAGE > arena + ARENA) { out("MON INCONCLUSIVE too many objects\n"); _exit(78); }
    size_t room = (size + 7) & ~7UL;
    size_t pages = (room + PAGE - 1) / PAGE;
    char *start = next;
    next += (pages + 1) * PAGE;
    if (mprotect(start, pages * PAGE, PROT_READ | PROT_WRITE)) { out("MON INCONCLUSIVE mprotect\n"); _exit(78); }
    char *p = start + pages * PAGE - room;
    memset(start, 0x5A, p - start);
    memset(p + size, 0xA5, room - size);
    obj *o = &objs[nobj++];
    o->start = (uintptr_t) start; o->ptr = (uintptr_t) p; o->size = size; o->state = 1; o->id = -1; o->born = ++nalloc;
    for (size_t i = 0; i < pages; i++) pageobj[(start - arena) / PAGE + i] = nobj;
    nlive++; bytes += size;
    if (nlive > maxlive) maxlive = nlive;
    errno = e;
    return p;
}

static void slack(obj *o)
{
    unsigned char *p = (unsigned char *) o->start;
    for (; p < (unsigned char *) o->ptr; p++) if (*p != 0x5A) die("write-before-object", (uintptr_t) p, o);
    size_t room = (o->size + 7) & ~7UL;
    for (p = (unsigned char *) o->ptr + o->size; p < (unsigned char *) o->ptr + room; p++) if (*p != 0xA5) die("write-behind-object", (uintptr_t) p, o);
}

void *__wrap_malloc(size_t n) { void *p = alloc(n); if (p) memset(p, 0xCD, n); return p; }
void *__wrap_calloc(size_t n, size_t m) { if (m && n > SIZE_MAX / m) { errno = ENOMEM; return 0; } return alloc(n * m); }

void __wrap_free(void *q)
{
    int e = errno;
    if (!q) return;
    obj *o = find((uintptr_t) q);
    if (!o) die("invalid-free", (uintptr_t) q, 0);
    if (o->state == 2) die("double-free", (uintptr_t) q, o);
    if (o->ptr != (uintptr_t) q) die("free-inside-object", (uintptr_t) q, o);
    slack(o);
    o->state = 2; o->died = nalloc;
    size_t pages = (((o->size + 7) & ~7UL) + PAGE - 1) / PAGE;
    madvise((void *) o->start, pages * PAGE, MADV_DONTNEED);
    mprotect((void *) o->start, pages * PAGE, PROT_NONE);
    nfree++; nlive--; bytes -= o->size;
    errno = e;
}

void *__wrap_realloc(void *q, size_t n)
{
    void *p = __wrap_malloc(n);
    if (q && p) {
        obj *o = find((uintptr_t) q);
        if (!o || o->state == 2 || o->ptr != (uintptr_t) q) die("invalid-realloc", (uintptr_t) q, o);
        memcpy(p, q, o->size < n ? o->size : n);
        __wrap_free(q);
    }
    return p;
}

static void report(void)
{
    for (uint32_t i = 0; i < nobj; i++) if (objs[i].state == 1) slack(&objs[i]);
    char b[200];
    snprintf(b, sizeof b, "\nMON END allocs=%lu frees=%lu live=%lu maxlive=%lu\n", nalloc, nfree, nlive, maxlive);
    out(b);
}

// ---------------------------------------------------------------------------------------------------------------------
// Probes which programs can call (all with raw integers)

__attribute__((constructor)) static void start(void) { init(); }

long monLive(void) { return nlive; }
long monBytes(void) { return bytes; }
long monAllocs(void) { return nalloc; }

// Registers an object (user pointer of a Clara value, 16 byte header in front) under an id
void monObj(void *p, long id)
{
    obj *o = find((uintptr_t) p - 16);
    if (!o || o->state != 1 || id < 0 || id >= (1 << 16)) { out("MON INCONCLUSIVE object not on the monitored heap\n"); _exit(78); }
    o->id = id;
    ids[id] = o - objs + 1;
}

// 1 if the object registered under the id has been freed
long monFreed(long id) { return id >= 0 && id < (1 << 16) && ids[id] && objs[ids[id] - 1].state == 2; }
