// ABI probes linked into compiled Clara programs. Each probe checks the stack alignment and the direction flag at entry,
// records its arguments, and overwrites every register a C function may change before it returns.
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

#define STR(x) #x
#define PROBE(name) \
    __asm__(".text\n.globl " STR(name) "\n" STR(name) ":\n" \
        "  mov %rsp, %rax\n  and $15, %rax\n  cmp $8, %rax\n  jne monMisaligned\n" \
        "  pushfq\n  pop %rax\n  test $0x400, %eax\n  jne monDirection\n" \
        "  sub $8, %rsp\n  call " STR(name) "_impl\n  add $8, %rsp\n  jmp monTrash\n")

__asm__(".text\nmonTrash:\n"
    "  mov $0x5a5a5a5a5a5a5a5b, %rcx\n  mov %rcx, %rdx\n  mov %rcx, %rsi\n  mov %rcx, %rdi\n  mov %rcx, %r8\n  mov %rcx, %r9\n  mov %rcx, %r10\n  mov %rcx, %r11\n"
    "  pcmpeqd %xmm0, %xmm0\n  pcmpeqd %xmm1, %xmm1\n  pcmpeqd %xmm2, %xmm2\n  pcmpeqd %xmm7, %xmm7\n  pcmpeqd %xmm15, %xmm15\n"
    "  cmp %rcx, %rdx\n  stc\n"
    // the red zone and everything below the stack pointer belong to the callee
    "  mov %rcx, -8(%rsp)\n  mov %rcx, -16(%rsp)\n  mov %rcx, -24(%rsp)\n  mov %rcx, -32(%rsp)\n  mov %rcx, -64(%rsp)\n  mov %rcx, -128(%rsp)\n"
    "  ret\n"
    "monMisaligned:\n  and $-16, %rsp\n  call monBadAlign\n"
    "monDirection:\n  cld\n  and $-16, %rsp\n  call monBadDirection\n");

static void fail(const char *s)
{
    fflush(stdout);
    if (write(2, s, strlen(s))) {}
    _exit(79);
}

static long ncalls;
extern long monVar;
void monBadAlign(void) { fail("\nMON ABI stack is not aligned at a call\n"); }
void monBadDirection(void) { fail("\nMON ABI direction flag is set at a call\n"); }
void monBadAl(void) { fail("\nMON ABI al is not the number of vector registers at a variadic call\n"); }
static void report(void) { char b[100]; snprintf(b, sizeof b, "\nABI END calls=%ld variadic=%ld\n", ncalls, monVar); if (write(2, b, strlen(b))) {} }
__attribute__((constructor)) static void start(void) { atexit(report); }

// Trace functions of generated programs
PROBE(tr);
long tr_impl(long i, long v) { ncalls++; printf("t %ld %ld\n", i, v); return v; }
PROBE(wi);
long wi_impl(long i, long n) { ncalls++; long r = i % n; return r < 0 ? r + n : r; }
PROBE(trbx);
void trbx_impl(long i, long v) { ncalls++; printf("b %ld %s\n", i, v == 1 ? "true" : v == 0 ? "false" : "?"); }
PROBE(trsx);
void trsx_impl(long i, const char *s) { ncalls++; printf("s %ld %s\n", i, s); }

// Integers
PROBE(p0); long p0_impl(void) { ncalls++; printf("p0\n"); return 42; }
PROBE(p1); long p1_impl(long a) { ncalls++; printf("p1 %ld\n", a); return a; }
PROBE(p2); long p2_impl(long a, long b) { ncalls++; printf("p2 %ld %ld\n", a, b); return b; }
PROBE(p3); long p3_impl(long a, long b, long c) { ncalls++; printf("p3 %ld %ld %ld\n", a, b, c); return c; }
PROBE(p4); long p4_impl(long a, long b, long c, long d) { ncalls++; printf("p4 %ld %ld %ld %ld\n", a, b, c, d); return a; }
PROBE(p5); long p5_impl(long a, long b, long c, long d, long e) { ncalls++; printf("p5 %ld %ld %ld %ld %ld\n", a, b, c, d, e); return e; }
PROBE(p6); long p6_impl(long a, long b, long c, long d, long e, long f) { ncalls++; printf("p6 %ld %ld %ld %ld %ld %ld\n", a, b, c, d, e, f); return f; }

// Other values
static void hex(const unsigned char *s, long n) { printf(" "); for (long i = 0; i < n; i++) printf("%02x", s[i]); if (!n) printf("-"); }
PROBE(ps); void ps_impl(const char *s) { ncalls++; printf("ps"); hex((void *) s, strlen(s)); printf("\n"); }
PROBE(psi); long psi_impl(const char *s, long i, const char *t) { ncalls++; printf("psi"); hex((void *) s, strlen(s)); printf(" %ld", i); hex((void *) t, strlen(t)); printf("\n"); return strlen(s) + strlen(t); }
PROBE(pb); void pb_impl(const char *b, long n) { ncalls++; printf("pb"); hex((void *) b, n); printf("\n"); }
PROBE(pfill); void pfill_impl(char *b, long n, long v) { ncalls++; printf("pfill %ld %ld\n", n, v); memset(b, v, n); }
PROBE(pswap); void pswap_impl(long *a, long i, long j) { ncalls++; printf("pswap %ld %ld\n", i, j); long t = a[i]; a[i] = a[j]; a[j] = t; }
PROBE(pmix); long pmix_impl(long a, const char *s, long *x, const char *b, long c, const char *t)
{
    ncalls++;
    printf("pmix %ld", a); hex((void *) s, strlen(s)); hex((void *) b, 3); printf(" %ld", c); hex((void *) t, strlen(t)); printf("\n");
    long u = x[0]; x[0] = x[1]; x[1] = u;
    return a - c;
}

// Values which are passed and returned without conversion
PROBE(same); long same_impl(long a) { ncalls++; return a; }
PROBE(second); long second_impl(long a, long b) { ncalls++; return b; }
PROBE(rsame); long rsame_impl(long a) { ncalls++; return a; }
PROBE(rsecond); long rsecond_impl(long a, long b) { ncalls++; return b; }
PROBE(rsixth); long rsixth_impl(long a, long b, long c, long d, long e, long f) { ncalls++; return f; }
PROBE(sixth); long sixth_impl(long a, long b, long c, long d, long e, long f) { ncalls++; return f; }

PROBE(pw); void pw_impl(long a, const char *s, long b) { ncalls++; printf("pw %ld %ld", a, b); hex((void *) (s + 8), *(long *) s >> 1); printf("\n"); }

// Results
static long results[] = { 0, 1, -1, 4611686018427387903L, -4611686018427387904L, 2147483647L, 2147483648L, -2147483648L, 4294967295L, 4294967296L, -4294967296L, 1L << 61, 255, 256, 65536 };
PROBE(pres); long pres_impl(long i) { ncalls++; return results[i]; }

// Variadic calls of the program itself
__asm__(".text\n.globl __wrap_printf\n__wrap_printf:\n"
    "  cmp $8, %al\n  ja monBadAlJ\n"
    "  mov %rsp, %r11\n  and $15, %r11\n  cmp $8, %r11\n  jne monMisaligned\n"
    "  incq monVar(%rip)\n  jmp __real_printf\n"
    "monBadAlJ:\n  and $-16, %rsp\n  call monBadAl\n"
    ".data\n.globl monVar\nmonVar: .quad 0\n.text\n");

// Time of day
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    const char *s = getenv("MON_TIME");
    long a = 0, b = 0;
    if (s) sscanf(s, "%ld.%ld", &a, &b);
    tv->tv_sec = a; tv->tv_usec = b;
    if (tz) { printf("timezone is not null\n"); }
    return 0;
}
