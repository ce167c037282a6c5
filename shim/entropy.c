/* Preloaded into the example programs: the kernel's entropy becomes a function
 * of ENTROPY_SEED, so that a game can be played again. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/types.h>

static uint64_t state;
static int ready;

static void fill(unsigned char *p, size_t n) {
    if (!__atomic_load_n(&ready, __ATOMIC_ACQUIRE)) {
        const char *s = getenv("ENTROPY_SEED");
        state = s ? strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull + 1 : 1;
        __atomic_store_n(&ready, 1, __ATOMIC_RELEASE);
    }
    for (size_t i = 0; i < n; i++) {
        uint64_t z = __atomic_add_fetch(&state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        p[i] = (unsigned char)((z ^ (z >> 31)) >> 24);
    }
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    (void)flags;
    fill(p, n);
    return (ssize_t)n;
}
int getentropy(void *p, size_t n) {
    fill(p, n);
    return 0;
}
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_getrandom) {
        fill((unsigned char *)a, (size_t)b);
        return b;
    }
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
