/* The ARM code of the library, compiled to LLVM's intermediate form, runs here on the host's processor.
   This is the program around it, without a C library: options in, one JSON line out, memory, and the NEON
   instructions that have no generic form. Each of those is written from its definition in the Arm manual,
   lane by lane. */
#include <stddef.h>
#include <stdint.h>

unsigned char *buf(size_t n);
void run(void);
const char *out(void);
size_t out_len(void);

/* calls of emulated instructions */
static unsigned long neon_calls;

#ifdef __x86_64__
__asm__(".globl _start\n_start: mov %rsp, %rdi\n and $-16, %rsp\n call entry\n");
static long sys(long n, long a, long b, long c) {
    register long r10 __asm__("r10") = 0x22, r8 __asm__("r8") = -1, r9 __asm__("r9") = 0;
    __asm__ volatile("syscall" : "+a"(n) : "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return n;
}
enum { WRITE = 1, MMAP = 9, EXIT = 60 };
static size_t map(size_t len) { return sys(MMAP, 0, len, 3); }
#else
__asm__(".globl _start\n_start: mov %esp, %eax\n and $-16, %esp\n sub $12, %esp\n push %eax\n call entry\n");
static long sys(long n, long a, long b, long c) {
    __asm__ volatile("int $0x80" : "+a"(n) : "b"(a), "c"(b), "d"(c) : "memory");
    return n;
}
enum { WRITE = 4, MMAP = 90, EXIT = 1 };
static size_t map(size_t len) {
    size_t args[] = {0, len, 3, 0x22, -1, 0};
    return sys(MMAP, (long)args, 0, 0);
}
#endif

void *memcpy(void *d, const void *s, size_t n) {
    void *r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n) {
    if ((size_t)d - (size_t)s >= n) return memcpy(d, s, n);
    unsigned char *p = d;
    const unsigned char *q = s;
    while (n--) {
        p[n] = q[n];
        __asm__ volatile("");
    }
    return d;
}
void *memset(void *d, int c, size_t n) {
    void *r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *p = a, *q = b;
    for (size_t k = 0; k < n; k++)
        if (p[k] != q[k]) return p[k] - q[k];
    return 0;
}

size_t host_grow(size_t pages) {
    size_t p = map(pages * 65536);
    return p > (size_t)-4096 ? 0 : p;
}
static void print(const char *s, size_t n) {
    while (n) {
        long k = sys(WRITE, 1, (long)s, n);
        if (k <= 0) return;
        s += k, n -= k;
    }
}
static void show(void) {
    char t[40], *p = t + sizeof t;
    *--p = '\n', *--p = '}';
    for (unsigned long v = neon_calls, first = 1; v || first; v /= 10, first = 0) *--p = '0' + v % 10;
    static const char key[] = ",\"emulated\":";
    size_t n = out_len();
    if (n && out()[n - 1] == '}') {
        print(out(), n - 1);
        print(key, sizeof key - 1);
        print(p, t + sizeof t - p);
    }
}
_Noreturn static void end(int code) {
    for (;;) sys(EXIT, code, 0, 0);
}
/* a panic; the verdict is in out() */
_Noreturn void host_trap(void) {
    show();
    end(1);
}
/* for an instruction that is not written below */
_Noreturn void neon_missing(const char *name) {
    static const char a[] = "{\"status\":\"unsupported\",\"why\":\"";
    size_t n = 0;
    while (name[n]) n++;
    print(a, sizeof a - 1);
    print(name, n);
    print("\"}\n", 3);
    end(2);
}
__attribute__((used)) void entry(size_t *sp) {
    size_t argc = sp[0], n = 0;
    for (size_t i = 1; i < argc; i++)
        for (const char *p = (const char *)sp[1 + i]; *p || (n++, 0); p++) n++;
    char *b = (char *)buf(n);
    for (size_t i = 1; i < argc; i++) {
        for (const char *p = (const char *)sp[1 + i]; *p; p++) *b++ = *p;
        *b++ = ' ';
    }
    run();
    show();
    static const char ok[] = "{\"status\":\"ok\"";
    end(out_len() >= sizeof ok - 1 && !memcmp(out(), ok, sizeof ok - 1) ? 0 : 1);
}

/* LLVM passes a vector like C passes one of the same type; the dots of the names become underscores. */
#define VEC(name, elem, n) typedef elem name __attribute__((vector_size(sizeof(elem) * n)))
VEC(v16i8, uint8_t, 16);
VEC(v8i8, uint8_t, 8);
VEC(v8i16, uint16_t, 8);
VEC(v4i16, uint16_t, 4);
VEC(v4i32, uint32_t, 4);
VEC(v2i32, uint32_t, 2);
VEC(v2i64, uint64_t, 2);

/* table lookup: bytes beyond the table give zero (tbl) or leave the old byte (tbx) */
#define LOOKUP(T, n)                                                                        \
    static T lookup_##T(T old, const v16i8 *t, int k, T i) {                                \
        neon_calls++;                                                                       \
        for (int j = 0; j < n; j++)                                                         \
            if (i[j] < 16 * k) old[j] = t[i[j] / 16][i[j] % 16];                            \
        return old;                                                                         \
    }                                                                                       \
    T llvm_aarch64_neon_tbl1_##T(v16i8 a, T i) { return lookup_##T((T){0}, &a, 1, i); }     \
    T llvm_aarch64_neon_tbl2_##T(v16i8 a, v16i8 b, T i) {                                   \
        v16i8 t[] = {a, b};                                                                 \
        return lookup_##T((T){0}, t, 2, i);                                                 \
    }                                                                                       \
    T llvm_aarch64_neon_tbl3_##T(v16i8 a, v16i8 b, v16i8 c, T i) {                          \
        v16i8 t[] = {a, b, c};                                                              \
        return lookup_##T((T){0}, t, 3, i);                                                 \
    }                                                                                       \
    T llvm_aarch64_neon_tbl4_##T(v16i8 a, v16i8 b, v16i8 c, v16i8 d, T i) {                 \
        v16i8 t[] = {a, b, c, d};                                                           \
        return lookup_##T((T){0}, t, 4, i);                                                 \
    }                                                                                       \
    T llvm_aarch64_neon_tbx1_##T(T o, v16i8 a, T i) { return lookup_##T(o, &a, 1, i); }     \
    T llvm_aarch64_neon_tbx2_##T(T o, v16i8 a, v16i8 b, T i) {                              \
        v16i8 t[] = {a, b};                                                                 \
        return lookup_##T(o, t, 2, i);                                                      \
    }
LOOKUP(v16i8, 16)
LOOKUP(v8i8, 8)

/* lane by lane; the operands are widened so that no sum overflows */
#define LANES(name, T, S, n, expr)                                                          \
    T llvm_aarch64_neon_##name##_##T(T a, T b) {                                            \
        T r;                                                                                \
        neon_calls++;                                                                       \
        for (int j = 0; j < n; j++) {                                                       \
            int64_t x = (S)a[j], y = (S)b[j];                                               \
            r[j] = (expr);                                                                  \
        }                                                                                   \
        return r;                                                                           \
    }
/* neighbours within the concatenation of a and b */
#define PAIRS(name, T, S, n, expr)                                                          \
    T llvm_aarch64_neon_##name##_##T(T a, T b) {                                            \
        T r;                                                                                \
        neon_calls++;                                                                       \
        for (int j = 0; j < n; j++) {                                                       \
            T v = j < n / 2 ? a : b;                                                        \
            int64_t x = (S)v[2 * j % n], y = (S)v[2 * j % n + 1];                           \
            r[j] = (expr);                                                                  \
        }                                                                                   \
        return r;                                                                           \
    }
#define TYPE(T, U, S, n)                                                                    \
    LANES(urhadd, T, U, n, (x + y + 1) >> 1)                                                \
    LANES(srhadd, T, S, n, (x + y + 1) >> 1)                                                \
    LANES(uhadd, T, U, n, (x + y) >> 1)                                                     \
    LANES(shadd, T, S, n, (x + y) >> 1)                                                     \
    LANES(uabd, T, U, n, x > y ? x - y : y - x)                                             \
    LANES(sabd, T, S, n, x > y ? x - y : y - x)                                             \
    LANES(umax, T, U, n, x > y ? x : y)                                                     \
    LANES(umin, T, U, n, x < y ? x : y)                                                     \
    LANES(smax, T, S, n, x > y ? x : y)                                                     \
    LANES(smin, T, S, n, x < y ? x : y)                                                     \
    PAIRS(umaxp, T, U, n, x > y ? x : y)                                                    \
    PAIRS(uminp, T, U, n, x < y ? x : y)                                                    \
    PAIRS(smaxp, T, S, n, x > y ? x : y)                                                    \
    PAIRS(sminp, T, S, n, x < y ? x : y)                                                    \
    PAIRS(addp, T, U, n, x + y)
TYPE(v16i8, uint8_t, int8_t, 16)
TYPE(v8i8, uint8_t, int8_t, 8)
TYPE(v8i16, uint16_t, int16_t, 8)
TYPE(v4i16, uint16_t, int16_t, 4)
TYPE(v4i32, uint32_t, int32_t, 4)
TYPE(v2i32, uint32_t, int32_t, 2)

/* several registers, not interleaved; no alignment */
#define ST(T)                                                                               \
    void llvm_aarch64_neon_st1x2_##T##_p0(T a, T b, uint8_t *p) {                           \
        neon_calls++;                                                                       \
        memcpy(p, &a, sizeof a);                                                            \
        memcpy(p + sizeof a, &b, sizeof a);                                                 \
    }
ST(v16i8)
ST(v8i8)
