/* see mc.h.  This file is linked into the executable, never instrumented. */
#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef MC_ASAN
#define SHADOW(p) (((uintptr_t)(p) >> 3) + 0x7fff8000UL)
#define REDZONE 64
#else
#define REDZONE 0
#endif

int mc_thorough;

/* raw copies that no sanitizer intercepts */
static void rawcpy(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void rawset(void *d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }

/* ------------------------------------------------------------------ arena */
#define ARENA_BASE ((u8*)0x300000000000UL)
#define ARENA_SIZE (1UL << 30)
typedef struct { u64 size; u32 used; u32 magic; u64 req; u64 pad; } blk;      /* 32 bytes, then user data */
typedef struct {
    /* hashed part */
    u64 top; long live, live_bytes; long cap; int fill; int pad;
    /* not hashed */
    long calls, fail_at; mc_iofault io;
    u64 steps;
} arena_hdr;
#define HDR_SIZE 256
#define A ((arena_hdr*)ARENA_BASE)
#define MAGIC 0xB10CB10Cu

static void poison(void *p, size_t n, int v) {
#ifdef MC_ASAN
    rawset((void*)SHADOW(p), v, n >> 3);
#else
    (void)p; (void)n; (void)v;
#endif
}
static void unpoison(void *p, size_t n) {
#ifdef MC_ASAN
    u8 *s = (u8*)SHADOW(p);
    rawset(s, 0, n >> 3);
    if (n & 7) s[n >> 3] = n & 7;
#else
    (void)p; (void)n;
#endif
}

static void arena_init(void) {
    void *p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA_BASE) { fprintf(stderr, "mc: arena: %s\n", strerror(errno)); _exit(3); }
    memset(A, 0, sizeof *A);
    A->top = HDR_SIZE; A->cap = 256L << 20; A->fill = 0xA5;
}

static void *arena_malloc(size_t n) {
    A->calls++;
    if (A->fail_at && A->calls == A->fail_at) { return NULL; }
    if ((long)n < 0 || (long)n > A->cap) return NULL;
    size_t need = ((n + 15) & ~15UL); if (!need) need = 16;
    need += REDZONE;
    u8 *p = ARENA_BASE + HDR_SIZE;
    u8 *end = ARENA_BASE + A->top;
    blk *b = NULL;
#ifndef MC_ASAN                      /* under ASan memory is never reused: freed memory stays poisoned */
    while (p < end) {
        blk *c = (blk*)p;
        if (!c->used) {
            for (;;) {               /* coalesce */
                blk *d = (blk*)(p + 32 + c->size);
                if ((u8*)d >= end) { A->top = (u64)(p - ARENA_BASE); end = p; break; }
                if (d->used) break;
                c->size += 32 + d->size;
                rawset(d, 0xDD, 32);
            }
            if (p >= end) break;
            if (c->size >= need) {
                if (c->size >= need + 64) {
                    blk *d = (blk*)(p + 32 + need);
                    d->size = c->size - need - 32; d->used = 0; d->magic = MAGIC; d->req = 0; d->pad = 0;
                    c->size = need;
                }
                b = c; break;
            }
        }
        p += 32 + c->size;
    }
#else
    (void)p; (void)end;
#endif
    if (!b) {
        if (A->top + 32 + need + 64 > ARENA_SIZE) return NULL;
        b = (blk*)(ARENA_BASE + A->top);
        unpoison(b, 32);
        b->size = need; b->magic = MAGIC; b->pad = 0;
        A->top += 32 + need;
    }
    b->used = 1; b->req = n;
    u8 *u = (u8*)(b + 1);
    unpoison(u, (need + 7) & ~7UL);
    if (A->fill >= 0) rawset(u, A->fill, need);
    poison(b, 32, 0xfa);
    poison(u, need, 0xfa);
    unpoison(u, n);
    A->live++; A->live_bytes += (long)n;
    return u;
}
static blk *blk_of(void *p, const char *what) {
    if ((u8*)p < ARENA_BASE + HDR_SIZE + 32 || (u8*)p >= ARENA_BASE + A->top) mc_fail("bad-free", "%s of a pointer that is not a heap block", what);
    blk *b = (blk*)p - 1;
    if (b->magic != MAGIC) mc_fail("bad-free", "%s of a pointer inside a heap block or after an overrun", what);
    if (!b->used) mc_fail("double-free", "%s of a freed block", what);
    return b;
}
static void arena_free(void *p) {
    if (!p) return;
    blk *b = blk_of(p, "free");
    unpoison(p, b->size);
    if (A->fill >= 0) rawset(p, 0xDD, b->size);
    poison(p, b->size, 0xfd);
    b->used = 0; A->live--; A->live_bytes -= (long)b->req;
    b->req = 0;
}
void *__wrap_malloc(size_t n) { return arena_malloc(n); }
void __wrap_free(void *p) { arena_free(p); }
void *__wrap_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL;
    void *p = arena_malloc(n); if (p) rawset(p, 0, n); return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return arena_malloc(n);
    blk *b = blk_of(p, "realloc"); void *q = arena_malloc(n);
    if (q) { rawcpy(q, p, b->req < n ? b->req : n); arena_free(p); }
    return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = arena_malloc(n); if (p) rawcpy(p, s, n); return p; }
void *mc_sut_malloc(size_t n) { void *p = arena_malloc(n); A->live--; A->live_bytes -= (long)n; A->calls--; return p; }
long mc_live(void) { return A->live; }
long mc_live_bytes(void) { return A->live_bytes; }
long mc_alloc_calls(void) { return A->calls; }
void mc_alloc_reset(void) { A->calls = 0; A->fail_at = 0; }
void mc_fail_at(long n) { A->fail_at = n; }
void mc_fill(int b) { A->fill = b; }
void mc_alloc_cap(long n) { A->cap = n; }
void *mc_big(size_t n) { void *p = mmap(NULL, n ? n : 1, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); return p == MAP_FAILED ? NULL : p; }

/* ------------------------------------------------------------------ regions */
typedef struct { u8 *p; size_t n; int lib; } region;
static region regs[32]; static int nregs;
static region nh[64]; static int nnh;
void mc_nohash(const void *p, size_t n) { if (nnh < 64) { nh[nnh].p = (u8*)p; nh[nnh++].n = n; } else { fprintf(stderr, "mc: too many nohash\n"); _exit(3); } }

static int phdr_cb(struct dl_phdr_info *i, size_t s, void *d) {
    (void)s; (void)d;
    int lib = strstr(i->dlpi_name, "libsut") != 0, chk = strstr(i->dlpi_name, "libcheck") != 0;
    if (!lib && !chk) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
            regs[nregs].p = (u8*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
            regs[nregs].n = i->dlpi_phdr[k].p_memsz; regs[nregs].lib = lib; nregs++;
        }
    return 0;
}

struct mc_snap { u64 top; size_t cap; u8 *buf; u8 *shadow; size_t shcap; u8 *rg; };
static size_t regs_total(void) { size_t t = 0; for (int i = 0; i < nregs; i++) t += regs[i].n; return t; }

static void *xm(size_t n) { void *p = mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { fprintf(stderr, "mc: out of memory\n"); _exit(3); } return p; }

mc_snap *mc_save(mc_snap *s) {
    if (!s) { s = xm(sizeof *s); s->rg = xm(regs_total() + 1); }
    if (s->cap < A->top) {
        if (s->buf) munmap(s->buf, s->cap);
        s->cap = (A->top + A->top / 4 + 65535) & ~65535UL; s->buf = xm(s->cap);
#ifdef MC_ASAN
        if (s->shadow) munmap(s->shadow, s->shcap);
        s->shcap = s->cap / 8; s->shadow = xm(s->shcap);
#endif
    }
    s->top = A->top;
    rawcpy(s->buf, ARENA_BASE, s->top);
#ifdef MC_ASAN
    rawcpy(s->shadow, (void*)SHADOW(ARENA_BASE), s->top / 8);
#endif
    size_t o = 0;
    for (int i = 0; i < nregs; i++) { rawcpy(s->rg + o, regs[i].p, regs[i].n); o += regs[i].n; }
    return s;
}
void mc_restore(const mc_snap *s) {
    u64 top = A->top;
    rawcpy(ARENA_BASE, s->buf, s->top);
#ifdef MC_ASAN
    rawcpy((void*)SHADOW(ARENA_BASE), s->shadow, s->top / 8);
#endif
    if (top > s->top) {
        poison(ARENA_BASE + s->top, top - s->top, 0xfa);
        if (top - s->top > (8UL << 20)) madvise((void*)(((uintptr_t)ARENA_BASE + s->top + 4095) & ~4095UL), (top - s->top) & ~8191UL, MADV_DONTNEED);
    }
    size_t o = 0;
    for (int i = 0; i < nregs; i++) { rawcpy(regs[i].p, s->rg + o, regs[i].n); o += regs[i].n; }
}
void mc_snap_free(mc_snap *s) { if (!s) return; if (s->buf) munmap(s->buf, s->cap); if (s->shadow) munmap(s->shadow, s->shcap); munmap(s->rg, regs_total() + 1); munmap(s, sizeof *s); }

static inline u64 mum(u64 a, u64 b) { unsigned __int128 r = (unsigned __int128)a * b; return (u64)r ^ (u64)(r >> 64); }
#define K0 0xa0761d6478bd642fULL
#define K1 0xe7037ed1a0b428dbULL
#define K2 0x8ebc6af09c88c6e3ULL
static inline u64 rd8(const u8 *p) { u64 v; __builtin_memcpy(&v, p, 8); return v; }
u64 mc_hash(const void *vp, size_t n, u64 seed) {
    const u8 *p = vp; u64 a = seed ^ K0, b = seed ^ K1, c = seed ^ K2; size_t n0 = n;
    while (n >= 48) {
        a = mum(rd8(p) ^ K0, rd8(p + 8) ^ a); b = mum(rd8(p + 16) ^ K1, rd8(p + 24) ^ b); c = mum(rd8(p + 32) ^ K2, rd8(p + 40) ^ c);
        p += 48; n -= 48;
    }
    while (n >= 8) { a = mum(rd8(p) ^ K0, a ^ K1); p += 8; n -= 8; }
    u64 t = 0; for (size_t i = 0; i < n; i++) t |= (u64)p[i] << (8 * i);
    a = mum(t ^ K2, a ^ n0);
    return mum(a ^ K0, mum(b ^ K1, c ^ K2) ^ n0);
}
static u64 hash_regs(int libonly) {
    u64 h = 1;
    for (int i = 0; i < nregs; i++) {
        if (libonly && !regs[i].lib) continue;
        u8 *p = regs[i].p, *e = p + regs[i].n;
        while (p < e) {             /* skip nohash ranges */
            u8 *stop = e, *next = e;
            for (int k = 0; k < nnh; k++) {
                u8 *s = nh[k].p, *t = s + nh[k].n;
                if (p >= s && p < t) { stop = p; next = t; break; }
                if (s > p && s < stop) { stop = s; next = t; }
            }
            if (stop > p) h = mc_hash(p, (size_t)(stop - p), h);
            p = next > e ? e : next;
        }
    }
    return h;
}
static u64 hash_arena(void) {
    u64 h = mc_hash(A, offsetof(arena_hdr, calls), 7);
    return mc_hash(ARENA_BASE + HDR_SIZE, A->top - HDR_SIZE, h);
}
u64 mc_hash_state(void) { return mc_hash(&(u64){hash_arena()}, 8, hash_regs(0)); }
u64 mc_hash_impl(void) { return mc_hash(&(u64){hash_arena()}, 8, hash_regs(1)); }

/* ------------------------------------------------------------------ shared memory between workers */
#define MAXW 64
#define MAXTRACE 250
#define NCNT 48
typedef struct {
    volatile int kind;           /* 0 idle 1 trace 2 case */
    volatile int tlen; volatile short trace[MAXTRACE];
    volatile int phase;          /* 1 = inside setup/apply/leaf */
    volatile u64 cs, cs_end;
    volatile u64 prefix;
    volatile int verdict;        /* 1 violation recorded, 2 hang */
    char key[96]; char msg[900];
} wstate;
typedef struct {
    wstate w[MAXW];
    volatile u64 next;
    volatile int stop;
    volatile u64 states, transitions, execs, steps, outcomes, skipped, pruned, tables_full;
    struct { char name[40]; volatile u64 v; } cnt[NCNT];
    volatile int cnt_lock;
    volatile u64 nknown;
    struct { char key[96]; volatile u64 n; char msg[300]; } known[64];
} shm_t;
static shm_t *S; static u64 *V; static u64 *O; static u64 vmask, omask;
static int wid = -1;
static jmp_buf jb; static int jb_ok;
static int nworkers = 8;

void mc_count(const char *name, u64 add) {
    for (int i = 0; i < NCNT; i++) {
        if (!S->cnt[i].name[0]) {
            while (__sync_lock_test_and_set(&S->cnt_lock, 1)) ;
            if (!S->cnt[i].name[0]) { strncpy(S->cnt[i].name, name, 39); }
            __sync_lock_release(&S->cnt_lock);
        }
        if (!strncmp(S->cnt[i].name, name, 39)) { __sync_fetch_and_add(&S->cnt[i].v, add); return; }
    }
}
void mc_step(u64 n) { __sync_fetch_and_add(&S->steps, n); }
static int table_add(u64 *T, u64 mask, u64 h, int rem) {   /* 1 = go on, 0 = seen with at least that many steps left; sets *isnew */
    h &= ~31UL; if (!h) h = 32;
    u64 i = (h >> 5) * K1 & mask;
    for (u64 k = 0; k <= mask && k < 4096; k++, i = (i + 1) & mask) {
        u64 v = T[i];
        if (!v) { if (__sync_bool_compare_and_swap(&T[i], 0, h | (u64)rem)) return 2; v = T[i]; }
        if ((v & ~31UL) == h) {
            for (;;) {
                if ((int)(v & 31) >= rem) return 0;
                if (__sync_bool_compare_and_swap(&T[i], v, h | (u64)rem)) return 1;
                v = T[i];
            }
        }
    }
    __sync_fetch_and_add(&S->tables_full, 1);
    return 1;
}
void mc_outcome(u64 h) { if (table_add(O, omask, mum(h ^ K0, K1), 0) == 2) __sync_fetch_and_add(&S->outcomes, 1); }

/* ------------------------------------------------------------------ meta */
static char bounds[24][300]; static int nbounds;
static char assumes[24][400]; static int nassumes;
static char samples[16][700]; static int nsamples;
void mc_bound(const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (nbounds < 24) vsnprintf(bounds[nbounds++], 300, fmt, ap); va_end(ap); }
void mc_assume(const char *s) { for (int i = 0; i < nassumes; i++) if (!strcmp(assumes[i], s)) return; if (nassumes < 24) snprintf(assumes[nassumes++], 400, "%s", s); }

static char **knownkeys; static int nknownkeys;
static const char *root = "/verif", *partial, *replay_path, *variant = "?";
static double t0; static u64 seed;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void load_known(void) {
    char p[512]; snprintf(p, sizeof p, "%s/known_findings.txt", root);
    FILE *f = fopen(p, "r"); char line[2048]; if (!f) return;
    while (fgets(line, sizeof line, f)) {       /* known: property=C01 key=<key> text */
        char prop[32], key[128];
        if (sscanf(line, "known: property=%31s key=%127s", prop, key) == 2 && !strcmp(prop, mc_property)) {
            knownkeys = realloc(knownkeys, sizeof(char*) * (size_t)(nknownkeys + 1));
            knownkeys[nknownkeys++] = strdup(key);
        }
    }
    fclose(f);
}
static int is_known(const char *key) { for (int i = 0; i < nknownkeys; i++) if (!strcmp(knownkeys[i], key)) return 1; return 0; }
static void note_known(const char *key, const char *msg) {
    while (__sync_lock_test_and_set(&S->cnt_lock, 1)) ;
    for (int i = 0; i < 64; i++) {
        if (!S->known[i].key[0]) { snprintf(S->known[i].key, 96, "%s", key); snprintf(S->known[i].msg, 300, "%s", msg); }
        if (!strcmp(S->known[i].key, key)) { S->known[i].n++; break; }
    }
    __sync_lock_release(&S->cnt_lock);
}

void mc_fail(const char *key, const char *fmt, ...) {
    wstate *w = &S->w[wid < 0 ? MAXW - 1 : wid];
    va_list ap; va_start(ap, fmt);
    char msg[900]; vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    char k[96]; snprintf(k, sizeof k, "%s", key);
    for (char *c = k; *c; c++) if (*c <= ' ') *c = '_';
    if (!w->verdict) { w->verdict = 1; strcpy(w->key, k); strcpy(w->msg, msg); }
    if (!jb_ok) { fprintf(stderr, "mc: failure outside a case: %s: %s\n", k, msg); _exit(4); }
    longjmp(jb, 1);
}
void mc_skip(void) { __sync_fetch_and_add(&S->skipped, 1); if (!jb_ok) _exit(5); longjmp(jb, 2); }

/* ------------------------------------------------------------------ watchdog */
static void on_vtalrm(int s) { (void)s; wstate *w = &S->w[wid < 0 ? MAXW - 1 : wid]; w->verdict = 2; _exit(77); }
static void watchdog(double sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)sec; it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6); setitimer(ITIMER_VIRTUAL, &it, NULL); }

/* ------------------------------------------------------------------ one guarded run of something */
static mc_snap *base;
static const mc_model *M; static const mc_space *P;

static int guarded_case(u64 i) {
    wstate *w = &S->w[wid]; w->kind = 2; w->cs = i; w->verdict = 0;
    mc_restore(base);
    watchdog(P->cpu_limit ? P->cpu_limit : 20);
    int r = setjmp(jb);
    if (!r) { jb_ok = 1; w->phase = 1; P->run(i); }
    w->phase = 0; jb_ok = 0;
    watchdog(0);
    return w->verdict;
}
static int guarded_apply(int what, int op) {      /* 0 setup, 1 apply, 2 leaf */
    wstate *w = &S->w[wid]; w->verdict = 0;
    watchdog(M->cpu_limit ? M->cpu_limit : 20);
    int r = setjmp(jb);
    if (!r) { jb_ok = 1; w->phase = 1; if (what == 0) M->setup(); else if (what == 1) M->apply(op); else M->leaf(); }
    w->phase = 0; jb_ok = 0; watchdog(0);
    if (r == 2) return 3;
    return w->verdict;
}
/* run a whole trace from the baseline; returns verdict */
static int run_trace(const short *t, int n, int withleaf) {
    wstate *w = &S->w[wid]; w->kind = 1; w->tlen = 0;
    mc_restore(base);
    int v = guarded_apply(0, 0); if (v) return v;
    for (int i = 0; i < n; i++) {
        if (M->enabled && !M->enabled(t[i], i)) return 0;
        w->trace[i] = t[i]; w->tlen = i + 1;
        v = guarded_apply(1, t[i]); if (v) return v;
        if (M->leaf && withleaf && i < n - 1 && !M->leaf_only_final) { /* leaves are checked separately */ }
    }
    if (M->leaf && withleaf) return guarded_apply(2, 0);
    return 0;
}

/* ------------------------------------------------------------------ violations */
typedef struct { char key[96]; char msg[900]; int found; char path[512]; } viol;
static viol VI; static u64 nviol, nunrepro;

/* runs f in a child; returns 0 ok, 1 violation; key/msg filled */
static int crash_key(pid_t pid, int st, char *key, char *msg) {
    char p[300]; snprintf(p, sizeof p, "/tmp/mcasan.%s.%d", mc_property, (int)pid);
    snprintf(key, 96, WIFSIGNALED(st) ? "crash-signal-%d" : "crash-exit-%d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    snprintf(msg, 900, "the library crashed (%s)", key);
    FILE *f = fopen(p, "r"); if (!f) return 0;
    char line[1024]; char fn[128] = "?"; char what[128] = ""; int frames = 0; size_t o = 0; msg[0] = 0;
    while (fgets(line, sizeof line, f)) {
        char *c;
        if (!what[0] && (c = strstr(line, "runtime error: "))) { snprintf(what, sizeof what, "ubsan"); line[strcspn(line, "\n")] = 0; o += (size_t)snprintf(msg + o, 900 - o, "%s; ", line); }
        else if ((c = strstr(line, "ERROR: AddressSanitizer: "))) { sscanf(c + 25, "%127[^ \n]", what); o += (size_t)snprintf(msg + o, 900 - o, "ASan %s; ", what); }
        if (frames < 6 && (c = strstr(line, " in ")) && strchr(line, '#')) {
            char name[128] = ""; sscanf(c + 4, "%127[^ \n]", name);
            if (frames == 0 || !strcmp(fn, "?")) { if (strncmp(name, "__", 2) && name[0]) snprintf(fn, sizeof fn, "%s", name); }
            if (o < 800) o += (size_t)snprintf(msg + o, 900 - o, "%s%s", frames ? " < " : "", name);
            frames++;
        }
    }
    fclose(f); unlink(p);
    if (what[0]) { snprintf(key, 96, "%.40s:%.50s", what, fn); }
    return 1;
}
typedef struct { int is_case; u64 cs; short t[MAXTRACE]; int n; int leaf; } work;
/* the library's own reports (printf) must not mix with the checker's output */
static void quiet(void) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); } }
static int try_work(const work *k, char *key, char *msg, int outfd) {
    fflush(stdout); fflush(stderr);
    S->w[MAXW - 1].verdict = 0;
    pid_t pid = fork();
    if (!pid) {
        wid = MAXW - 1; quiet(); signal(SIGVTALRM, on_vtalrm); if (outfd >= 0) { dup2(outfd, 2); }
        int v;
        if (k->is_case) v = guarded_case(k->cs); else v = run_trace(k->t, k->n, k->leaf);
        _exit(v == 1 ? 66 : v == 3 ? 0 : 0);
    }
    int st; waitpid(pid, &st, 0);
    wstate *w = &S->w[MAXW - 1];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { strcpy(key, w->key); strcpy(msg, w->msg); return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { strcpy(key, "hang"); snprintf(msg, 900, "no answer within the CPU limit of one step"); return 1; }
    crash_key(pid, st, key, msg);
    return 1;
}
static void text_of(const work *k, char *buf, size_t cap) {
    buf[0] = 0;
    if (k->is_case) { if (P->describe) { mc_restore(base); P->describe(k->cs, buf, cap); } else snprintf(buf, cap, "case %llu", (unsigned long long)k->cs); }
    else { size_t o = 0; for (int i = 0; i < k->n && o + 60 < cap; i++) { const char *s = M->opname ? M->opname(k->t[i]) : ""; o += (size_t)snprintf(buf + o, cap - o, "%s%s", i ? "; " : "", s); } if (!k->n) snprintf(buf, cap, "(initial state)"); }
}
static void json_str(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

static void report(work *k, const char *key0, const char *msg0) {
    char key[96], msg[900], key2[96], msg2[900];
    snprintf(key, 96, "%s", key0); snprintf(msg, 900, "%s", msg0);
    if (is_known(key)) { note_known(key, msg); return; }
    int ok = 0;
    for (int t = 0; t < 3 && !ok; t++) ok = try_work(k, key2, msg2, -1);
    if (!ok) { nunrepro++; char b[600]; text_of(k, b, sizeof b); fprintf(stderr, "mc: not reproduced from scratch, ignored: [%s] %s (%s)\n", key, msg, b); return; }
    strcpy(key, key2); strcpy(msg, msg2);
    if (is_known(key)) { note_known(key, msg); return; }
    if (!k->is_case) {              /* greedy minimisation */
        int budget = 120;
        for (int i = k->n - 1; i >= 0 && budget > 0; i--, budget--) {
            work c = *k; memmove(c.t + i, c.t + i + 1, sizeof(short) * (size_t)(c.n - i - 1)); c.n--;
            if (try_work(&c, key2, msg2, -1) && !strcmp(key2, key)) { *k = c; strcpy(msg, msg2); }
        }
    }
    char txt[4000]; text_of(k, txt, sizeof txt);
    char path[480]; snprintf(path, sizeof path, "%s/replays", root); mkdir(path, 0755);
    u64 h = mc_hash(key, strlen(key), k->cs); h = mc_hash(k->t, sizeof(short) * (size_t)k->n, h);
    snprintf(path, sizeof path, "%s/replays/%s-%08x.json", root, mc_property, (unsigned)h);
    FILE *f = fopen(path, "w");
    if (f) {
        fprintf(f, "{\"property\":\"%s\",\"variant\":\"%s\",\"tier\":\"%s\",\"space\":", mc_property, variant, mc_thorough ? "thorough" : "quick"); json_str(f, k->is_case ? P->name : M->name);
        fprintf(f, ",\"kind\":\"%s\",\"case\":%llu,\"leaf\":%d,\"trace\":[", k->is_case ? "case" : "trace", (unsigned long long)k->cs, k->leaf);
        for (int i = 0; i < k->n; i++) fprintf(f, "%s%d", i ? "," : "", k->t[i]);
        fprintf(f, "],\"key\":"); json_str(f, key); fprintf(f, ",\"message\":"); json_str(f, msg); fprintf(f, ",\"text\":"); json_str(f, txt); fprintf(f, "}\n");
        fclose(f);
    }
    nviol++;
    if (VI.found && !strcmp(VI.path, path)) return;
    printf("VIOLATION property=%s replay=%s\n", mc_property, path);
    printf("  space=%s key=%s\n  %s\n  %s\n", k->is_case ? P->name : M->name, key, msg, txt);
    fflush(stdout);
    if (!VI.found) { VI.found = 1; strcpy(VI.key, key); strcpy(VI.msg, msg); strcpy(VI.path, path); }
}

/* ------------------------------------------------------------------ worker loops */
static void limit_child(void) { signal(SIGVTALRM, on_vtalrm); }

static void case_worker(void) {
    wstate *w = &S->w[wid]; limit_child();
    u64 chunk = P->n / (u64)(nworkers * 50) + 1; if (chunk > 256) chunk = 256;
    for (;;) {
        if (w->cs >= w->cs_end) {
            u64 b = __sync_fetch_and_add(&S->next, chunk);
            if (b >= P->n || S->stop) break;
            w->cs = b; w->cs_end = b + chunk > P->n ? P->n : b + chunk;
        }
        for (; w->cs < w->cs_end && !S->stop; ) {
            u64 i = w->cs;
            __sync_fetch_and_add(&S->execs, 1);
            int v = guarded_case(i);
            if (v == 1) {
                if (is_known(w->key)) note_known(w->key, w->msg);
                else _exit(66);      /* parent resumes after it */
            }
            w->cs = i + 1;
        }
        if (S->stop) break;
    }
    w->kind = 0; _exit(0);
}

static mc_snap *stk[MAXTRACE + 2];
static int plen; static u64 nprefix;
static int trace_fail(int v) {      /* called in a worker */
    wstate *w = &S->w[wid];
    if (v == 3) return 1;
    if (is_known(w->key)) { note_known(w->key, w->msg); return 1; }
    _exit(66);
}
static void dfs(int d) {
    wstate *w = &S->w[wid];
    if (S->stop) return;
    if (M->leaf && (!M->leaf_only_final || d == M->depth)) {
        stk[d] = mc_save(stk[d]);
        w->phase = 2; int v = guarded_apply(2, 0); if (v) trace_fail(v);
        if (d < M->depth) mc_restore(stk[d]);
    } else if (d < M->depth) stk[d] = mc_save(stk[d]);
    if (d == M->depth) return;
    for (int op = 0; op < M->nops; op++) {
        if (M->enabled && !M->enabled(op, d)) continue;
        w->trace[d] = (short)op; w->tlen = d + 1;
        int v = guarded_apply(1, op);
        __sync_fetch_and_add(&S->transitions, 1);
        if (v) { trace_fail(v); }
        else {
            int r = table_add(V, vmask, mc_hash_state(), M->depth - d - 1);
            if (r == 2) __sync_fetch_and_add(&S->states, 1);
            if (r || !M->dedupe) dfs(d + 1); else __sync_fetch_and_add(&S->pruned, 1);
        }
        w->tlen = d;
        mc_restore(stk[d]);
        if (S->stop) return;
    }
}
static void trace_worker(void) {
    wstate *w = &S->w[wid]; limit_child();
    for (;;) {
        u64 b = __sync_fetch_and_add(&S->next, 1);
        if (b >= nprefix || S->stop) break;
        w->prefix = b; w->kind = 1; w->tlen = 0;
        mc_restore(base);
        int v = guarded_apply(0, 0); if (v) { trace_fail(v); continue; }
        u64 x = b; int ok = 1;
        u64 div = nprefix;
        for (int i = 0; i < plen && ok; i++) {
            div /= (u64)M->nops; int op = (int)(x / div); x %= div;
            int first = x == 0;       /* the node after this op is owned by the prefix whose rest is all zero */
            if (M->enabled && !M->enabled(op, i)) { ok = 0; break; }
            w->trace[i] = (short)op; w->tlen = i + 1;
            v = guarded_apply(1, op);
            if (first) __sync_fetch_and_add(&S->transitions, 1);
            if (v) { if (first) trace_fail(v); ok = 0; break; }
            if (i < plen - 1) {
                if (first) {
                    if (table_add(V, vmask, mc_hash_state(), 0) == 2) __sync_fetch_and_add(&S->states, 1);
                    if (M->leaf && !M->leaf_only_final) { stk[i] = mc_save(stk[i]); v = guarded_apply(2, 0); if (v) trace_fail(v); mc_restore(stk[i]); }
                }
            } else {
                int r = table_add(V, vmask, mc_hash_state(), M->depth - plen);
                if (r == 2) __sync_fetch_and_add(&S->states, 1);
                if (!r && M->dedupe) { ok = 0; __sync_fetch_and_add(&S->pruned, 1); }
            }
        }
        if (ok) dfs(plen);
    }
    w->kind = 0; _exit(0);
}

static void run_workers(void (*f)(void), int is_case) {
    pid_t pid[MAXW]; int alive = 0;
    if (mc_thorough) {}
    S->next = 0; S->stop = 0;
    fflush(stdout); fflush(stderr);
    int budget = 400;              /* restarts after crashes */
    for (int i = 0; i < nworkers; i++) {
        S->w[i].cs = S->w[i].cs_end = 0; S->w[i].kind = 0;
        pid[i] = fork(); if (!pid[i]) { wid = i; quiet(); f(); } alive++;
    }
    while (alive) {
        int st; pid_t p = wait(&st); if (p < 0) break;
        int i; for (i = 0; i < nworkers; i++) if (pid[i] == p) break;
        if (i == nworkers) continue;
        alive--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        wstate *w = &S->w[i];
        work k; memset(&k, 0, sizeof k); k.is_case = is_case; k.cs = w->cs; k.n = w->tlen; k.leaf = 0;
        for (int j = 0; j < k.n; j++) k.t[j] = w->trace[j];
        char key[96], msg[900];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { strcpy(key, w->key); strcpy(msg, w->msg); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { strcpy(key, "hang"); snprintf(msg, sizeof msg, "no answer within the CPU limit of one step"); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "mc: internal error\n"); S->stop = 1; nunrepro++; continue; }
        else crash_key(p, st, key, msg);
        if (!is_case) {             /* leaf or not? */
            char k2[96], m2[900];
            if (M->leaf) { k.leaf = 0; if (!try_work(&k, k2, m2, -1)) k.leaf = 1; }
        }
        u64 before = nviol;
        report(&k, key, msg);
        if (nviol > before) S->stop = 1;
        if (!S->stop && budget-- > 0) {
            if (is_case) w->cs = w->cs + 1;
            w->kind = 0;
            fflush(stdout);
            pid[i] = fork(); if (!pid[i]) { wid = i; quiet(); f(); } alive++;
        }
    }
}

/* replay request */
static char rp_space[200]; static int rp_is_case; static work rp; static int rp_done, rp_active;

static void sample_add(const char *name, const char *txt) { if (nsamples < 16) snprintf(samples[nsamples++], 700, "%s: %s", name, txt); }

/* what happens before and between the spaces may take 100 s of processor time */
static void guard(int on) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = on ? 100 : 0; if (!rp_active) { if (on) signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &t, NULL); } }

static void enumerate_(const mc_space *s); static void explore_(const mc_model *m);
void mc_enumerate(const mc_space *s) { guard(0); enumerate_(s); guard(1); }
void mc_explore(const mc_model *m) { guard(0); explore_(m); guard(1); }
static void enumerate_(const mc_space *s) {
    if (nviol) return;
    P = s; base = mc_save(NULL);
    if (rp_active) {
        if (rp_is_case && !strcmp(rp_space, s->name)) {
            char key[96], msg[900], txt[3000]; rp_done = 1; text_of(&rp, txt, sizeof txt);
            if (try_work(&rp, key, msg, 2)) { nviol++; printf("VIOLATION property=%s replay=%s\n  key=%s\n  %s\n  %s\n", mc_property, replay_path, key, msg, txt); if (is_known(key)) { printf("  (listed in known_findings.txt)\n"); } }
            else printf("replay: the case passes: %s\n", txt);
        }
        mc_snap_free(base); return;
    }
    double t = now(); u64 e0 = S->execs;
    char b[600];
    if (s->describe) {
        u64 idx[2] = { s->n / 3, s->n - 1 };
        for (int i = 0; i < 2 && s->n; i++) { work k; memset(&k, 0, sizeof k); k.is_case = 1; k.cs = idx[i]; text_of(&k, b, sizeof b); sample_add(s->name, b); }
    }
    mc_restore(base);
    run_workers(case_worker, 1);
    fprintf(stderr, "mc: %s/%s: %llu of %llu cases, %.1f s\n", mc_property, s->name, (unsigned long long)(S->execs - e0), (unsigned long long)s->n, now() - t);
    mc_restore(base); mc_snap_free(base);
}

static void explore_(const mc_model *m) {
    if (nviol) return;
    static mc_model mm; mm = *m; m = &mm;
    if (getenv("MC_SHALLOW") && mm.depth > 2) mm.depth--;     /* for quick trials by hand only */
    M = m; base = mc_save(NULL);
    if (rp_active) {
        if (!rp_is_case && !strcmp(rp_space, m->name)) {
            char key[96], msg[900], txt[3000]; rp_done = 1; text_of(&rp, txt, sizeof txt);
            if (try_work(&rp, key, msg, 2)) { nviol++; printf("VIOLATION property=%s replay=%s\n  key=%s\n  %s\n  %s\n", mc_property, replay_path, key, msg, txt); }
            else printf("replay: the trace passes: %s\n", txt);
        }
        mc_snap_free(base); return;
    }
    double t = now(); u64 s0 = S->states, t0_ = S->transitions;
    rawset(V, 0, (vmask + 1) * 8);
    nprefix = 1; plen = 0;
    while (plen < m->depth && nprefix * (u64)m->nops <= 60000 && (nprefix < 512)) { nprefix *= (u64)m->nops; plen++; }
    /* initial state */
    {
        work k; memset(&k, 0, sizeof k); char key[96], msg[900]; k.leaf = m->leaf && !m->leaf_only_final;
        if (try_work(&k, key, msg, -1)) { report(&k, key, msg); if (nviol) { mc_snap_free(base); return; } }
        S->states++;
    }
    if (m->depth > 0) run_workers(trace_worker, 0);
    {
        work k; memset(&k, 0, sizeof k); k.n = m->depth > 12 ? 12 : m->depth; for (int i = 0; i < k.n; i++) k.t[i] = (short)((i * 7 + 3) % m->nops);
        char b[600]; size_t o = 0; b[0] = 0;
        for (int i = 0; i < k.n && o + 60 < sizeof b; i++) o += (size_t)snprintf(b + o, sizeof b - o, "%s%s", i ? "; " : "", m->opname ? m->opname(k.t[i]) : "?");
        sample_add(m->name, b);
    }
    fprintf(stderr, "mc: %s/%s: %llu states, %llu transitions, depth %d, %.1f s\n", mc_property, m->name, (unsigned long long)(S->states - s0), (unsigned long long)(S->transitions - t0_), m->depth, now() - t);
    mc_restore(base); mc_snap_free(base);
}

/* ------------------------------------------------------------------ in-memory files with planned faults */
mc_iofault *mc_io_(void) { return &A->io; }
int mc_readAt(void *h, void *buf, int off, int n) {
    mc_file *f = h; int avail, k;
    mc_io.calls++;
    if (off < 0 || n < 0) return 0;
    avail = off >= f->len ? 0 : f->len - off; k = n < avail ? n : avail;
    if (mc_io.mode != IO_OK && mc_io.mode != IO_SIZE_SHRINK && mc_io.fail_at && (mc_io.calls == mc_io.fail_at || (mc_io.sticky && mc_io.calls > mc_io.fail_at && (mc_io.sticky == 1 || mc_io.calls < mc_io.fail_at + mc_io.sticky)))) {
        mc_io.hit = 1;
        if (mc_io.mode == IO_FAIL_ZERO) return 0;
        if (mc_io.mode == IO_FAIL_NEG) return -1;
        if (mc_io.mode == IO_SHORT && k > 0) k = k - 1;
    }
    if (k > 0) memcpy(buf, f->data + off, (size_t)k);
    return k;
}
int mc_sizeOf(void *h) {
    mc_file *f = h; mc_io.size_calls++;
    if (mc_io.mode == IO_SIZE_SHRINK && mc_io.fail_at && mc_io.size_calls >= mc_io.fail_at) { mc_io.hit = 1; return f->len / 2; }
    return f->len;
}

/* ------------------------------------------------------------------ main */
static void write_partial(void) {
    if (!partial) return;
    FILE *f = fopen(partial, "w"); if (!f) return;
    fprintf(f, "{\"property\":\"%s\",\"variant\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"steps\":%llu,\"outcomes\":%llu,\"skipped\":%llu,\"pruned\":%llu,\"unreproduced\":%llu,\"table_overflows\":%llu,\"violations\":%llu,\"wall_s\":%.2f,\n\"counters\":{",
        mc_property, variant, (unsigned long long)S->states, (unsigned long long)S->transitions, (unsigned long long)S->execs, (unsigned long long)S->steps, (unsigned long long)S->outcomes,
        (unsigned long long)S->skipped, (unsigned long long)S->pruned, (unsigned long long)nunrepro, (unsigned long long)S->tables_full, (unsigned long long)nviol, now() - t0);
    for (int i = 0; i < NCNT && S->cnt[i].name[0]; i++) { fprintf(f, "%s", i ? "," : ""); json_str(f, S->cnt[i].name); fprintf(f, ":%llu", (unsigned long long)S->cnt[i].v); }
    fprintf(f, "},\n\"bounds\":["); for (int i = 0; i < nbounds; i++) { if (i) fputc(',', f); json_str(f, bounds[i]); }
    fprintf(f, "],\n\"assumptions\":["); for (int i = 0; i < nassumes; i++) { if (i) fputc(',', f); json_str(f, assumes[i]); }
    fprintf(f, "],\n\"samples\":["); for (int i = 0; i < nsamples; i++) { if (i) fputc(',', f); json_str(f, samples[i]); }
    fprintf(f, "],\n\"known\":["); int c = 0; for (int i = 0; i < 64 && S->known[i].key[0]; i++) { if (c++) fputc(',', f); fprintf(f, "{\"key\":"); json_str(f, S->known[i].key); fprintf(f, ",\"n\":%llu,\"msg\":", (unsigned long long)S->known[i].n); json_str(f, S->known[i].msg); fputc('}', f); }
    fprintf(f, "]}\n"); fclose(f);
}

#ifdef MC_ASAN
extern void __sanitizer_set_report_path(const char *);
const char *__asan_default_options(void) { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:print_legend=0:symbolize=1:malloc_context_size=8"; }
const char *__ubsan_default_options(void) { return "print_stacktrace=1:halt_on_error=1:abort_on_error=1"; }
#endif

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "quick")) mc_thorough = 0;
        else if (!strcmp(argv[i], "--root") && i + 1 < argc) root = argv[++i];
        else if (!strcmp(argv[i], "--variant") && i + 1 < argc) variant = argv[++i];
        else if (!strcmp(argv[i], "--partial") && i + 1 < argc) partial = argv[++i];
        else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay_path = argv[++i];
        else if (!strcmp(argv[i], "--workers") && i + 1 < argc) nworkers = atoi(argv[++i]);
        else { fprintf(stderr, "mc: unknown argument %s\n", argv[i]); return 3; }
    }
    char *e = getenv("VERIF_SEED"); seed = e ? strtoull(e, NULL, 10) : 1;
    t0 = now();
    u64 vbits = mc_thorough ? 27 : 24;
    vmask = (1UL << vbits) - 1; omask = (1UL << 22) - 1;
    S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    V = mmap(NULL, (vmask + 1) * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    O = mmap(NULL, (omask + 1) * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || V == MAP_FAILED || O == MAP_FAILED) { fprintf(stderr, "mc: shared memory\n"); return 3; }
    arena_init();
#ifdef MC_ASAN
    { static char rp_[200]; snprintf(rp_, sizeof rp_, "/tmp/mcasan.%s", mc_property); __sanitizer_set_report_path(rp_); }
#endif
    dl_iterate_phdr(phdr_cb, NULL);
    if (getenv("MC_DEBUG")) for (int i = 0; i < nregs; i++) fprintf(stderr, "mc: region %p %zu lib=%d\n", (void*)regs[i].p, regs[i].n, regs[i].lib);
    load_known();
    if (replay_path) {
        FILE *f = fopen(replay_path, "r"); static char buf[65536]; if (!f) { perror(replay_path); return 3; }
        size_t n = fread(buf, 1, sizeof buf - 1, f); buf[n] = 0; fclose(f);
        char *c; rp_active = 1; nworkers = 1;
        if ((c = strstr(buf, "\"tier\":\"thorough\""))) mc_thorough = 1;
        if ((c = strstr(buf, "\"space\":\""))) sscanf(c + 9, "%199[^\"]", rp_space);
        if (strstr(buf, "\"kind\":\"case\"")) rp_is_case = 1;
        rp.is_case = rp_is_case;
        if ((c = strstr(buf, "\"case\":")) && c != strstr(buf, "\"case\",")) { c = strstr(buf, "\"case\":"); rp.cs = strtoull(c + 7, NULL, 10); }
        if ((c = strstr(buf, "\"leaf\":"))) rp.leaf = atoi(c + 7);
        if ((c = strstr(buf, "\"trace\":["))) { c += 9; while (*c && *c != ']') { rp.t[rp.n++] = (short)strtol(c, &c, 10); if (*c == ',') c++; } }
    }
    guard(1); mc_body(); guard(0);
    if (rp_active) { if (!rp_done) printf("replay: space %s is not part of this check\n", rp_space); return nviol ? 1 : 0; }
    for (int i = 0; i < 64 && S->known[i].key[0]; i++) printf("KNOWN-FINDING: property=%s %s %s (%llu executions)\n", mc_property, S->known[i].key, S->known[i].msg, (unsigned long long)S->known[i].n);
    write_partial();
    if (nunrepro) printf("mc: %llu unreproduced report(s), not counted\n", (unsigned long long)nunrepro);
    return nviol ? 1 : 0;
}
