/* Bounded explicit-state / stateless model checking core for sonivox.
 *
 * The library under test is linked as a shared object (libsut) whose malloc
 * family is routed (ld --wrap) to the arena allocator below; the check itself
 * is another shared object (libcheck).  The complete state of implementation
 * and check is therefore
 *     arena  +  writable segments of libsut  +  writable segments of libcheck
 * and can be saved, restored and hashed: the real code becomes a transition
 * system that mc_explore/mc_enumerate walk exhaustively.
 */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

/* ---------- allocator of the system under test ---------- */
long   mc_live(void);            /* blocks currently allocated */
long   mc_live_bytes(void);
long   mc_alloc_calls(void);     /* allocation requests since mc_alloc_reset() */
void   mc_alloc_reset(void);     /* zero the request counter, no failures planned */
void   mc_fail_at(long n);       /* n-th request (1-based, since reset) returns NULL; 0 = never */
void   mc_fill(int byte);        /* fill pattern of fresh blocks; -1: blocks keep what was there before */
void   mc_alloc_cap(long bytes); /* requests above that size return NULL (bounded memory environment) */
void  *mc_sut_malloc(size_t n);  /* memory of the check that must follow the state */

/* ---------- state ---------- */
typedef struct mc_snap mc_snap;
mc_snap *mc_save(mc_snap *reuse);
void   mc_restore(const mc_snap *s);
void   mc_snap_free(mc_snap *s);
void   mc_nohash(const void *p, size_t n);     /* bytes of libcheck that are saved but not hashed */
u64    mc_hash_state(void);              /* everything */
u64    mc_hash_impl(void);               /* arena + library globals */
u64    mc_hash(const void *p, size_t n, u64 seed);
void  *mc_big(size_t n);                 /* memory outside the state (constants, recordings) */

/* ---------- verdicts: leaves the case by longjmp ---------- */
void   mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3),noreturn));
#define MC_CHECK(cond,key,...) do { if (!(cond)) { mc_fail(key,__VA_ARGS__); } } while (0)
void   mc_skip(void) __attribute__((noreturn));   /* abandon a case as out of scope (counted) */

/* ---------- exploration ---------- */
typedef struct {
    const char *name;
    int   nops;
    int   depth;                       /* bound on the number of operations */
    void (*setup)(void);               /* builds the initial state */
    int  (*enabled)(int op, int at);   /* may be NULL: all enabled; at = index in the trace */
    void (*apply)(int op);             /* runs op on implementation and model, checks, may mc_fail */
    void (*leaf)(void);                /* extra (destructive) check on the states reached; may be NULL */
    const char *(*opname)(int op);
    int   dedupe;                      /* hash states and do not re-expand */
    int   leaf_only_final;             /* run leaf only at the depth bound */
    double cpu_limit;                  /* CPU seconds one step may take (default 20) */
} mc_model;
void   mc_explore(const mc_model *m);

typedef struct {
    const char *name;
    u64   n;                           /* number of cases */
    void (*run)(u64 i);                /* one execution, from the baseline state */
    void (*describe)(u64 i, char *buf, size_t cap);
    double cpu_limit;                  /* CPU seconds one case may take (default 20) */
} mc_space;
void   mc_enumerate(const mc_space *s);

/* ---------- statistics ---------- */
extern int  mc_thorough;               /* tier */
void   mc_count(const char *name, u64 add);   /* extra named counters, summed over workers */
void   mc_outcome(u64 h);                     /* distinct observed outcomes */
void   mc_step(u64 n);                        /* transitions executed inside a case */
void   mc_bound(const char *fmt, ...) __attribute__((format(printf,1,2)));   /* state the bounds explored */
void   mc_assume(const char *s);

/* ---------- provided by the check ---------- */
extern const char mc_property[];
void mc_body(void);

/* ---------- environment ---------- */
typedef struct { const u8 *data; int len; } mc_file;   /* stateless in-memory file */
typedef struct { long calls; long size_calls; long fail_at; int mode; int sticky; int hit; } mc_iofault;
enum { IO_OK, IO_FAIL_ZERO, IO_FAIL_NEG, IO_SHORT, IO_SIZE_SHRINK };
mc_iofault *mc_io_(void);
#define mc_io (*mc_io_())
int mc_readAt(void *h, void *buf, int off, int n);
int mc_sizeOf(void *h);
#ifdef __cplusplus
}
#endif
#endif
