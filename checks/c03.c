/* C03: running out of memory. The life cycle of C08 with any one allocation of any operation failing. */
#define C03
#define mc_property c08_property
#define mc_body c08_body
static int F_RESTART(void);
#include "c08.c"
#undef mc_property
#undef mc_body
const char mc_property[] = "C03";
/* starting up with the F-th allocation failing, either of EAS_Init or of loading the collection */
static int F_RESTART(void) {
    int f = F; F = 0; EAS_RESULT r; static EAS_FILE ef; static mc_file em;
    if (!f) return 0;
    for (int k = 1; k < 64; k++) {
        mc_alloc_reset(); mc_fail_at(k); E = NULL; r = EAS_Init(&E); int t = mc_alloc_calls() >= k; mc_fail_at(0);
        if (!t) { MC_CHECK(r == EAS_SUCCESS, "init", "EAS_Init returned %ld", (long)r); break; }
        MC_CHECK(r != EAS_SUCCESS, "init-ignored", "allocation %d of EAS_Init failed, it reports success", k);
        MC_CHECK(mc_live() == 0, "init-leak", "EAS_Init failed at allocation %d and left %ld blocks allocated", k, mc_live());
    }
    sut_dry(); long base = mc_live();
    for (int k = 1; k < 256; k++) {
        mc_alloc_reset(); mc_fail_at(k); r = EAS_LoadDLSCollection(E, NULL, sut_file(&ef, &em, bank.b, bank.n)); int t = mc_alloc_calls() >= k; mc_fail_at(0);
        if (!t) { MC_CHECK(r == EAS_SUCCESS, "dls", "EAS_LoadDLSCollection returned %ld", (long)r); break; }
        MC_CHECK(r != EAS_SUCCESS, "dls-ignored", "allocation %d of loading a collection failed, it reports success", k);
        MC_CHECK(mc_live() == base, "dls-leak", "loading a collection failed at allocation %d and left %ld blocks allocated", k, mc_live() - base);
    }
    memset(S, 0, sizeof S); memset(users, 0, sizeof users); memset(fnote, 0, sizeof fnote); memset(filesyn, 0, sizeof filesyn); memset(started, 0, sizeof started);
    return 1;
}
static const char *opname3(int o) { static char b[96]; int k = o / NOPS; if (!k) return opname(o % NOPS); snprintf(b, sizeof b, "%s with allocation %d failing", opname(o % NOPS), k); return b; }
static int allocates(int o) { return o < CLOSE0 || o == RESTART; }
static int enabled3(int o, int at) { int k = o / NOPS, b = o % NOPS; if (k && !allocates(b)) return 0; if (k > 1 && b == RESTART) return 0; return enabled(b, at); }
static void apply3(int o) { F = o / NOPS; apply(o % NOPS); F = 0; mc_fail_at(0); }
void mc_body(void) {
    prepare8();
    int d = mc_thorough ? 8 : 6, kmax = 4;
    mc_bound("every sequence of the life-cycle operations of C08 up to depth %d in which any operation may meet a failure of its first, second, ... %d-th allocation; start-up and collection loading with every allocation failing in turn", d, kmax);
    mc_model x = { .name = "oom", .nops = NOPS * (kmax + 1), .depth = d, .setup = setup, .enabled = enabled3, .apply = apply3, .leaf = leaf, .opname = opname3, .dedupe = 1 };
    mc_explore(&x);
}
