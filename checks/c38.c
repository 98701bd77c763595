/* C38: the command line program of example/ writes what the library plays, for any options and files, and says when it did not.
 * The program's own source is compiled in; every case runs its main() in a child of its own with real files and a real standard output. */
#define _GNU_SOURCE
#include "sut.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#define main sonivoxrender
#include "sonivoxrender.c"
#undef main
const char mc_property[] = "C38";
/* ---- files ---- */
enum { SONG, OTHER, SILENT, CUT, EMPTY, JUNK, MISSING, NFILE };
static const char *const FNAME[NFILE] = { "song", "other song", "song of no length", "cut song", "empty file", "junk", "missing file" };
enum { BANK = NFILE, BADBANK, NALL };
static bytes data[NALL]; static char path[NALL][40]; static int real[NALL];
static const char *const OPT_D[] = { NULL, "DLS", "broken DLS", "missing DLS" }, *const OPT_R[] = { NULL, "0", "1", "2", "3", "4", "5", "-1" }, *const OPT_W[] = { NULL, "0", "1", "16000", "32765", "32766", "-1" };
/* sequences of up to this many files */
#define LEN (mc_thorough ? 3 : 2)
#define ND 4
#define NRV 8
#define NW 7
static void build(void) {
    int m; bytes *b = &data[SONG];
    smf_head(b, 0, 1, 96); m = smf_trk(b); smf_tempo(b, 0, 250000); smf_ev2(b, 0, 0xc0, 19); smf_ev3(b, 0, 0x90, 60, 110); smf_ev3(b, 20, 0x99, 38, 120); smf_ev3(b, 10, 0xe0, 0, 80); smf_ev3(b, 20, 0x80, 60, 0); smf_eot(b, 10); smf_endtrk(b, m);
    b = &data[OTHER]; smf_head(b, 1, 2, 96); m = smf_trk(b); smf_tempo(b, 0, 400000); smf_eot(b, 40); smf_endtrk(b, m); m = smf_trk(b); smf_ev2(b, 0, 0xc3, 48); smf_ev3(b, 5, 0x93, 72, 90); smf_ev3(b, 0, 0x93, 76, 90); smf_ev3(b, 22, 0x83, 72, 0); smf_eot(b, 2); smf_endtrk(b, m);
    b = &data[SILENT]; smf_head(b, 0, 1, 96); m = smf_trk(b); smf_eot(b, 0); smf_endtrk(b, m);
    by_put(&data[CUT], data[SONG].b, data[SONG].n - 14);
    by_put(&data[JUNK], "RIFF....this is not music, not even a little", 44);
    static const dc_note t[] = { { 0, 19, 0, 127, 4000, 0, 0 }, { 0, 48, 0, 127, 2500, 0, 0 } }; dc_bank(&data[BANK], t, 2, dls_flat, dls_nflat);
    by_put(&data[BADBANK], data[BANK].b, data[BANK].n / 3);
    for (int i = 0; i < NALL; i++) {
        if (i == MISSING) { strcpy(path[i], "/nonexistent/song.mid"); continue; }
        real[i] = memfd_create("song", 0); MC_CHECK(real[i] >= 0 && write(real[i], data[i].b, (size_t)data[i].n) == data[i].n, "harness", "memfd");
        snprintf(path[i], sizeof path[i], "/proc/self/fd/%d", real[i]);
    }
}
static const char *dls_arg(int d) { return d == 1 ? path[BANK] : d == 2 ? path[BADBANK] : "/nonexistent/sounds.dls"; }
/* ---- the program ---- */
typedef struct { int d, r, w, n, f[3]; int help, bad; } cmd;
typedef struct { int code; u8 *out; size_t n; char err[400]; } result;
static result run(const cmd *c, long limit) {
    char *av[16]; int n = 0; av[n++] = (char *)"sonivoxrender";
    if (c->d) { av[n++] = (char *)"-d"; av[n++] = (char *)dls_arg(c->d); }
    if (OPT_R[c->r]) { av[n++] = (char *)"-r"; av[n++] = (char *)OPT_R[c->r]; }
    if (OPT_W[c->w]) { av[n++] = (char *)"-w"; av[n++] = (char *)OPT_W[c->w]; }
    if (c->help) av[n++] = (char *)"-h"; if (c->bad) av[n++] = (char *)"-q";
    for (int i = 0; i < c->n; i++) av[n++] = path[c->f[i]];
    av[n] = NULL;
    int o = memfd_create("out", 0), pe[2], e = pipe2(pe, O_NONBLOCK); fflush(stdout); fflush(stderr);
    pid_t p = fork(); MC_CHECK(p >= 0 && o >= 0 && !e, "harness", "fork");
    if (!p) {
        dup2(o, 1); dup2(pe[1], 2);
        if (limit >= 0) { struct rlimit l = { (rlim_t)limit, (rlim_t)limit }; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); }
        optind = 0; int rc = sonivoxrender(n, av); int bad = fflush(stdout) != 0; (void)bad; _exit(rc & 255);
    }
    int st; while (waitpid(p, &st, 0) < 0) ;
    result r; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -(int)WTERMSIG(st);
    off_t z = lseek(o, 0, SEEK_END); r.n = z > 0 ? (size_t)z : 0; r.out = malloc(r.n + 1); if (r.n && pread(o, r.out, r.n, 0) != (ssize_t)r.n) mc_fail("harness", "pread");
    ssize_t k = read(pe[0], r.err, sizeof r.err - 1); r.err[k > 0 ? k : 0] = 0; close(o); close(pe[0]); close(pe[1]);
    return r;
}
/* ---- what should come out: the same through the library ---- */
static u8 *want; static size_t nwant, cap; static EAS_FILE wf; static mc_file wm;
static void put(const void *p, size_t n) { if (nwant + n > cap) { cap = (nwant + n) * 2; want = realloc(want, cap); } memcpy(want + nwant, p, n); nwant += n; }
static int begin(const cmd *c) {
    int rv = c->r ? atoi(OPT_R[c->r]) : 0, wet = c->w ? atoi(OPT_W[c->w]) : 0;
    sut_init(); EAS_FILE df; mc_file dm;
    if (c->d == 3) return 0;
    if (c->d) { int i = c->d == 1 ? BANK : BADBANK; if (EAS_LoadDLSCollection(E, NULL, sut_file(&df, &dm, data[i].b, data[i].n)) != EAS_SUCCESS) return 0; }
    EAS_RESULT a = EAS_SetParameter(E, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, wet), b = rv ? EAS_SetParameter(E, EAS_MODULE_REVERB, EAS_PARAM_REVERB_PRESET, rv - 1) : EAS_SUCCESS, x = EAS_SetParameter(E, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, !rv);
    MC_CHECK(!a && !b && !x, "library", "the reverb settings are refused: %ld %ld %ld", (long)a, (long)b, (long)x);
    return 1;
}
static int play(int f) {
    EAS_HANDLE h = NULL; EAS_I32 len = 0; int ok = 1; EAS_STATE s;
    if (f == MISSING || EAS_OpenFile(E, sut_file(&wf, &wm, data[f].b, data[f].n), &h) != EAS_SUCCESS) return 0;
    if (EAS_Prepare(E, h) != EAS_SUCCESS || EAS_ParseMetaData(E, h, &len) != EAS_SUCCESS || !len) ok = 0;
    for (int i = 0; ok && i < 2000; i++) {
        MC_CHECK(EAS_State(E, h, &s) == EAS_SUCCESS, "library", "no state"); if (s == EAS_STATE_STOPPED || s == EAS_STATE_ERROR) break;
        sut_render(); put(PCM, (size_t)FRAME * 4);
    }
    if (EAS_CloseFile(E, h) != EAS_SUCCESS) ok = 0;
    return ok;
}
static int over(int code) { MC_CHECK(EAS_Shutdown(E) == EAS_SUCCESS, "library", "EAS_Shutdown failed"); return code; }
/* exit code; the sound is in want */
static int expected(const cmd *c) {
    nwant = 0; if (c->help || c->bad || c->r >= 6 || c->w >= 5) return 1;
    if (c->r < 2) {            /* without reverb nothing of one file reaches the next */
        if (!begin(c)) return over(1);
        for (int i = 0; i < c->n; i++) { if (i) { over(0); begin(c); } if (!play(c->f[i])) return over(1); }
        return over(0);
    }
    if (!begin(c)) return over(1);
    for (int i = 0; i < c->n; i++) if (!play(c->f[i])) return over(1);
    return over(0);
}
static void compare(const cmd *c, const result *r, int code) {
    MC_CHECK(r->code == code, "exit", "exit code %d, expected %d; it said: %s", r->code, code, r->err);
    if (code) MC_CHECK(r->err[0], "message", "it fails without a word");
    size_t k = 0, m = r->n < nwant ? r->n : nwant; while (k < m && r->out[k] == want[k]) k++;
    MC_CHECK(r->n == nwant && k == m, "output", "%zu bytes written, expected %zu; they differ from byte %zu on", r->n, nwant, k);
}
static int nseq(void) { return 1 + NFILE + NFILE * NFILE + (LEN == 3 ? NFILE * NFILE * NFILE : 0); }
static void sequence(cmd *c, u64 i) { u64 k = NFILE; c->n = 0; if (!i) return; i--; c->n = 1; while (i >= k) { i -= k; k *= NFILE; c->n++; } for (int j = 0; j < c->n; j++) { c->f[j] = (int)(i % NFILE); i /= NFILE; } }
static cmd decode(u64 i) { cmd c = { 0 }; c.d = (int)(i % ND); i /= ND; c.r = (int)(i % NRV); i /= NRV; c.w = (int)(i % NW); i /= NW; sequence(&c, i); return c; }
static void options(u64 i) { cmd c = decode(i); int code = expected(&c); result r = run(&c, -1); compare(&c, &r, code); free(r.out); }
static void options_describe(u64 i, char *o, size_t n) { cmd c = decode(i); int k = snprintf(o, n, "sonivoxrender%s%s%s%s%s%s", c.d ? " -d " : "", c.d ? OPT_D[c.d] : "", c.r ? " -r " : "", c.r ? OPT_R[c.r] : "", c.w ? " -w " : "", c.w ? OPT_W[c.w] : ""); for (int j = 0; j < c.n; j++) k += snprintf(o + k, n - (size_t)k, "%s %s", j ? "," : "", FNAME[c.f[j]]); }
/* usage and unknown options: nothing is played */
static void usage(u64 i) { cmd c = { 0 }; c.help = i & 1; c.bad = !c.help; c.r = i & 2 ? 2 : 0; if (i & 4) { c.n = 1; c.f[0] = SONG; } int code = expected(&c); result r = run(&c, -1); compare(&c, &r, code); free(r.out); }
static void usage_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%s%s%s", i & 1 ? "-h" : "-q", i & 2 ? " -r 1" : "", i & 4 ? " song" : ""); }
/* the output takes no more at every point */
static void full(u64 i) {
    static const cmd C[] = { { .n = 1, .f = { SONG } }, { .n = 2, .f = { SONG, OTHER } }, { .r = 3, .w = 3, .n = 1, .f = { SONG } } };
    cmd c = C[i % 3]; long at = (long)(i / 3) * 512; expected(&c);
    if (at > (long)nwant + 1024) mc_skip();
    result r = run(&c, at); size_t exp = (size_t)at < nwant ? (size_t)at : nwant;
    MC_CHECK(r.n <= nwant && !memcmp(r.out, want, r.n), "output", "what was written is not the beginning of the sound");
    MC_CHECK(r.n <= exp, "harness", "more written than allowed");
    if (r.n < nwant && r.code == 0 && !r.err[0] && !memcmp(r.out, want, r.n)) mc_fail("write-failure-ignored", "only %zu of %zu bytes could be written, but the exit code is 0 and nothing is said", r.n, nwant);
    else if (r.n < nwant) MC_CHECK(r.code == 1 && r.err[0], "lost", "only %zu of %zu bytes could be written, but the exit code is %d and it says: \"%s\"", r.n, nwant, r.code, r.err);
    else MC_CHECK(r.code == 0, "exit", "everything was written, but the exit code is %d; it said: %s", r.code, r.err);
    free(r.out);
}
static void full_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%s, the output takes %ld bytes", (const char *[]){ "one song", "two songs", "one song with reverb" }[i % 3], (long)(i / 3) * 512); }
void mc_body(void) {
    build();
    int frames = 0; { mc_snap *s = mc_save(NULL); int *k = mc_big(sizeof *k); cmd c = { .n = 2, .f = { SONG, OTHER } }; int e = expected(&c); MC_CHECK(!e && nwant > 40 * 1024, "harness", "the songs give %zu bytes", nwant); *k = (int)(nwant / 512); mc_restore(s); mc_snap_free(s); frames = *k; }
    mc_bound("every combination of %d sets of sounds, %d reverb options and %d wet options with every sequence of up to %d of %d files, good and broken; usage and unknown options; an output that takes no more at every half frame of three runs", ND, NRV, NW, LEN, NFILE);
    mc_space a = { .name = "options", .n = (u64)ND * NRV * NW * (u64)nseq(), .run = options, .describe = options_describe }; mc_enumerate(&a);
    mc_space b = { .name = "usage", .n = 8, .run = usage, .describe = usage_describe }; mc_enumerate(&b);
    mc_space f = { .name = "output full", .n = 3 * (u64)(frames + 4), .run = full, .describe = full_describe }; mc_enumerate(&f);
}
