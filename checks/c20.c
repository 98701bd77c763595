/* C20: an instance is a world of its own, and what it does depends on the calls made to it alone: not on other
 * instances in the process, living or gone, nor on what fresh memory happens to contain. */
#include "sut.h"
const char mc_property[] = "C20";
#define NK 6
#define NS 10
typedef struct { EAS_DATA_HANDLE e; EAS_HANDLE f, h, g; EAS_FILE ef, ed; mc_file mf, md; int kind, pos; } client;
static client A, B; static u64 *ref; static bytes song, cut, bank, junk, badbank; static EAS_PCM *pcm;
static int smashed = -1;
static __attribute__((noinline)) void smash(int pat) { volatile u8 b[40000]; for (int i = 0; i < (int)sizeof b; i++) b[i] = (u8)pat; }
#define CALL(x) do { if (smashed >= 0) smash(smashed); EAS_RESULT r_ = (x); u64 v_ = (u64)(i64)r_; o = mc_hash(&v_, 8, o); mc_step(1); } while (0)
static u64 rend(client *c, int n, u64 o) {
    for (int i = 0; i < n; i++) { EAS_I32 got = -1; CALL(EAS_Render(c->e, PCM, FRAME, &got)); o = mc_hash(&got, sizeof got, o); o = mc_hash(PCM, sizeof(EAS_PCM) * 2 * (size_t)FRAME, o); }
    return o;
}
static u64 see(client *c, EAS_HANDLE h, u64 o) {
    EAS_I32 t = -1, v[3] = { -1, -1, -1 }; EAS_STATE s = -1; CALL(EAS_GetLocation(c->e, h, &t)); CALL(EAS_State(c->e, h, &s)); CALL(EAS_GetPolyphony(c->e, h, &v[0])); CALL(EAS_GetPriority(c->e, h, &v[1])); v[2] = EAS_GetVolume(c->e, h);
    i64 x[5] = { t, (i64)s, v[0], v[1], v[2] }; return mc_hash(x, sizeof x, o);
}
static u64 wr(client *c, EAS_HANDLE h, u64 o, int n, ...) { u8 t[64]; __builtin_va_list ap; __builtin_va_start(ap, n); for (int i = 0; i < n; i++) t[i] = (u8)__builtin_va_arg(ap, int); __builtin_va_end(ap); CALL(EAS_WriteMIDIStream(c->e, h, t, n)); return o; }
#define W(...) o = wr(c, c->h, o, (int)(sizeof (int[]){ __VA_ARGS__ } / sizeof(int)), __VA_ARGS__)
/* messages in pieces, one per step, with values that differ between the two kinds of such clients */
static u64 piece(client *c, int s) {
    u64 o = 1; int k = c->kind == 5;
    switch (s) {
    case 1: CALL(EAS_OpenMIDIStream(c->e, &c->h, NULL)); W(0xc0, k ? 16 : 19, 0x90, 60 + k, 100, 0xf0, 0x7f, 0x7f); o = rend(c, 1, o); break;
    case 2: W(4, 1, k ? 0x7f : 0); break;
    case 3: W(k ? 0x20 : 0x30, 0xf7); o = rend(c, 2, o); W(0xe0, k ? 127 : 3); break;
    case 4: W(k ? 90 : 20); o = rend(c, 2, o); W(0xf0, 0x7f, 0x7f, 0x0b, 1, k ? 0 : 1); break;
    case 5: W(k ? 3 : 2, k ? 1 : 0, 2); o = rend(c, 1, o); W(0xf7, 0x91, 62 + k); break;
    case 6: W(100, 65 + k); o = rend(c, 1, o); W(90 + k, 0xb0, k ? 101 : 7); break;
    case 7: W(k ? 0 : 70, 100, 0, 6, k ? 7 : 4); o = rend(c, 2, o); W(0x90, 70, k ? 0x40 : 0x7f, 0xf0, 0x7e, 0x7f, 9); break;
    case 8: W(k ? 1 : 3, 0xf7, 0x90, 64 - k); o = rend(c, 1, o); W(100); o = rend(c, 2, o); o = see(c, c->h, o); CALL(EAS_CloseMIDIStream(c->e, c->h)); break;
    }
    return o;
}
/* what client c does in its next step; returns a hash of everything it could see */
static u64 step(client *c) {
    u64 o = 1; EAS_I32 x = -1; EAS_RESULT q;
    int s = c->pos++;
    if (s == 0) { CALL(EAS_Init(&c->e)); return o; }
    if (s == NS - 1) { CALL(EAS_Shutdown(c->e)); c->e = NULL; return o; }
    switch (c->kind * 16 + s) {
    case 1: CALL(EAS_OpenFile(c->e, sut_file(&c->ef, &c->mf, song.b, song.n), &c->f)); CALL(EAS_Prepare(c->e, c->f)); o = rend(c, 1, o); break;
    case 2: CALL(EAS_SetParameter(c->e, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, EAS_FALSE)); CALL(EAS_SetParameter(c->e, EAS_MODULE_REVERB, EAS_PARAM_REVERB_PRESET, 1)); o = rend(c, 3, o); break;
    case 3: CALL(EAS_SetParameter(c->e, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_BYPASS, EAS_FALSE)); CALL(EAS_SetParameter(c->e, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_PRESET, 2)); CALL(EAS_SetParameter(c->e, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_LEVEL, 30)); CALL(EAS_SetVolume(c->e, c->f, 70)); o = rend(c, 3, o); break;
    case 4: CALL(EAS_Locate(c->e, c->f, 60, EAS_FALSE)); o = rend(c, 2, o); o = see(c, c->f, o); break;
    case 5: CALL(EAS_Pause(c->e, c->f)); o = rend(c, 2, o); CALL(EAS_ParseMetaData(c->e, c->f, &x)); o = mc_hash(&x, sizeof x, o); break;
    case 6: CALL(EAS_Resume(c->e, c->f)); CALL(EAS_SetPlaybackRate(c->e, c->f, 1 << 29)); CALL(EAS_SetTransposition(c->e, c->f, -3)); CALL(EAS_SetRepeat(c->e, c->f, 1)); o = rend(c, 3, o); break;
    case 7: CALL(EAS_SetVolume(c->e, NULL, 40)); CALL(EAS_SetMaxLoad(c->e, 300)); o = rend(c, 4, o); o = see(c, c->f, o); break;
    case 8: CALL(EAS_CloseFile(c->e, c->f)); o = rend(c, 1, o); break;
    case 17: CALL(EAS_OpenMIDIStream(c->e, &c->h, NULL)); W(0xc0, 48, 0x90, 60, 100, 0x99, 38, 90); o = rend(c, 1, o); break;
    case 18: W(0x91, 62, 100, 64, 90, 67, 80); W(0xe1, 0, 100); W(0xf0, 0x7e, 0x7f); o = rend(c, 2, o); break;
    case 19: W(9, 1, 0xf7); o = rend(c, 1, o); W(0xb0, 64, 127, 0x90, 60, 100, 0x80, 60, 0); o = rend(c, 2, o); break;
    case 20: CALL(EAS_LoadDLSCollection(c->e, NULL, sut_file(&c->ed, &c->md, bank.b, bank.n))); CALL(EAS_OpenMIDIStream(c->e, &c->g, NULL)); o = wr(c, c->g, o, 3, 0x90, 60, 100); o = rend(c, 2, o); break;
    case 21: CALL(EAS_SetPolyphony(c->e, c->h, 2)); W(0x92, 50, 100, 52, 100, 54, 100, 56, 100); o = rend(c, 2, o); o = see(c, c->g, o); break;
    case 22: CALL(EAS_SetPriority(c->e, c->g, 1)); CALL(EAS_SetSynthPolyphony(c->e, 0, 3)); W(0xf0, 0x7f, 0x7f, 0x0b, 1, 0, 1, 9, 2, 1, 2, 0xf7); o = rend(c, 2, o); break;
    case 23: W(0xb0, 91, 127, 0xb0, 93, 120, 0x90, 72, 127); o = rend(c, 3, o); o = see(c, c->h, o); break;
    case 24: CALL(EAS_CloseMIDIStream(c->e, c->h)); o = rend(c, 1, o); CALL(EAS_CloseMIDIStream(c->e, c->g)); break;
    case 33: q = EAS_OpenFile(c->e, sut_file(&c->ef, &c->mf, junk.b, junk.n), &c->f); CALL(q); CALL(EAS_LoadDLSCollection(c->e, NULL, sut_file(&c->ed, &c->md, badbank.b, badbank.n))); break;
    case 34: CALL(EAS_OpenFile(c->e, sut_file(&c->ef, &c->mf, cut.b, cut.n), &c->f)); if (c->f) CALL(EAS_Prepare(c->e, c->f)); o = rend(c, 2, o); break;
    case 35: CALL(EAS_OpenMIDIStream(c->e, &c->h, NULL)); W(0xf7, 5, 0x90, 60); o = rend(c, 1, o); break;
    case 36: W(100, 0xc9, 25, 0x99, 40, 127, 42, 100); CALL(EAS_Locate(c->e, c->f, 1 << 20, EAS_FALSE)); o = rend(c, 3, o); break;
    case 37: CALL(EAS_Locate(c->e, c->f, 0, EAS_FALSE)); CALL(EAS_SetVolume(c->e, c->f, 101)); CALL(EAS_SetPlaybackRate(c->e, c->f, 1)); o = rend(c, 2, o); break;
    case 38: CALL(EAS_SetParameter(c->e, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, EAS_FALSE)); CALL(EAS_SetParameter(c->e, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, 32767)); o = rend(c, 4, o); o = see(c, c->f, o); break;
    case 39: CALL(EAS_LoadDLSCollection(c->e, c->h, sut_file(&c->ed, &c->md, bank.b, bank.n))); W(0xb9, 0, 0x79, 0xc0, 0, 0x90, 60, 100); o = rend(c, 3, o); break;
    case 40: CALL(EAS_Pause(c->e, c->f)); o = rend(c, 1, o); o = see(c, c->f, o); break;          /* leaves everything open for EAS_Shutdown */
    case 49: CALL(EAS_OpenFile(c->e, sut_file(&c->ef, &c->mf, song.b, song.n), &c->f)); CALL(EAS_LoadDLSCollection(c->e, c->f, sut_file(&c->ed, &c->md, bank.b, bank.n))); CALL(EAS_Prepare(c->e, c->f)); o = rend(c, 2, o); break;
    case 50: CALL(EAS_OpenMIDIStream(c->e, &c->h, c->f)); W(0x90, 40, 100, 0x99, 40, 100); o = rend(c, 3, o); break;
    case 51: W(0xb0, 101, 0, 100, 0, 6, 12, 0xe0, 0, 0, 0xc0, 80, 0x90, 50, 90); o = rend(c, 3, o); break;
    case 52: for (int k = 0; k < 24; k++) W(0x93, 40 + k, 100, 0x94, 40 + k, 100, 0x95, 40 + k, 90); o = rend(c, 2, o); break;
    case 53: for (int k = 0; k < 24; k++) W(0x83, 40 + k, 0); W(0xd4, 90, 0xb4, 1, 127); o = rend(c, 4, o); break;
    case 54: CALL(EAS_ParseMetaData(c->e, c->f, &x)); o = mc_hash(&x, sizeof x, o); CALL(EAS_Locate(c->e, c->f, 30, EAS_TRUE)); o = rend(c, 2, o); o = see(c, c->h, o); break;
    case 55: W(0xff, 0x90, 44, 100); o = rend(c, 2, o); CALL(EAS_CloseMIDIStream(c->e, c->h)); o = rend(c, 2, o); break;
    case 56: CALL(EAS_CloseFile(c->e, c->f)); CALL(EAS_OpenFile(c->e, sut_file(&c->ef, &c->mf, song.b, song.n), &c->f)); CALL(EAS_Prepare(c->e, c->f)); o = rend(c, 3, o); break;
    default: if (c->kind >= 4) return piece(c, s); mc_fail("harness", "no step %d of kind %d", s, c->kind);
    }
    return o;
}
static const char *KN[NK] = { "file player", "live player", "unlucky user", "DLS file with live stream", "writer of pieces", "another writer of pieces" };
static void check(client *c, const char *who) { int s = c->pos; u64 h = step(c); if (h != ref[c->kind * NS + s]) mc_fail("differs", "%s (%s), step %d: results or sound are not those of the same calls made alone in fresh memory", who, KN[c->kind], s); }
/* ---- all interleavings of two clients ---- */
static int kA, kB;
static void setup(void) { memset(&A, 0, sizeof A); memset(&B, 0, sizeof B); A.kind = kA; B.kind = kB; mc_fill(-1); }
static int i_enabled(int o, int at) { (void)at; return (o ? &B : &A)->pos < NS; }
static void i_apply(int o) { check(o ? &B : &A, o ? "client B" : "client A"); }
static const char *i_name(int o) { return o ? "B" : "A"; }
static void i_leaf(void) { while (A.pos < NS) check(&A, "client A"); while (B.pos < NS) check(&B, "client B"); }
/* ---- one client and every history of another instance ---- */
enum { STEP, INIT, SHUT, OPENF, CLOSEF, OPENL, CLOSEL, NOTE, MANY, REND, LOC, PAUSE, DLS, DLSL, BAD, REV, CHO, VOL, LOAD, POLY, SPOLY, SYX, MIPM, LEN, NOPS };
static const char *h_name(int o) { static const char *N[] = { "A's next step", "init B", "shut down B", "B: open file", "B: close file", "B: open stream", "B: close stream", "B: note", "B: 70 notes", "B: render 3", "B: locate", "B: pause", "B: load collection", "B: load collection for the stream", "B: open junk", "B: reverb", "B: chorus", "B: volume 0", "B: max load 1", "B: polyphony 1", "B: synth polyphony 1", "B: half a SysEx", "B: MIP message", "B: measure" }; return N[o]; }
static int h_enabled(int o, int at) {
    (void)at; if (o == STEP) return A.pos < NS - 1; if (o == INIT) return !B.e; if (!B.e) return 0;
    if (o == OPENF) return !B.f; if (o == CLOSEF || o == LOC || o == PAUSE || o == LEN) return B.f != NULL; if (o == OPENL) return !B.h;
    if (o == CLOSEL || o == NOTE || o == MANY || o == POLY || o == SYX || o == MIPM || o == DLSL) return B.h != NULL; return 1;
}
static void h_apply(int op) {
    client *c = &B; u64 o = 0; EAS_I32 x;
    switch (op) {
    case STEP: check(&A, "client A"); break;
    case INIT: CALL(EAS_Init(&B.e)); break; case SHUT: CALL(EAS_Shutdown(B.e)); memset(&B, 0, sizeof B); break;
    case OPENF: CALL(EAS_OpenFile(B.e, sut_file(&B.ef, &B.mf, song.b, song.n), &B.f)); CALL(EAS_Prepare(B.e, B.f)); break; case CLOSEF: CALL(EAS_CloseFile(B.e, B.f)); B.f = NULL; break;
    case OPENL: CALL(EAS_OpenMIDIStream(B.e, &B.h, NULL)); break; case CLOSEL: CALL(EAS_CloseMIDIStream(B.e, B.h)); B.h = NULL; break;
    case NOTE: W(0xc0, 19, 0x90, 60, 127, 0xb0, 64, 127); break; case MANY: for (int k = 0; k < 35; k++) W(0x90, 40 + k, 100, 0x99, 35 + k, 100); break;
    case REND: rend(c, 3, 0); break; case LOC: CALL(EAS_Locate(B.e, B.f, 50, EAS_FALSE)); break; case PAUSE: CALL(EAS_Pause(B.e, B.f)); break;
    case DLS: CALL(EAS_LoadDLSCollection(B.e, NULL, sut_file(&B.ed, &B.md, bank.b, bank.n))); break; case DLSL: CALL(EAS_LoadDLSCollection(B.e, B.h, sut_file(&B.ed, &B.md, bank.b, bank.n))); break;
    case BAD: { EAS_HANDLE h; EAS_FILE f; mc_file m; CALL(EAS_OpenFile(B.e, sut_file(&f, &m, junk.b, junk.n), &h)); CALL(EAS_LoadDLSCollection(B.e, NULL, sut_file(&f, &m, badbank.b, badbank.n))); break; }
    case REV: CALL(EAS_SetParameter(B.e, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, EAS_FALSE)); CALL(EAS_SetParameter(B.e, EAS_MODULE_REVERB, EAS_PARAM_REVERB_PRESET, 0)); break;
    case CHO: CALL(EAS_SetParameter(B.e, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_BYPASS, EAS_FALSE)); CALL(EAS_SetParameter(B.e, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_PRESET, 3)); CALL(EAS_SetParameter(B.e, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_LEVEL, 100)); break;
    case VOL: CALL(EAS_SetVolume(B.e, NULL, 0)); break; case LOAD: CALL(EAS_SetMaxLoad(B.e, 1)); break; case POLY: CALL(EAS_SetPolyphony(B.e, B.h, 1)); break; case SPOLY: CALL(EAS_SetSynthPolyphony(B.e, 0, 1)); break;
    case SYX: W(0xf0, 0x7f, 0x7f, 4, 1, 0); break; case MIPM: W(0xf0, 0x7f, 0x7f, 0x0b, 1, 0, 1, 9, 1, 0xf7); break; case LEN: CALL(EAS_ParseMetaData(B.e, B.f, &x)); break;
    }
}
static void h_leaf(void) {
    while (A.pos < NS) check(&A, "client A");
    if (B.e) { u64 o = 0; CALL(EAS_Shutdown(B.e)); }
    MC_CHECK(mc_live() == 0, "leak", "%ld blocks are still allocated after all instances were shut down", mc_live());
    int k = A.kind; memset(&A, 0, sizeof A); A.kind = k; while (A.pos < NS) check(&A, "a later instance");
}
/* ---- what fresh memory and the stack contain ---- */
static void fills(u64 i) {
    int fill = (int)(i % 257) - 1, st = (int)(i / 257 % 4), k = (int)(i / 257 / 4); static const int ST[] = { -1, 0, 0xff, 0x5a };
    mc_fill(fill); smashed = ST[st]; memset(&A, 0, sizeof A); A.kind = k; while (A.pos < NS) check(&A, "client"); smashed = -1;
    for (int s = 0; s < 2; s++) { mc_fill(-1); memset(&A, 0, sizeof A); A.kind = k; while (A.pos < NS) check(&A, "a later client"); }
}
static void fills_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%s, fresh blocks filled with %d, stack with %d", KN[i / 257 / 4], (int)(i % 257) - 1, (int)(i / 257 % 4)); }
void mc_body(void) {
    smf_head(&song, 1, 2, 100); int m = smf_trk(&song); smf_tempo(&song, 0, 400000); smf_ev2(&song, 0, 0xc0, 10); smf_ev3(&song, 1, 0x90, 60, 100); smf_ev3(&song, 4, 0xb0, 64, 127); smf_ev3(&song, 1, 0x80, 60, 0); smf_ev3(&song, 6, 0x90, 64, 100); smf_ev3(&song, 8, 0xb0, 64, 0); smf_ev3(&song, 10, 0x90, 67, 100); smf_eot(&song, 30); smf_endtrk(&song, m);
    m = smf_trk(&song); smf_ev2(&song, 0, 0xc1, 40); smf_ev3(&song, 0, 0x91, 48, 110); smf_ev3(&song, 3, 0x99, 36, 120); smf_ev3(&song, 10, 0xe1, 0, 80); smf_ev3(&song, 3, 0x99, 46, 120); smf_ev3(&song, 20, 0x81, 48, 0); smf_eot(&song, 10); smf_endtrk(&song, m);
    by_put(&cut, song.b, song.n - 60); by_put(&junk, "RIFFjunkMThd\0\0\0", 15);
    static const dc_note t[] = { { 0, 0, 0, 127, 3000 }, { 0, 1, 0, 127, 700 }, { 0x80000000, 0, 0, 127, 1200 } }; dc_bank(&bank, t, 3, dls_flat, dls_nflat); by_put(&badbank, bank.b, bank.n - 200);
    FRAME = (int)EAS_Config()->mixBufferSize; u64 *r = ref = mc_big(sizeof(u64) * NK * NS); pcm = mc_big(sizeof *pcm);
    for (int k = 0; k < NK; k++) { mc_snap *s = mc_save(NULL); mc_fill(0); memset(&A, 0, sizeof A); A.kind = k; while (A.pos < NS) { int p = A.pos; u64 h = step(&A); r[k * NS + p] = h; } mc_restore(s); mc_snap_free(s); ref = r; }
    ref = r; int d = mc_thorough ? 6 : 5;
    mc_bound("all interleavings of the 10 steps of two clients for all pairs of 6 kinds (two of them write messages in pieces, a piece a step, with different values); every sequence of up to %d of 24 operations on a second instance and steps of the first, for 3 kinds, and the same client again afterwards in used memory; 257 contents of fresh heap blocks times 4 of the stack", d);
    mc_space f = { .name = "fresh memory", .n = 257 * 4 * NK, .run = fills, .describe = fills_describe }; mc_enumerate(&f);
    for (kA = 0; kA < NK; kA++) for (kB = kA; kB < NK; kB++) {
        char nm[90]; snprintf(nm, sizeof nm, "interleavings: %s, %s", KN[kA], KN[kB]);
        mc_model x = { .name = nm, .nops = 2, .depth = 20, .setup = setup, .enabled = i_enabled, .apply = i_apply, .leaf = i_leaf, .leaf_only_final = 1, .opname = i_name, .dedupe = 1 }; mc_explore(&x);
    }
    for (kA = 0; kA < 4; kA++) { if (kA == 2) continue; char nm[90]; snprintf(nm, sizeof nm, "another instance beside: %s", KN[kA]); mc_model x = { .name = nm, .nops = NOPS, .depth = d, .setup = setup, .enabled = h_enabled, .apply = h_apply, .leaf = h_leaf, .opname = h_name, .dedupe = 1 }; mc_explore(&x); }
}
