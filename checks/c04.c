/* C04: reads that fail. Every read of every scenario fails in turn, once or from then on, in four ways. */
#include "robust.h"
const char mc_property[] = "C04";
static bytes song, song0, bank; static int level, *lv;
static EAS_FILE sf, bf; static mc_file sm, bm;
static int errors, quiet_;          /* frames with an error; the live stream's note is on */
static EAS_HANDLE L;
static void frame_(void) {
    EAS_RESULT r = soft_render();
    if (r != EAS_SUCCESS) { errors++; return; }
    if (quiet_) return;
    int a = rb[64 + FRAME * 2 - 2], b = rb[64 + FRAME * 2 - 1]; (void)b;
    MC_CHECK(abs(a - level) <= 24, "other-stream", "the note of another stream is at %d, the output is %d", level, a);
}
static void meta_cb(E_EAS_METADATA_TYPE t, char *s, EAS_VOID_PTR u) { (void)t; (void)u; MC_CHECK(strlen(s) < 16, "metadata", "metadata longer than the buffer"); }
static EAS_HANDLE open_(EAS_FILE *f, mc_file *m, const bytes *b) { EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(f, m, b->b, b->n), &h); if (r != EAS_SUCCESS) { MC_CHECK(h == NULL || 1, "x", "x"); return NULL; } return h; }
static void end_(EAS_HANDLE h) { if (h) { EAS_RESULT r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseFile returned %ld", (long)r); } }
/* ---- scenarios; the songs of files play at velocity 1 on a silent channel, so that only the live note is heard */
static void s_play(void) {
    EAS_HANDLE h = open_(&sf, &sm, &song); if (!h) return; EAS_I32 t;
    if (EAS_Prepare(E, h) == EAS_SUCCESS) { for (int i = 0; i < 30; i++) frame_(); EAS_GetLocation(E, h, &t); }
    end_(h);
}
static void s_locate(void) {
    EAS_HANDLE h = open_(&sf, &sm, &song); if (!h) return; EAS_I32 t; EAS_STATE st;
    if (EAS_Prepare(E, h) == EAS_SUCCESS) { EAS_ParseMetaData(E, h, &t); frame_(); EAS_Locate(E, h, 60, EAS_FALSE); frame_(); frame_(); EAS_Locate(E, h, 20, EAS_FALSE); frame_(); EAS_State(E, h, &st); }
    end_(h);
}
static void s_repeat(void) {
    EAS_HANDLE h = open_(&sf, &sm, &song0); if (!h) return; static char buf[16]; static char *bp = buf; (void)bp;
    EAS_RegisterMetaDataCallback(E, h, meta_cb, buf, sizeof buf, NULL); EAS_SetRepeat(E, h, 3);
    if (EAS_Prepare(E, h) == EAS_SUCCESS) for (int i = 0; i < 40; i++) frame_();
    end_(h);
}
static void s_dls(void) { EAS_RESULT r = EAS_LoadDLSCollection(E, NULL, sut_file(&bf, &bm, bank.b, bank.n)); mc_outcome((u64)(r != 0)); for (int i = 0; i < 3; i++) frame_(); }
static void s_dls_stream(void) {
    EAS_HANDLE h = open_(&sf, &sm, &song); if (!h) return;
    if (EAS_Prepare(E, h) == EAS_SUCCESS) { frame_(); EAS_LoadDLSCollection(E, h, sut_file(&bf, &bm, bank.b, bank.n)); for (int i = 0; i < 6; i++) frame_(); }
    end_(h);
}
static void (*const SC[])(void) = { s_play, s_locate, s_repeat, s_dls, s_dls_stream };
static const char *SN[] = { "play", "seek", "repeat with metadata", "load a collection", "load a collection for a file" };
#define NSC 5
static long ncalls[NSC], nsize[NSC], *nc;
static int sc;
static void run_sc(long at, int mode, int sticky) {
    sut_init(); sut_dry(); sut_dls(NULL, &bank); L = sut_midi(); sut_w3(L, 0x90, 60, 127); sut_render(); sut_render(); quiet_ = errors = 0;
    mc_iofault z; memset(&z, 0, sizeof z); mc_io = z; mc_io.fail_at = at; mc_io.mode = mode; mc_io.sticky = sticky;
    SC[sc]();
}
static const int MODES[] = { IO_FAIL_ZERO, IO_FAIL_NEG, IO_SHORT, IO_SIZE_SHRINK };
static const char *MN[] = { "yields nothing", "yields an error", "comes up short", "sees the file shrunk to half" };
static u64 ncases(void) { return (u64)ncalls[sc] * 12 + (u64)nsize[sc]; }
static const int STK[] = { 0, 1, 2, 4 };
static void split(u64 i, long *at, int *m, int *st) { if (i < (u64)ncalls[sc] * 12) { *at = (long)(i / 12) + 1; *m = (int)(i % 3); *st = STK[i / 3 % 4]; } else { *at = (long)(i - (u64)ncalls[sc] * 12) + 1; *m = 3; *st = 1; } }
static void describe(u64 i, char *b, size_t n) { long at; int m, st; split(i, &at, &m, &st); snprintf(b, n, "%s: read %ld%s %s", SN[sc], at, st == 1 ? " and all later ones" : st == 2 ? " and the next" : st == 4 ? " and the next three" : "", MN[m]); }
static void run(u64 i) {
    long at; int m, st; split(i, &at, &m, &st);
    run_sc(at, MODES[m], st);
    MC_CHECK(errors <= 2, "errors-stay", "%d frames failed because of one file", errors);
    mc_io.mode = IO_OK;
    { frame_(); frame_(); sut_w3(L, 0x80, 60, 0); sut_render(); sut_render(); MC_CHECK(pcm_silent(), "hanging", "after closing the file sound remains"); EAS_CloseMIDIStream(E, L); }
    /* nothing is left open or allocated */
    EAS_RESULT r;
    { EAS_HANDLE h[4]; for (int k = 0; k < 4; k++) { r = EAS_OpenFile(E, sut_file(&sf, &sm, song.b, song.n), &h[k]); MC_CHECK(r == EAS_SUCCESS, "streams-lost", "only %d files can be opened afterwards", k); } for (int k = 0; k < 4; k++) EAS_CloseFile(E, h[k]); }
    sut_dls(NULL, &bank);
    probe("after the fault"); all_done();
}
void mc_body(void) {
    static const dc_note t[] = { { 0, 0, 60, 60, 900 }, { 0, 1, 0, 60, 330 }, { 0, 1, 61, 127, 770 } };
    dc_bank(&bank, t, 3, dls_flat, dls_nflat);
    smf_head(&song, 1, 2, 96); int m = smf_trk(&song); smf_tempo(&song, 0, 300000); smf_meta(&song, 0, 3, "name", 4); smf_ev2(&song, 0, 0xc0, 1); smf_ev3(&song, 0, 0xb0, 7, 0);
    smf_ev3(&song, 1, 0x90, 60, 1); smf_ev3(&song, 10, 0xe0, 0, 80); u8 sx[] = { 0xf0, 6, 0x7e, 0x7f, 9, 3, 1, 0xf7 }; smf_ev(&song, 3, sx, 8); smf_ev3(&song, 0, 0xb0, 7, 0); smf_ev3(&song, 4, 0x80, 60, 0); smf_eot(&song, 30); smf_endtrk(&song, m);
    m = smf_trk(&song); smf_ev3(&song, 0, 0xb1, 7, 0); smf_ev3(&song, 5, 0x91, 72, 9); smf_tempo(&song, 9, 200000); smf_ev3(&song, 9, 0x81, 72, 9); smf_eot(&song, 30); smf_endtrk(&song, m);
    smf_head(&song0, 0, 1, 96); m = smf_trk(&song0); smf_meta(&song0, 0, 3, "a name that is too long for the buffer", 38); smf_ev3(&song0, 0, 0xb0, 7, 0); smf_ev3(&song0, 1, 0x90, 60, 1); smf_ev3(&song0, 5, 0x80, 60, 1); smf_eot(&song0, 1); smf_endtrk(&song0, m);
    good_make();
    /* the probe plays with the collection loaded: record it so */
    goodh = mc_big(sizeof *goodh); nc = mc_big(sizeof(long) * 16); lv = mc_big(sizeof *lv);
    mc_snap *s = mc_save(NULL); u64 *k = goodh; sut_init(); sut_dry(); sut_dls(NULL, &bank); u64 h = good_play(); *k = h; mc_restore(s);
    sut_init(); sut_dry(); sut_dls(NULL, &bank); L = sut_midi(); sut_w3(L, 0x90, 60, 127); sut_render(); sut_render(); *lv = sut_last(0); mc_restore(s); level = *lv;
    for (sc = 0; sc < NSC; sc++) { int c = sc; quiet_ = 0; run_sc(0, IO_OK, 0); nc[c] = mc_io.calls; nc[8 + c] = mc_io.size_calls; mc_restore(s); sc = c; level = *lv; }
    for (sc = 0; sc < NSC; sc++) ncalls[sc] = nc[sc], nsize[sc] = nc[8 + sc];
    for (sc = 0; sc < NSC; sc++) {
        mc_bound("%s: each of %ld reads fails once, for 2 or 4 reads or from then on, in 3 ways, and the file shrinks at each of %ld size queries", SN[sc], ncalls[sc], nsize[sc]);
        mc_space x = { .name = SN[sc], .n = ncases(), .run = run, .describe = describe, .cpu_limit = 10 }; mc_enumerate(&x);
    }
}
