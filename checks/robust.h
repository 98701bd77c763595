/* Common parts of the checks that feed broken input or a broken environment to the library: a known-good file that
 * has to play exactly as on a fresh instance afterwards, and clean-up accounting. */
#ifndef ROBUST_H
#define ROBUST_H
#include "sut.h"
#define PROBE_FRAMES 12
static bytes good; static u64 *goodh;        /* reference recording, outside the state */
static void good_make(void) {
    if (good.n) return;
    smf_head(&good, 1, 2, 96);
    int m = smf_trk(&good); smf_tempo(&good, 0, 300000); smf_ev2(&good, 0, 0xc0, 5); smf_ev3(&good, 1, 0x90, 60, 100); smf_ev3(&good, 10, 0xe0, 0, 80); smf_ev3(&good, 4, 0x80, 60, 0); smf_eot(&good, 30); smf_endtrk(&good, m);
    m = smf_trk(&good); smf_ev3(&good, 0, 0x99, 38, 90); smf_ev3(&good, 5, 0xb1, 7, 80); smf_ev3(&good, 1, 0x91, 72, 90); smf_eot(&good, 30); smf_endtrk(&good, m);
}
static EAS_FILE gfile; static mc_file gmem;
static u64 good_play(void) {
    u64 h = 1; EAS_RESULT r;
    EAS_HANDLE f = sut_open(sut_file(&gfile, &gmem, good.b, good.n));
    for (int i = 0; i < PROBE_FRAMES; i++) h = sut_render_hash(h);
    r = EAS_CloseFile(E, f); MC_CHECK(r == EAS_SUCCESS, "probe-close", "closing a good file returned %ld", (long)r);
    return h;
}
static void good_record(void) {
    good_make(); goodh = mc_big(sizeof *goodh);
    mc_snap *s = mc_save(NULL); sut_init(); sut_dry(); u64 h = good_play(); u64 *k = goodh; mc_restore(s); good_make(); goodh = k; *goodh = h;
}
/* the instance still works, and works as if nothing had happened */
static void probe(const char *after) {
    u64 h = good_play();
    MC_CHECK(h == *goodh, "not-unharmed", "%s: a good file opened afterwards on the same instance does not play as on a fresh one", after);
}
static void all_done(void) {
    EAS_RESULT r = EAS_Shutdown(E); E = NULL;
    MC_CHECK(r == EAS_SUCCESS, "shutdown", "EAS_Shutdown returned %ld", (long)r);
    MC_CHECK(mc_live() == 0, "leak", "%ld blocks (%ld bytes) are still allocated after EAS_Shutdown", mc_live(), mc_live_bytes());
}
/* a frame whose result may be an error (a broken file), but never anything else */
static EAS_PCM rb[PCM_MAX + 128];
static EAS_RESULT soft_render(void) {
    EAS_I32 got = -1; for (int i = 0; i < 64; i++) rb[i] = rb[64 + FRAME * 2 + i] = (EAS_PCM)0x5a5a;
    EAS_RESULT r = EAS_Render(E, rb + 64, FRAME, &got); mc_step(1);
    for (int i = 0; i < 64; i++) MC_CHECK(rb[i] == 0x5a5a && rb[64 + FRAME * 2 + i] == 0x5a5a, "render-overrun", "EAS_Render wrote outside the frame");
    if (r == EAS_SUCCESS) MC_CHECK(got == FRAME || got == 0, "render-count", "EAS_Render produced %ld of %d samples", (long)got, FRAME);
    return r;
}
#endif
