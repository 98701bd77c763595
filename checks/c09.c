/* C09: seeking. After any history, a seek leaves the player as if the file had been played up to that point. */
#include "player.h"
const char mc_property[] = "C09";
static const double AT[] = { 0, 40, 137, 203, 246, 330, 900 };
static const double OFF[] = { -60, -1, 45, 120, 2000, -3000 };
enum { NAT = 7, NOFF = 6, R1 = NAT + NOFF, R2, R9, R30, NOPS };
static const char *opname(int o) {
    static char b[40];
    if (o < NAT) snprintf(b, sizeof b, "seek to %g ms", AT[o]); else if (o < R1) snprintf(b, sizeof b, "seek by %g ms", OFF[o - NAT]);
    else snprintf(b, sizeof b, "render %d", o == R1 ? 1 : o == R2 ? 2 : o == R9 ? 9 : 30);
    return b;
}
static void apply(int o) {
    if (o < NAT) player_locate(AT[o], 0, 0); else if (o < R1) player_locate(0, 1, OFF[o - NAT]);
    else for (int n = o == R1 ? 1 : o == R2 ? 2 : o == R9 ? 9 : 30; n; n--) player_frame();
}
static int song;
static void setup(void) { player_start(song); }
/* to the very start: what stands at time 0 of the song is played again */
enum { ZF = 60, ZW = 4, ZP = 3, ZK = 5, ZCH = 3 };
static void d_zero(u64 i, char *b, size_t n) {
    static const char *w[] = { "to 0 ms", "back by the time reported", "back by 100 s", "to -5 ms" }, *p[] = { "playing", "paused", "paused and rendered" }, *k[] = { "notes first", "tempo first", "programs first", "a setup bar first", "notes in the second track" };
    snprintf(b, n, "%d frames, %s, seek %s; %s; %d notes at time 0", (int)(i % ZF) + 1, p[i / ZF / ZW % ZP], w[i / ZF % ZW], k[i / ZF / ZW / ZP % ZK], (int)(i / ZF / ZW / ZP / ZK) + 1);
}
static void r_zero(u64 i) {
    int f = (int)(i % ZF) + 1, w = (int)(i / ZF % ZW), p = (int)(i / ZF / ZW % ZP), k = (int)(i / ZF / ZW / ZP % ZK), n = (int)(i / ZF / ZW / ZP / ZK) + 1; static bytes b; b.n = 0;
    smf_head(&b, k == 4, k == 4 ? 2 : 1, 96); int m = smf_trk(&b); if (k == 4) { smf_ev2(&b, 0, 0xc0, 1); smf_eot(&b, 60); smf_endtrk(&b, m); m = smf_trk(&b); }
    if (k == 1 || k == 3) smf_tempo(&b, 0, 400000);
    if (k == 3) { smf_meta(&b, 0, 0x58, "\4\2\30\10", 4); by_vlq(&b, 0); by_put(&b, "\xf0\5\x7e\x7f\11\1\xf7", 7); }
    if (k == 2) for (int c = 0; c < n; c++) smf_ev2(&b, 0, 0xc0 + c, 2 - c);
    for (int c = 0; c < n; c++) smf_ev3(&b, 0, 0x90 + c, 60 + c % 2, 100);
    for (int c = 0; c < n; c++) smf_ev3(&b, c ? 3 : 30, 0x80 + c, 60 + c % 2, 0);
    if (k == 2) smf_ev2(&b, 0, 0xc0, 1);
    smf_ev3(&b, 4, 0x90, 61, 100); smf_ev3(&b, 9, 0x80, 61, 0); smf_eot(&b, 4); smf_endtrk(&b, m);
    sut_init(); sut_dry(); sut_dls(NULL, &pbank); EAS_HANDLE h = sut_open(sut_file(&pfile, &pmem, b.b, b.n));
    int L[ZF + 70]; static int *keep; if (!keep) keep = mc_big(sizeof L); mc_snap *s = mc_save(NULL);
    for (int q = 0; q < ZF + 70; q++) { sut_render(); keep[q] = sut_last(0); } mc_restore(s); memcpy(L, keep, sizeof L);
    int most = 0; for (int q = 0; q < 10; q++) if (L[q] > most) most = L[q]; MC_CHECK(most > 40, "zero-plays", "the notes at time 0 are not heard");
    for (int q = 0; q < f; q++) sut_render();
    EAS_STATE st = -1; EAS_State(E, h, &st); if (p && st != EAS_STATE_PLAY) mc_skip();
    if (p) { EAS_RESULT r = EAS_Pause(E, h); MC_CHECK(r == EAS_SUCCESS, "pause", "EAS_Pause returned %ld", (long)r); for (int q = 1; q < p; q++) sut_render(); }
    EAS_I32 t = -1; EAS_GetLocation(E, h, &t); if (t <= 0) mc_skip();
    EAS_RESULT r = EAS_Locate(E, h, w == 0 ? 0 : w == 1 ? -t : w == 2 ? -100000 : -5, w == 1 || w == 2 ? EAS_TRUE : EAS_FALSE); MC_CHECK(r == EAS_SUCCESS, "locate", "EAS_Locate returned %ld", (long)r);
    EAS_GetLocation(E, h, &t); MC_CHECK(t == 0, "zero-location", "after the seek the location is %ld ms", (long)t);
    if (p) { r = EAS_Resume(E, h); MC_CHECK(r == EAS_SUCCESS, "resume", "EAS_Resume returned %ld", (long)r); }
    int N[ZF + 70]; for (int q = 0; q < ZF + 70; q++) { sut_render(); N[q] = sut_last(0); }
    for (int sh = 0; sh < 3; sh++) { int ok = 1; for (int q = 3; q < ZF + 66 && ok; q++) { int d = N[q + sh] - L[q]; if (d < -6 || d > 6) ok = 0; } if (ok) { mc_outcome(0); return; } }
    mc_fail("zero-again", "after the seek to the start the song does not sound as it did the first time");
}
void mc_body(void) {
    player_songs(); player_calibrate();
    player_songs(); player_calibrate();
    mc_space z = { .name = "to the start", .n = (u64)ZF * ZW * ZP * ZK * ZCH, .run = r_zero, .describe = d_zero }; mc_enumerate(&z);
    mc_bound("seek to the start, 4 ways, after 1 to 60 frames, playing or paused, of songs of 5 forms with 1 to 3 notes at time 0");
    int d = mc_thorough ? 6 : 5;
    mc_bound("4 songs (one of them with a setup bar) x every sequence of absolute seeks (7 targets), relative seeks (6 offsets) and renders of 1/2/9/30 frames up to depth %d, each state then played to the end", d);
    mc_assume("seek targets within 2 ms of an event of the file are not judged");
    mc_model m = { .nops = NOPS, .depth = d, .setup = setup, .apply = apply, .leaf = player_finish, .opname = opname, .dedupe = 1 };
    static const char *nm[] = { "song 1", "song 2", "song 3", "song 4" };
    for (song = 0; song < npsong; song++) { m.name = nm[song]; mc_explore(&m); }
}
