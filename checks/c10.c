/* C10: repeat counts. */
#include "player.h"
const char mc_property[] = "C10";
enum { REP0, REP1, REP2, REPF, R1, R7, R30, R120, PAUSE, RESUME, LOC, NOPS };
static const char *NAME[] = { "repeat 0", "repeat 1", "repeat 3", "repeat forever", "render 1", "render 7", "render 30", "render 120", "pause", "resume", "locate 137" };
static const char *opname(int o) { return NAME[o]; }
static void frames(int n) { while (n--) player_frame(); }
static void apply(int o) {
    switch (o) {
    case REP0: player_repeat(0); break; case REP1: player_repeat(1); break; case REP2: player_repeat(3); break; case REPF: player_repeat(-1); break;
    case R1: frames(1); break; case R7: frames(7); break; case R30: frames(30); break; case R120: frames(120); break;
    case PAUSE: player_pause(); break; case RESUME: player_resume(); break; case LOC: player_locate(137, 0, 0); break;
    }
}
static int song;
static void setup(void) { player_start(song); }
/* a very short song with every count in turn, and very large ones as far as their count goes down by one */
static bytes tiny; static EAS_FILE tf; static mc_file tm;
static const int BIG[] = { 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, -2, -0x8000, -0x7fffffff };
#define NSMALL 300
static i64 countof(u64 i) { return i < NSMALL ? (i64)i : BIG[i - NSMALL]; }
static void d_count(u64 i, char *b, size_t n) { snprintf(b, n, "repeat count %ld", (long)countof(i)); }
static void r_count(u64 i) {
    i64 n = countof(i); int again = 0; EAS_I32 t = 0, last = -1, g; EAS_STATE st = -1; sut_init(); sut_dry(); EAS_HANDLE h = sut_open(sut_file(&tf, &tm, tiny.b, tiny.n));
    EAS_RESULT r = EAS_SetRepeat(E, h, n); MC_CHECK(r == EAS_SUCCESS, "set-repeat", "EAS_SetRepeat returned %ld", (long)r);
    int max = i < NSMALL ? (int)(n + 1) * 12 : 60;
    for (int k = 0; k < max; k++) {
        sut_render(); EAS_GetLocation(E, h, &t); if (t < last) again++; last = t;
        EAS_GetRepeat(E, h, &g); MC_CHECK(g == (n < 0 ? n : n - again), "count-left", "after %d repetitions of %ld the count is %ld", again, (long)n, (long)g);
        EAS_State(E, h, &st); if (st == EAS_STATE_STOPPED) break;
    }
    if (i < NSMALL) { MC_CHECK(st == EAS_STATE_STOPPED, "count-stops", "with count %ld the song does not stop", (long)n); MC_CHECK(again == n, "count-times", "with count %ld the song is repeated %d times", (long)n, again); }
    else MC_CHECK(again >= 3, "count-goes-on", "with count %ld the song was repeated %d times in 60 frames", (long)n, again);
    mc_outcome((u64)again);
}
/* songs that end with notes still down, more than fit, or held by the pedal: every pass ends, and the last leaves silence */
static bytes esong; static EAS_FILE ef; static mc_file em;
enum { ENOTES = 5, EGAP = 4, EPOLY = 4, EPED = 3, EREP = 3, EPROG = 3 };
static void e_dim(u64 i, int *v) { static const int n[6] = { ENOTES, EGAP, EPOLY, EPED, EREP, EPROG }; for (int k = 0; k < 6; k++) { v[k] = (int)(i % (u64)n[k]); i /= (u64)n[k]; } }
static const int EP[EPROG] = { 16, 73, 0 }, EPL[EPOLY] = { 1, 2, 3, 64 }, EG[EGAP] = { 0, 1, 3, 40 };
static void d_end(u64 i, char *b, size_t n) { int v[6]; e_dim(i, v); snprintf(b, n, "program %d, %d notes at once %d ticks before the end, polyphony %d, pedal %d, repeat count %d", EP[v[5]], v[0], EG[v[1]], EPL[v[2]], v[3], v[4]); }
static void r_end(u64 i) {
    int v[6]; e_dim(i, v); esong.n = 0; smf_head(&esong, 0, 1, 96); int m = smf_trk(&esong); smf_ev2(&esong, 0, 0xc0, EP[v[5]]); if (v[3]) smf_ev3(&esong, 0, 0xb0, 64, 127);
    smf_ev3(&esong, 0, 0x90, 50, 100); smf_ev3(&esong, 0, 0x90, 54, 100); if (v[3] == 2) { smf_ev3(&esong, 20, 0x80, 50, 0); smf_ev3(&esong, 0, 0x80, 54, 0); }
    for (int k = 0; k < v[0]; k++) smf_ev3(&esong, k ? 0 : 60, 0x90, 57 + 3 * k, 100);
    smf_eot(&esong, (unsigned)(EG[v[1]] + (v[0] ? 0 : 60))); smf_endtrk(&esong, m);
    sut_init(); sut_dry(); EAS_HANDLE h = sut_open(sut_file(&ef, &em, esong.b, esong.n)); EAS_RESULT r = EAS_SetRepeat(E, h, v[4]); MC_CHECK(r == EAS_SUCCESS, "set-repeat", "EAS_SetRepeat returned %ld", (long)r);
    r = EAS_SetPolyphony(E, h, EPL[v[2]]); MC_CHECK(r == EAS_SUCCESS, "polyphony", "EAS_SetPolyphony returned %ld", (long)r);
    int again = 0, k; EAS_I32 t = 0, last = -1; EAS_STATE st = -1; for (k = 0; k < 2000 && st != EAS_STATE_STOPPED; k++) { sut_render(); EAS_GetLocation(E, h, &t); if (t < last) again++; last = t; EAS_State(E, h, &st); }
    MC_CHECK(st == EAS_STATE_STOPPED, "ending-stops", "the song has not stopped after %d frames", k); MC_CHECK(again == v[4], "ending-times", "with count %d the song is repeated %d times", v[4], again);
    for (int q = 0; q < 3; q++) { sut_render(); MC_CHECK(q == 0 || pcm_silent(), "ending-silence", "the song has stopped, but sounds"); }
    r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseFile returned %ld", (long)r); mc_outcome((u64)k);
}
void mc_body(void) {
    smf_head(&tiny, 0, 1, 96); int mk = smf_trk(&tiny); smf_ev2(&tiny, 0, 0xc0, 3); smf_ev3(&tiny, 2, 0xb0, 7, 99); smf_eot(&tiny, 1); smf_endtrk(&tiny, mk);
    mc_bound("a song of 3 ticks with every repeat count from 0 to %d and 8 extreme ones", NSMALL - 1);
    mc_space c = { .name = "counts", .n = NSMALL + 8, .run = r_count, .describe = d_count }; mc_enumerate(&c);
    for (int k = 0; k < 300; k++) by_u8(&esong, 0);
    mc_space e = { .name = "endings", .n = ENOTES * EGAP * EPOLY * EPED * EREP * EPROG, .run = r_end, .describe = d_end }; mc_enumerate(&e);
    mc_bound("songs of 2 to 6 notes of 3 programs that end with the keys or the pedal down, 4 polyphonies, 4 times between the last notes and the end, repeat counts 0 to 2");
    player_songs(); player_calibrate();
    int d = mc_thorough ? 8 : 6;
    mc_bound("4 songs (one of them with a setup bar) x every sequence of setting the repeat count to 0/1/3/forever, rendering 1/7/30/120 frames, pausing, resuming and seeking up to depth %d, each state then played to the end", d);
    mc_model m = { .nops = NOPS, .depth = d, .setup = setup, .apply = apply, .leaf = player_finish, .opname = opname, .dedupe = 1 };
    static const char *nm[] = { "song 1", "song 2", "song 3", "song 4" };
    for (song = 0; song < npsong; song++) { m.name = nm[song]; mc_explore(&m); }
}
