/* C12: playback rate. */
#include "player.h"
const char mc_property[] = "C12";
static const double RATE[] = { 0.5, 0.75, 1, 1.37, 2 };
enum { NR = 5, R1 = NR, R5, R20, LOC, PAUSE, RESUME, BADL, BADH, NOPS };
static const char *opname(int o) {
    static char b[40];
    static const char *N[] = { "render 1", "render 5", "render 20", "locate 137", "pause", "resume", "rate too low", "rate too high" };
    if (o < NR) { snprintf(b, sizeof b, "rate %g", RATE[o]); return b; }
    return N[o - NR];
}
static void frames(int n) { while (n--) player_frame(); }
static void apply(int o) {
    if (o < NR) { player_rate(RATE[o]); return; }
    switch (o) {
    case R1: frames(1); break; case R5: frames(5); break; case R20: frames(20); break;
    case LOC: player_locate(137, 0, 0); break; case PAUSE: player_pause(); break; case RESUME: player_resume(); break;
    case BADL: case BADH: { EAS_RESULT r = EAS_SetPlaybackRate(E, M_.h, o == BADL ? (1 << 27) - 1 : (1 << 29) + 1); MC_CHECK(r != EAS_SUCCESS, "rate-range", "a playback rate outside 1/2..2 was accepted"); } break;
    }
}
static int song;
static void setup(void) { player_start(song); }
void mc_body(void) {
    player_songs(); player_calibrate();
    int d = mc_thorough ? 8 : 6;
    mc_bound("4 songs (one of them with a setup bar) x every sequence of 5 rates from 1/2 to 2, out-of-range rates, renders of 1/5/20 frames, seek, pause and resume up to depth %d, each state then played to the end", d);
    mc_model m = { .nops = NOPS, .depth = d, .setup = setup, .apply = apply, .leaf = player_finish, .opname = opname, .dedupe = 1 };
    static const char *nm[] = { "song 1", "song 2", "song 3", "song 4" };
    for (song = 0; song < npsong; song++) { m.name = nm[song]; mc_explore(&m); }
}
