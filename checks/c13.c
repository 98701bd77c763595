/* C13: pause and resume. */
#include "player.h"
const char mc_property[] = "C13";
enum { PAUSE, RESUME, R1, R2, R11, R40, LOC, LOC2, OFFP, NOPS };
static const char *NAME[] = { "pause", "resume", "render", "render 2", "render 11", "render 40", "locate 200", "locate 0", "skip +73 ms" };
static const char *opname(int o) { return NAME[o]; }
static void apply(int o) {
    switch (o) {
    case PAUSE: player_pause(); break; case RESUME: player_resume(); break;
    case R1: player_frame(); break; case R2: for (int i = 0; i < 2; i++) player_frame(); break; case R11: for (int i = 0; i < 11; i++) player_frame(); break; case R40: for (int i = 0; i < 40; i++) player_frame(); break;
    case LOC: player_locate(200, 0, 0); break; case LOC2: player_locate(0, 0, 0); break; case OFFP: player_locate(0, 1, 73); break;
    }
}
static int song;
static void setup(void) { player_start(song); }
void mc_body(void) {
    player_songs(); player_calibrate();
    int d = mc_thorough ? 9 : 7;
    mc_bound("4 songs (one of them with a setup bar) x every sequence of pause, resume, render 1/2/11/40 frames, seek to 200 ms / to the start / 73 ms ahead up to depth %d, then the rest of the song", d);
    mc_model m = { .nops = NOPS, .depth = d, .setup = setup, .apply = apply, .leaf = player_finish, .opname = opname, .dedupe = 1 };
    static const char *nm[] = { "song 1", "song 2", "song 3", "song 4" };
    for (song = 0; song < npsong; song++) { m.name = nm[song]; mc_explore(&m); }
}
