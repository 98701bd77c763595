/* C11: EAS_ParseMetaData reports how long a file plays and leaves the file at its start, whatever state it was in. */
#include "player.h"
#include <math.h>
const char mc_property[] = "C11";
/* ---- lengths: format, tracks, divisions, tempo maps ---- */
static const int DIV[] = { 1, 2, 24, 96, 120, 384, 480, 960, 1000, 15360, 32767 };
static const u32 TEMPO[] = { 0, 500000, 250000, 1000000, 333333, 60000, 4000000, 16777215 }, TICK[] = { 0, 1, 50, 127, 128, 1000, 16383, 16384, 300000 };
#define NDIV 11
#define NTEMPO 8
#define NTICK 9
static double tick_ms(double us, int div) { double x = floor((us * 1024 / div + 500) / 1000); if (x > 65535) x = 65535; return x / 1024; }
static void length(u64 i) {
    int div = DIV[i % NDIV]; u32 t1 = TEMPO[i / NDIV % NTEMPO], t2 = TEMPO[i / NDIV / NTEMPO % NTEMPO], k1 = TICK[i / NDIV / NTEMPO / NTEMPO % NTICK], k2 = TICK[i / NDIV / NTEMPO / NTEMPO / NTICK % NTICK]; int lay = (int)(i / NDIV / NTEMPO / NTEMPO / NTICK / NTICK % 4);
    /* t1 from the start, t2 from tick k1, the end at tick k1 + k2; where the end is and where the tempo is depends on the layout */
    if (!t2 && k1) mc_skip();
    bytes b = { 0 }; int m; smf_head(&b, lay ? 1 : 0, lay ? lay == 3 ? 3 : 2 : 1, div); m = smf_trk(&b); if (t1) smf_tempo(&b, 0, t1); if (lay == 2) { smf_ev3(&b, k1 + k2, 0x90, 60, 0); smf_eot(&b, 0); smf_endtrk(&b, m); m = smf_trk(&b); }
    if (t2) smf_tempo(&b, k1, t2);
    if (lay == 1) { smf_eot(&b, 0); smf_endtrk(&b, m); m = smf_trk(&b); smf_ev3(&b, k1, 0x80, 60, 0); smf_eot(&b, k2); } else if (lay == 2) smf_eot(&b, 0); else smf_eot(&b, k2);
    smf_endtrk(&b, m);
    if (lay == 3) for (int k = 0; k < 2; k++) { m = smf_trk(&b); for (u32 at = 0; at + 7 < k1 + k2 && at < 2100; at += k ? 7 : 3) smf_ev2(&b, k ? 7 : 3, 0xc0 + k, 5); smf_eot(&b, 0); smf_endtrk(&b, m); }
    double a = tick_ms(t1 ? t1 : 500000, div), c = t2 ? tick_ms(t2, div) : a, ms = k1 * a + k2 * c, exact = k1 * (t1 ? t1 : 500000) / 1000.0 / div + k2 * (t2 ? t2 : t1 ? t1 : 500000) / 1000.0 / div;
    if (ms >= 8388000) { by_free(&b); mc_skip(); }
    EAS_I32 len = -7; sut_init(); EAS_HANDLE h = sut_open(sut_file(&pfile, &pmem, b.b, b.n)); EAS_RESULT r = EAS_ParseMetaData(E, h, &len);
    MC_CHECK(r == EAS_SUCCESS, "result", "EAS_ParseMetaData returned %ld", (long)r);
    double tol = 2 + (lay == 3 ? (k1 + k2) / 1000.0 : 0); if (fabs(len - ms) > tol) mc_fail("length", "length %ld ms, the file lasts %.1f ms (%.1f ms before the rounding of the tick)", (long)len, ms, exact);
    EAS_I32 t = -1; EAS_STATE st = -1; EAS_GetLocation(E, h, &t); EAS_State(E, h, &st); MC_CHECK(t == 0 && st == EAS_STATE_READY, "rewound", "after measuring the file is at %ld ms in state %ld", (long)t, (long)st);
    if (ms < 400) {     /* and it does last that long */
        int n = 0, lim = (int)(ms / FR) + 10; EAS_I32 at = -1; for (; n < lim; n++) { sut_render(); EAS_State(E, h, &st); if (st >= EAS_STATE_STOPPING) break; EAS_GetLocation(E, h, &at); }
        MC_CHECK(n < lim, "ends", "%d frames on, the file of %ld ms is still playing", n, (long)len);
        double lo = (n - 2) * FR - 2, hi = (n + 1) * FR + 2; if (len < lo || len > hi) mc_fail("plays", "the file stopped in frame %d (%.1f to %.1f ms), its length is given as %ld ms", n, lo, hi, (long)len);
    }
    by_free(&b);
}
static void length_describe(u64 i, char *o, size_t n) { static const char *LAY[] = { "one track", "notes in track 2", "tempo change in track 2", "three tracks" }; snprintf(o, n, "division %d, tempo %lu, from tick %lu on %lu, end %lu ticks later, %s", DIV[i % NDIV], (unsigned long)TEMPO[i / NDIV % NTEMPO], (unsigned long)TICK[i / NDIV / NTEMPO / NTEMPO % NTICK], (unsigned long)TEMPO[i / NDIV / NTEMPO % NTEMPO], (unsigned long)TICK[i / NDIV / NTEMPO / NTEMPO / NTICK % NTICK], LAY[i / NDIV / NTEMPO / NTEMPO / NTICK / NTICK % 4]); }
/* ---- files of many events ---- */
static const int NEV[] = { 1, 99, 9999, 65535, 65536, 99999, 100000, 100001, 300000 };
static void many(u64 i) {
    int n = NEV[i % 9], kind = (int)(i / 9 % 4), trk = 1 + (int)(i / 36), dense = kind == 3; bytes b = { 0 }; smf_head(&b, trk > 1, trk, 96); double ms = 0;
    for (int t = 0; t < trk; t++) { int m = smf_trk(&b), tick = 0; if (!t) smf_tempo(&b, 0, 96000 * 4); for (int k = 0; k < n; k++) { u32 d = dense ? k % 50 == 49 : 1; tick += (int)d; if (kind == 0 || dense) smf_ev2(&b, d, 0xc0 | t, k & 127); else if (kind == 1) { u8 c = (u8)(k & 127); by_vlq(&b, d); if (!k) by_u8(&b, 0xd0 | t); by_u8(&b, c); } else smf_meta(&b, d, 6, "xy", k % 3); } smf_eot(&b, 10); smf_endtrk(&b, m); ms = (tick + 10) * 4.0; }
    EAS_I32 len = -7; sut_init(); EAS_HANDLE h = sut_open(sut_file(&pfile, &pmem, b.b, b.n)); EAS_RESULT r = EAS_ParseMetaData(E, h, &len); MC_CHECK(r == EAS_SUCCESS && fabs(len - ms) < 3, "length", "EAS_ParseMetaData returned %ld, length %ld ms instead of %.0f", (long)r, (long)len, ms);
    EAS_I32 to = (EAS_I32)ms - 60 < 0 ? 0 : (EAS_I32)ms - 60, at = -1; r = EAS_Locate(E, h, to, 0); EAS_GetLocation(E, h, &at); MC_CHECK(r == EAS_SUCCESS && labs(at - to) < 8, "locate", "EAS_Locate to %ld returned %ld, now at %ld", (long)to, (long)r, (long)at);
    int f = 0; EAS_STATE st = EAS_STATE_PLAY; for (; f < 30 && st < EAS_STATE_STOPPING; f++) { sut_render(); EAS_State(E, h, &st); } double got = to + f * FR; MC_CHECK(fabs(got - ms) < 2 * FR + 8, "plays", "the file ends %.0f ms on, %.0f expected", got, ms); by_free(&b);
}
static void many_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%d events of kind %d in each of %d tracks", NEV[i % 9], (int)(i / 9 % 4), 1 + (int)(i / 36)); }
/* ---- measuring at any time ---- */
static EAS_HANDLE live;
enum { MEASURE, R1, R2, R9, R30, R120, LOC, LOCE, PAUSE, RESUME, REP1, REP0, RATE, RATE1, NOPS };
static const char *NAME[] = { "measure", "render 1", "render 2", "render 9", "render 30", "render 120", "locate 137", "locate 900", "pause", "resume", "repeat 1", "repeat 0", "rate 2", "rate 1" };
static const char *opname(int o) { return NAME[o]; }
static void measure(void) {
    EAS_I32 len = -7; EAS_RESULT r = EAS_ParseMetaData(E, M_.h, &len); MC_CHECK(r == EAS_SUCCESS, "result", "EAS_ParseMetaData returned %ld", (long)r);
    if (fabs(len - SG->end) > 2) mc_fail("length", "length %ld ms, the song lasts %.1f ms", (long)len, SG->end);
    m_reset_channels(); M_.pos = 0; M_.pc = 0; M_.err = 0; M_.ended = 0; M_.since_end = 0; M_.lag = 1; M_.grace = 0; M_.started = 0; M_.paused = 0; M_.unsure = 0;
    EAS_I32 g = -99; EAS_GetRepeat(E, M_.h, &g); MC_CHECK(g == M_.repeat, "repeat-count", "measuring changed the repeat count from %d to %ld", M_.repeat, (long)g);
    check_location(); check_state("measure");
}
/* what becomes of a pause is left open */
static int enabled(int o, int at) { (void)at; return o != MEASURE || !(M_.paused || M_.unsure); }
static void apply(int o) {
    static const int N[] = { 1, 2, 9, 30, 120 };
    switch (o) {
    case MEASURE: measure(); break; case LOC: player_locate(137, 0, 0); break; case LOCE: player_locate(900, 0, 0); break; case PAUSE: player_pause(); break; case RESUME: player_resume(); break;
    case REP1: player_repeat(1); break; case REP0: player_repeat(0); break; case RATE: player_rate(2); break; case RATE1: player_rate(1); break;
    default: for (int n = N[o - R1]; n; n--) player_frame();
    }
}
static void leaf(void) { if (M_.paused || M_.unsure) return; measure(); player_finish(); }
static int song; static void setup(void) { player_start(song); live = sut_midi(); sut_w3(live, 0x90, 1, 100); }
void mc_body(void) {
    player_songs(); player_calibrate(); int d = mc_thorough ? 7 : 6;
    u64 n = (u64)NDIV * NTEMPO * NTEMPO * NTICK * NTICK * 4;
    mc_bound("72 files of 1 to 300000 events in a track; %lu files: 11 divisions, 8 x 8 tempi, change and end at 9 x 9 ticks, 4 layouts of tracks; 4 songs (one with a setup bar) x every sequence of measuring, rendering, seeking, pausing, resuming, repeat counts and rates up to depth %d, each state then measured and played to the end", (unsigned long)n, d);
    mc_assume("files of 8388 s and more are not measured in full (documented in DESIGN.md)"); mc_assume("the length is that of the tick rounded to 1/1024 ms, as the library plays it");
    mc_space s = { .name = "lengths", .n = n, .run = length, .describe = length_describe, .cpu_limit = 60 }; mc_enumerate(&s);
    mc_space s2 = { .name = "many events", .n = 72, .run = many, .describe = many_describe, .cpu_limit = 60 }; mc_enumerate(&s2);
    mc_model m = { .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    static const char *nm[] = { "song 1", "song 2", "song 3", "song 4" };
    for (song = 0; song < npsong; song++) { m.name = nm[song]; mc_explore(&m); }
}
