/* C22: the render contract.  Two instances of the library get the same history; one of them works under changing load
 * limits and meets render calls of the wrong size.  Every frame must be the same, bit for bit. */
#include "player.h"
const char mc_property[] = "C22";
static EAS_DATA_HANDLE I[2]; static EAS_HANDLE F[2], G[2], L[2]; static EAS_FILE fa[2], fb[2]; static mc_file ma[2], mb[2];
static bytes chord, sparse, busy; static int second, mid, paused;
static const int LOAD[] = { 0, 1, 4, 40, 1000 }; static const bytes *song2;
static const int SIZE[] = { 0, 1, -1, 255, 257, 512, -256, 128 };
enum { OP_LOAD, OP_STEP = OP_LOAD + 5, OP_FRAME, OP_FRAMES, OP_BAD, OP_LOC = OP_BAD + 8, OP_LOC2, OP_BACK, OP_PAUSE, OP_RESUME, OP_SECOND, OP_LIVE, OP_LEN, NOPS };
static const char *opname(int o) {
    static char b[40];
    static const char *N[] = { "seek 170", "seek 400", "seek to 3", "pause", "resume", "open/close second file", "live note", "measure" };
    if (o < OP_STEP) snprintf(b, sizeof b, "max load %d", LOAD[o]);
    else if (o == OP_STEP) return "one render call"; else if (o == OP_FRAME) return "one frame"; else if (o == OP_FRAMES) return "9 frames";
    else if (o < OP_LOC) snprintf(b, sizeof b, "render of %d samples", SIZE[o - OP_BAD]);
    else return N[o - OP_LOC];
    return b;
}
static EAS_PCM buf[2][PCM_MAX + 128];
__attribute__((constructor)) static void buf_ctor(void) { mc_nohash(buf, sizeof buf); }
static void guard(EAS_PCM *p) { for (int i = 0; i < PCM_MAX + 128; i++) p[i] = 0x5a5a; }
static void guarded(EAS_PCM *p, int from, const char *what) { for (int i = 0; i < 64; i++) if (p[i] != 0x5a5a) mc_fail("overrun", "%s wrote before the buffer", what); for (int i = 64 + from; i < PCM_MAX + 128; i++) if (p[i] != 0x5a5a) mc_fail("overrun", "%s wrote behind what it reported", what); }
/* one call on the limited instance; 1 when it completed the frame */
static int step(void) {
    EAS_I32 got = -7; guard(buf[0]);
    EAS_RESULT r = EAS_Render(I[0], buf[0] + 64, FRAME, &got); mc_step(1);
    MC_CHECK(r == EAS_SUCCESS, "result", "EAS_Render under a load limit returned %ld", (long)r);
    MC_CHECK(got == 0 || got == FRAME, "count", "EAS_Render under a load limit produced %ld samples", (long)got);
    guarded(buf[0], (int)got * 2, "EAS_Render");
    if (!got) { mid = 1; mc_count("calls that produced nothing", 1); return 0; }
    mid = 0;
    guard(buf[1]); r = EAS_Render(I[1], buf[1] + 64, FRAME, &got);
    MC_CHECK(r == EAS_SUCCESS && got == FRAME, "result", "EAS_Render without a load limit returned %ld, %ld samples", (long)r, (long)got);
    if (memcmp(buf[0], buf[1], sizeof buf[0])) mc_fail("differs", "the sound is not the same as without the load limit");
    for (int s = 0; s < 2; s++) {
        EAS_HANDLE h0 = s ? G[0] : F[0], h1 = s ? G[1] : F[1]; if (s && !second) break;
        EAS_I32 a, b; EAS_GetLocation(I[0], h0, &a); EAS_GetLocation(I[1], h1, &b); MC_CHECK(a == b, "location", "location %ld under a load limit, %ld without", (long)a, (long)b);
        EAS_STATE x, y; EAS_State(I[0], h0, &x); EAS_State(I[1], h1, &y); MC_CHECK(x == y, "state", "state %ld under a load limit, %ld without", (long)x, (long)y);
    }
    return 1;
}
static void frame(void) { for (int i = 0; !step(); i++) MC_CHECK(i < 200, "starved", "200 render calls in a row produced nothing"); }
static int enabled(int o, int at) { (void)at; return !(mid && o >= OP_LOC && o != OP_LIVE); }    /* a seek in the middle of a frame has no counterpart without the limit */
static void both(int o) {
    for (int i = 0; i < 2; i++) {
        EAS_RESULT r = EAS_SUCCESS; EAS_I32 len = -1; static EAS_I32 first; static EAS_RESULT fr;
        switch (o) {
        case OP_LOC: r = EAS_Locate(I[i], F[i], 170, EAS_FALSE); break;
        case OP_LOC2: r = EAS_Locate(I[i], F[i], 400, EAS_FALSE); break;
        case OP_BACK: r = EAS_Locate(I[i], F[i], 3, EAS_FALSE); break;
        case OP_PAUSE: r = EAS_Pause(I[i], F[i]); break;
        case OP_RESUME: r = EAS_Resume(I[i], F[i]); break;
        case OP_SECOND:
            if (second) r = EAS_CloseFile(I[i], G[i]);
            else { r = EAS_OpenFile(I[i], sut_file(&fb[i], &mb[i], song2->b, song2->n), &G[i]); if (r == EAS_SUCCESS) r = EAS_Prepare(I[i], G[i]); }
            break;
        case OP_LIVE: { u8 m[3] = { 0x90, 61, 100 }; r = EAS_WriteMIDIStream(I[i], L[i], m, 3); break; }
        case OP_LEN: r = EAS_ParseMetaData(I[i], F[i], &len); break;
        }
        if (!i) { first = len; fr = r; } else { MC_CHECK(r == fr, "result", "%s returned %ld under a load limit, %ld without", opname(o), (long)fr, (long)r); MC_CHECK(len == first, "length", "length %ld under a load limit, %ld without", (long)first, (long)len); }
    }
    if (mid) return;
    EAS_I32 a, b; EAS_GetLocation(I[0], F[0], &a); EAS_GetLocation(I[1], F[1], &b); MC_CHECK(a == b, "location", "after %s: location %ld under a load limit, %ld without", opname(o), (long)a, (long)b);
}
static void apply(int o) {
    if (o < OP_STEP) { EAS_RESULT r = EAS_SetMaxLoad(I[0], LOAD[o]); MC_CHECK(r == EAS_SUCCESS, "set", "EAS_SetMaxLoad(%d) returned %ld", LOAD[o], (long)r); return; }
    if (o == OP_STEP) { step(); return; }
    if (o == OP_FRAME) { frame(); return; }
    if (o == OP_FRAMES) { for (int i = 0; i < 9; i++) frame(); return; }
    if (o < OP_LOC) {
        EAS_I32 got = -7; guard(buf[0]);
        EAS_RESULT r = EAS_Render(I[0], buf[0] + 64, SIZE[o - OP_BAD], &got);
        if (SIZE[o - OP_BAD] == FRAME) mc_skip();
        MC_CHECK(r != EAS_SUCCESS, "size", "EAS_Render of %d samples succeeded", SIZE[o - OP_BAD]); MC_CHECK(got == 0, "size", "EAS_Render of %d samples failed but reports %ld samples", SIZE[o - OP_BAD], (long)got);
        guarded(buf[0], 0, "a refused EAS_Render"); return;
    }
    both(o); if (o == OP_SECOND) second ^= 1;
}
static void leaf(void) {
    if (mid) frame();
    for (int i = 0; i < 2; i++) EAS_Resume(I[i], F[i]);
    for (int i = 0; i < 6; i++) frame();
}
static void setupn(int two) {
    second = mid = paused = 0;
    for (int i = 0; i < 2; i++) {
        sut_init(); sut_dls(NULL, &pbank); I[i] = E;
        F[i] = sut_open(sut_file(&fa[i], &ma[i], chord.b, chord.n)); if (!two) L[i] = sut_midi();
    }
    if (two) { both(OP_SECOND); second = 1; for (int i = 0; i < 2; i++) { E = I[i]; L[i] = sut_midi(); } }    /* files in neighbouring slots */
}
static void setup(void) { setupn(0); }
static void setup2(void) { setupn(1); }
void mc_body(void) {
    player_songs();
    /* chords with controllers in front of them, on many channels at once, long sparse track */
    smf_head(&chord, 1, 3, 96); int m = smf_trk(&chord); smf_tempo(&chord, 0, 500000); smf_tempo(&chord, 40, 300000); smf_eot(&chord, 100); smf_endtrk(&chord, m);
    for (int t = 0; t < 2; t++) {
        m = smf_trk(&chord);
        for (int c = 0; c < 4; c++) { smf_ev2(&chord, 0, 0xc0 | c, (c + t) % 3); smf_ev3(&chord, 0, 0xb0 | c, 7, 90 + c); }
        for (int b = 0; b < 5; b++) {
            for (int k = 0; k < 4; k++) smf_ev3(&chord, k ? 0 : 6, 0x90 | k, 60 + t, 100);
            smf_ev3(&chord, 3, 0xb0, 1, b * 20); smf_ev3(&chord, 0, 0xe1, 0, 64 + b);
            for (int k = 0; k < 4; k++) smf_ev3(&chord, k ? 0 : 9, 0x80 | k, 60 + t, 0);
        }
        smf_eot(&chord, 20); smf_endtrk(&chord, m);
    }
    smf_head(&sparse, 0, 1, 96); m = smf_trk(&sparse); smf_ev3(&sparse, 3, 0x90, 60, 90); smf_ev3(&sparse, 0, 0x90, 61, 90); smf_ev3(&sparse, 0, 0x90, 62, 90); smf_ev3(&sparse, 30, 0x80, 60, 90); smf_eot(&sparse, 40); smf_endtrk(&sparse, m);
    smf_head(&busy, 0, 1, 96); m = smf_trk(&busy); smf_ev2(&busy, 0, 0xc0, 1);
    for (int b = 0; b < 12; b++) { for (int k = 0; k < 3; k++) smf_ev3(&busy, k ? 0 : 4, 0x90, 50 + 5 * k + b, 90); for (int k = 0; k < 3; k++) smf_ev3(&busy, k ? 0 : 4, 0x80, 50 + 5 * k + b, 0); } smf_eot(&busy, 30); smf_endtrk(&busy, m);
    int d = mc_thorough ? 8 : 6;
    mc_bound("every sequence of 5 load limits, render calls, whole frames, 8 wrong sizes, 3 seeks, pause, resume, a second file, live notes and length measurement up to depth %d, two instances in lockstep, a file of chords on 4 channels", d);
    mc_model x = { .name = "render", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    song2 = &sparse; mc_explore(&x);
    x.name = "render, busy second file"; x.setup = setup2; x.depth = d - 1; song2 = &busy; mc_explore(&x);
}
