/* C16: polyphony.  Two streams with notes of levels that are powers of two: which notes sound can be read off every
 * settled frame.  Built with 8 voices by default so that the limits of the machine itself are reached, too. */
#include "sut.h"
const char mc_property[] = "C16";
#define NX 5
#define NY 4
#define NN (NX + NY)
/* keys; the default key number of the voice table is among them */
static const u8 KEY[NN] = { 60, 105, 62, 64, 65, 105, 61, 63, 66 };
static int level[NN][2]; static bytes bank;
static EAS_HANDLE H[2], F[2]; static EAS_FILE ff[2]; static mc_file fm[2]; static bytes quiet;
static struct {
    u8 down[NN];                /* pressed */
    u8 snd[NN];                 /* sounding at the last settled frame, or started since */
    u8 fresh[NN];               /* started since then */
    u8 dying[2], over[2], overall, lastpure; int last, newest[2];   /* what happened since then */
    u8 lim[2], minlim[2], glob, minglob, prio[2], open[2], limchg, limany, priochg, begun[2];
} M;
static int str(int n) { return n >= NX; }
static int limit(int s) { return M.lim[s] && M.lim[s] < M.glob ? M.lim[s] : M.glob; }
static int count(int s) { int c = 0; for (int n = 0; n < NN; n++) c += M.snd[n] && (s < 0 || str(n) == s); return c; }
static void pressure(void) {
    for (int s = 0; s < 2; s++) { if (count(s) + M.dying[s] > limit(s)) M.over[s] = 1; if (limit(s) < M.minlim[s]) M.minlim[s] = (u8)limit(s); }
    if (count(-1) + M.dying[0] + M.dying[1] > M.glob) M.overall = 1;
    if (M.glob < M.minglob) M.minglob = M.glob;
}
static void settled(void) { memset(M.fresh, 0, sizeof M.fresh); M.dying[0] = M.dying[1] = M.over[0] = M.over[1] = M.overall = M.limchg = M.limany = M.priochg = M.begun[0] = M.begun[1] = 0; M.last = M.newest[0] = M.newest[1] = -1; for (int s = 0; s < 2; s++) M.minlim[s] = (u8)limit(s); M.minglob = M.glob; }
static const char *set(const u8 *f) { static char b[2][80]; static int w; w ^= 1; int o = 0; b[w][0] = 0; for (int n = 0; n < NN; n++) if (f[n]) o += snprintf(b[w] + o, 80 - (size_t)o, " %s%d", str(n) ? "Y" : "X", KEY[n]); return b[w]; }
static void settle(void) {
    for (int i = 0; i < 4; i++) sut_render();
    u8 s[NN];
    for (int side = 0; side < 2; side++) {
        int v = sut_last(side); u8 t[NN];
        for (int n = NN - 1; n >= 0; n--) { t[n] = v > level[n][side] - level[0][side] / 2; if (t[n]) v -= level[n][side]; }
        MC_CHECK(v > -level[0][side] / 2 && v < level[0][side] / 2, "level", "the output is not the sum of notes: %d is left after{%s }", v, set(t));
        if (side) MC_CHECK(!memcmp(s, t, NN), "level", "left and right differ"); else memcpy(s, t, NN);
    }
    int cx[2] = { 0, 0 }; for (int n = 0; n < NN; n++) cx[str(n)] += s[n];
    for (int n = 0; n < NN; n++) MC_CHECK(!s[n] || M.snd[n], "extra", "sounding {%s }, only {%s } can", set(s), set(M.snd));
    for (int k = 0; k < 2; k++) MC_CHECK(cx[k] <= limit(k), "limit", "%d notes of stream %c sound {%s }, the limit is %d", cx[k], "XY"[k], set(s), limit(k));
    MC_CHECK(cx[0] + cx[1] <= M.glob, "limit", "%d notes sound {%s }, the limit is %d", cx[0] + cx[1], set(s), M.glob);
    for (int k = 0; k < 2; k++) {
        if (!M.overall) {
            if (!M.over[k]) for (int n = 0; n < NN; n++) MC_CHECK(str(n) != k || s[n] == M.snd[n], "lost", "stream %c has stayed within its limit %d, but only {%s } of {%s } sound", "XY"[k], limit(k), set(s), set(M.snd));
            int want = count(k) < M.minlim[k] ? count(k) : M.minlim[k]; want -= M.dying[k];
            MC_CHECK(cx[k] >= want, "few", "only {%s } of {%s } sound, stream %c may have %d", set(s), set(M.snd), "XY"[k], M.minlim[k]);
        }
    }
    /* with limits changed on the way the number left depends on the order in which notes were taken away */
    if (M.prio[0] == M.prio[1] && !M.priochg && !(M.limany && (M.over[0] || M.over[1]))) {
        int a = count(0) < M.minlim[0] ? count(0) : M.minlim[0], b = count(1) < M.minlim[1] ? count(1) : M.minlim[1];
        int want = a + b < M.minglob ? a + b : M.minglob; want -= M.dying[0] + M.dying[1];
        MC_CHECK(cx[0] + cx[1] >= want, "few", "only {%s } of {%s } sound, the limits are %d, %d and %d", set(s), set(M.snd), M.minlim[0], M.minlim[1], M.minglob);
    }
    if (M.last >= 0 && !M.limchg && !M.priochg && M.snd[M.last] && M.prio[str(M.last)] <= M.prio[!str(M.last)]) MC_CHECK(s[M.last], "newest", "the note started last, %c%d, does not sound: {%s } of {%s }", "XY"[str(M.last)], KEY[M.last], set(s), set(M.snd));
    /* the stream with precedence loses notes only to itself */
    for (int k = 0; k < 2; k++) if (M.prio[k] < M.prio[!k] && !M.limany && !M.priochg && !M.begun[k])
        for (int n = 0; n < NN; n++) MC_CHECK(str(n) != k || s[n] == M.snd[n], "priority", "stream %c has precedence but lost a note to the other one: {%s } of {%s }", "XY"[k], set(s), set(M.snd));
    for (int k = 0; k < 2; k++) if (M.prio[k] < M.prio[!k] && !M.limany && !M.priochg && M.newest[k] >= 0 && M.snd[M.newest[k]])
        MC_CHECK(s[M.newest[k]], "priority", "stream %c has precedence but its newest note %d does not sound: {%s } of {%s }", "XY"[k], KEY[M.newest[k]], set(s), set(M.snd));
    memcpy(M.snd, s, NN); settled();
}
enum { ON, OFF = ON + NN, SETTLE = OFF + NN, R1, LIMX, LIMY = LIMX + 4, GLOB = LIMY + 3, PRIO = GLOB + 3, CLOSE = PRIO + 2, NOTESOFF = CLOSE + 2, PERFRESET, NOPS };
static const u8 LX[4] = { 1, 2, 4, 0 }, LY[3] = { 1, 3, 0 }, GL[3] = { 2, 5, 8 }, PR[2] = { 2, 5 };
static const char *opname(int o) {
    static char b[40];
    if (o < OFF) snprintf(b, sizeof b, "on %c%d", "XY"[str(o)], KEY[o]); else if (o < SETTLE) snprintf(b, sizeof b, "off %c%d", "XY"[str(o - OFF)], KEY[o - OFF]);
    else if (o == SETTLE) return "settle"; else if (o == R1) return "render";
    else if (o < LIMY) snprintf(b, sizeof b, "polyphony X %d", LX[o - LIMX]); else if (o < GLOB) snprintf(b, sizeof b, "polyphony Y %d", LY[o - LIMY]);
    else if (o < PRIO) snprintf(b, sizeof b, "polyphony %d", GL[o - GLOB]); else if (o < CLOSE) snprintf(b, sizeof b, "priority X %d", PR[o - PRIO]);
    else if (o < NOTESOFF) snprintf(b, sizeof b, "close/open %c", "XY"[o - CLOSE]); else return o == NOTESOFF ? "all notes off X" : "GM reset X";
    return b;
}
static int tight;
static int enabled(int o, int at) {
    (void)at;
    if (tight && ((o < SETTLE && (o % NN == 3 || o % NN == 4 || o % NN == 8)) || (o >= LIMX && o < CLOSE && o != LIMX && o != LIMX + 3 && o != GLOB && o != GLOB + 1 && o != PRIO))) return 0;
    if (o < OFF) return M.open[str(o)] && !M.down[o];
    if (o < SETTLE) return M.down[o - OFF];
    if (o >= LIMX && o < LIMY) return M.open[0] && M.lim[0] != LX[o - LIMX];
    if (o >= LIMY && o < GLOB) return M.open[1] && M.lim[1] != LY[o - LIMY];
    if (o >= GLOB && o < PRIO) return M.glob != GL[o - GLOB];
    if (o >= PRIO && o < CLOSE) return M.open[0] && M.prio[0] != PR[o - PRIO];
    if (o == NOTESOFF || o == PERFRESET) return M.open[0];
    return 1;
}
static void kill(int s) { for (int n = 0; n < NN; n++) if (str(n) == s) { if (M.snd[n]) M.dying[s]++; M.snd[n] = M.down[n] = M.fresh[n] = 0; if (M.last == n) M.last = -1; if (M.newest[s] == n) M.newest[s] = -1; } }
/* limits and priority belong to files, notes are sent through a live stream on the file */
static void opn(int s) {
    F[s] = sut_open(sut_file(&ff[s], &fm[s], quiet.b, quiet.n));
    EAS_RESULT r = EAS_OpenMIDIStream(E, &H[s], F[s]); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenMIDIStream on a file returned %ld", (long)r);
    sut_w2(H[s], 0xc0, s); M.open[s] = 1;
}
static void apply(int o) {
    EAS_RESULT r = EAS_SUCCESS; EAS_I32 g = -1;
    if (o < OFF) { sut_w3(H[str(o)], 0x90, KEY[o], 100); M.down[o] = M.snd[o] = M.fresh[o] = 1; M.last = M.newest[str(o)] = o; M.limchg = 0; M.begun[str(o)] = 1; }
    else if (o < SETTLE) { int n = o - OFF; sut_w3(H[str(n)], 0x80, KEY[n], 0); M.down[n] = 0; if (M.snd[n]) { M.snd[n] = 0; M.dying[str(n)]++; } }
    else if (o == SETTLE) settle();
    else if (o == R1) sut_render();
    else if (o < LIMY) { int v = LX[o - LIMX]; r = EAS_SetPolyphony(E, F[0], v); M.lim[0] = (u8)v; M.limchg = M.limany = 1; EAS_GetPolyphony(E, F[0], &g); MC_CHECK(g == v, "get", "polyphony of X set to %d, %ld reported", v, (long)g); }
    else if (o < GLOB) { int v = LY[o - LIMY]; r = EAS_SetPolyphony(E, F[1], v); M.lim[1] = (u8)v; M.limchg = M.limany = 1; }
    else if (o < PRIO) { int v = GL[o - GLOB]; r = EAS_SetSynthPolyphony(E, 0, v); M.glob = (u8)v; M.limchg = M.limany = 1; EAS_GetSynthPolyphony(E, 0, &g); MC_CHECK(g == v, "get", "polyphony set to %d, %ld reported", v, (long)g); }
    else if (o < CLOSE) { r = EAS_SetPriority(E, F[0], PR[o - PRIO]); M.prio[0] = PR[o - PRIO]; M.priochg = 1; }
    else if (o < NOTESOFF) {
        int s = o - CLOSE;
        if (M.open[s]) { r = EAS_CloseMIDIStream(E, H[s]); H[s] = NULL; if (r == EAS_SUCCESS) r = EAS_CloseFile(E, F[s]); kill(s); M.open[s] = 0; M.lim[s] = 0; if (M.prio[s] != 5) M.priochg = 1; M.prio[s] = 5; }
        else { opn(s); }
    } else if (o == NOTESOFF) { sut_w3(H[0], 0xb0, 123, 0); kill(0); }
    else { static const u8 gm[] = { 0xf0, 0x7e, 0x7f, 9, 1, 0xf7 }; sut_write(H[0], gm, sizeof gm); kill(0); settle(); sut_w2(H[0], 0xc0, 0); }
    MC_CHECK(r == EAS_SUCCESS, "result", "%s returned %ld", opname(o), (long)r);
    pressure();
}
/* everything released, then all voices must be available again: as many notes as the limits allow sound */
static void leaf(void) {
    settle();
    for (int n = 0; n < NN; n++) if (M.down[n]) { sut_w3(H[str(n)], 0x80, KEY[n], 0); M.down[n] = 0; if (M.snd[n]) { M.snd[n] = 0; M.dying[str(n)]++; } }
    settle(); MC_CHECK(pcm_silent(), "stuck", "sound remains after all keys were released");
    for (int s = 0; s < 2; s++) if (!M.open[s]) apply(CLOSE + s);
    for (int n = 0; n < NN; n++) if (count(str(n)) < limit(str(n)) && count(-1) < M.glob) { apply(ON + n); }
    settle();
    for (int n = NN - 1; n >= 0; n--) if (!M.down[n]) { apply(ON + n); settle(); }
    settle();
}
static void setup(void) {
    memset(&M, 0, sizeof M); const S_EAS_LIB_CONFIG *c = EAS_Config(); M.glob = (u8)c->maxVoices; if (M.glob > NN) M.glob = NN; M.prio[0] = M.prio[1] = 5;
    sut_init(); sut_dry(); sut_dls(NULL, &bank); MC_CHECK(EAS_SetVolume(E, NULL, 96) == EAS_SUCCESS, "volume", "EAS_SetVolume(96) failed");
    for (int s = 0; s < 2; s++) opn(s);
    sut_render(); M.glob = (u8)c->maxVoices; settled();
}
static void setup_tight(void) { setup(); apply(GLOB); apply(ON); apply(ON + NX); settle(); }
void mc_body(void) {
    smf_head(&quiet, 0, 1, 96); int m = smf_trk(&quiet); smf_eot(&quiet, 1000000); smf_endtrk(&quiet, m);
    dc_note t[NN]; for (int n = 0; n < NN; n++) t[n] = (dc_note){ 0, str(n), KEY[n], KEY[n], 120 << n, 0, 0 };
    dc_bank(&bank, t, NN, dls_flat, dls_nflat);
    int (*lv)[2] = mc_big(sizeof level); mc_snap *s = mc_save(NULL); setup();
    for (int n = 0; n < NN; n++) { sut_w3(H[str(n)], 0x90, KEY[n], 100); sut_render(); sut_render(); lv[n][0] = sut_last(0); lv[n][1] = sut_last(1); sut_w3(H[str(n)], 0x80, KEY[n], 0); for (int i = 0; i < 3; i++) sut_render(); MC_CHECK(lv[n][0] > 30 && (!n || lv[n][0] > lv[n - 1][0] * 3 / 2), "harness", "calibration %d: %d", n, lv[n][0]); }
    mc_restore(s); memcpy(level, lv, sizeof level);
    int d = mc_thorough ? 6 : 4;
    mc_bound("%d voices; every sequence up to depth %d (%d over part of the operations with two voices in use) of note on/off (5 + 4 notes on two streams), limits per stream and overall, priority, closing and reopening a stream, all notes off, reset, render and settling; every state is released and refilled", (int)EAS_Config()->maxVoices, d, d == 4 ? 6 : d + 1);
    mc_model x = { .name = "voices", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    mc_explore(&x);
    tight = 1; x.setup = setup_tight; x.name = "few voices"; x.depth = d == 4 ? 6 : d + 1; mc_explore(&x);
}
