/* C23: reverb and chorus do what their parameters say, whatever the order in which they were set, leave the sound
 * alone while bypassed and die away. */
#include "sut.h"
#include <math.h>
#include <stdlib.h>
const char mc_property[] = "C23";
#define REV EAS_MODULE_REVERB
#define CHO EAS_MODULE_CHORUS
#define SR ((double)EAS_Config()->sampleRate)
static bytes bank; enum { LOW, SQ, LOUD, TICK, BOOM };   /* programs: quiet and loud square waves, a single pulse */
static void set(int mod, int par, long v) { EAS_RESULT r = EAS_SetParameter(E, mod, par, v); MC_CHECK(r == EAS_SUCCESS, "set", "EAS_SetParameter(%d, %d, %ld) returned %ld", mod, par, v, (long)r); }
static long get(int mod, int par) { EAS_I32 v = -99999; EAS_RESULT r = EAS_GetParameter(E, mod, par, &v); MC_CHECK(r == EAS_SUCCESS, "get", "EAS_GetParameter(%d, %d) returned %ld", mod, par, (long)r); return v; }
static EAS_HANDLE start(int prog) { sut_init(); sut_dls(NULL, &bank); EAS_HANDLE h = sut_midi(); sut_w2(h, 0xc0, prog); return h; }
static int sat(double v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : (int)v; }
static void both_off(void) { set(REV, EAS_PARAM_REVERB_BYPASS, 1); set(CHO, EAS_PARAM_CHORUS_BYPASS, 1); }
/* ---- wet and dry scale the reverberation and the direct sound ---- */
#define NDRY 5
static const int DRYV[NDRY] = { 32767, 0, 1, 16384, 30000 };
#define WSTEP 1
static void levels(u64 i) {
    int wet = (int)(i % 32768), room = (int)(i / 32768 % 4), dry = DRYV[i / 32768 / 4 % NDRY], loud = (int)(i / 32768 / 4 / NDRY); EAS_DATA_HANDLE I[3]; EAS_HANDLE h[3]; static EAS_PCM buf[3][PCM_MAX];
    if (dry != 32767 && wet % 61 != 0 && wet != 32767) mc_skip(); if (loud && wet % 61 != 0 && wet != 32767) mc_skip();
    for (int k = 0; k < 3; k++) {   /* the sound asked for, the direct sound, both with the reverberation at gain one */
        h[k] = start(loud ? BOOM : LOW); I[k] = E; both_off();
        if (k != 1) { set(REV, EAS_PARAM_REVERB_BYPASS, 0); set(REV, EAS_PARAM_REVERB_PRESET, room); set(REV, EAS_PARAM_REVERB_WET, k ? 16384 : wet); set(REV, EAS_PARAM_REVERB_DRY, k ? (loud ? 0 : 32767) : dry); }
    }
    int heard = 0; long over = 0, overr = 0;
    for (int f = 0; f < (loud ? 70 : 14); f++) {
        for (int k = 0; k < 3; k++) { E = I[k]; if (f == 1) for (int q = 0; q < (loud ? 6 : 1); q++) sut_w3(h[k], 0x90, 60 + q, loud ? 127 : 60); if (f == (loud ? 60 : 9)) for (int q = 0; q < (loud ? 6 : 1); q++) sut_w3(h[k], 0x80, 60 + q, 0); sut_render(); memcpy(buf[k], PCM, sizeof(EAS_PCM) * 2 * (size_t)FRAME); }
        for (int n = 0; n < 2 * FRAME; n++) {
            int d = buf[1][n], r = buf[2][n] - (loud ? 0 : d); if (abs(buf[2][n]) >= 32767) continue; if (r) heard = 1; if (wet == 0 && dry == 32767) r = 0;
            double raw = floor(r * 2.0 * wet / 32768) + floor(d * (double)(dry == 32767 ? 32768 : dry) / 32768); int want = sat(raw);
            if (fabs(raw) > 32769) { over++; if (n & 1) overr++; } if (abs(want - buf[0][n]) > 1) mc_fail("levels", "frame %d, sample %d: direct sound %d, reverberation %d, with wet %d and dry %d that makes %d, but %d is heard", f, n, d, r, wet, dry, want, buf[0][n]);
        }
    }
    MC_CHECK(heard, "reverb-silent", "no reverberation is heard in room %d", room); if (over) mc_count("beyond full scale", over); if (overr) mc_count("beyond full scale on the right", overr);
}
static void levels_describe(u64 i, char *o, size_t n) { snprintf(o, n, "wet %d, room %d, dry %d%s", (int)(i % 32768), (int)(i / 32768 % 4), DRYV[i / 32768 / 4 % NDRY], i / 32768 / 4 / NDRY ? ", loud" : ""); }
static void chorus_levels(u64 i) {
    int level = (int)(i % 538) * 61, loud = (int)(i / 538 % 2), preset = (int)(i / 1076); EAS_DATA_HANDLE I[3]; EAS_HANDLE h[3]; static EAS_PCM buf[3][PCM_MAX]; long over = 0; if (level > 32767) level = 32767;
    for (int k = 0; k < 3; k++) { h[k] = start(loud ? BOOM : LOW); I[k] = E; both_off(); if (k != 1) { set(CHO, EAS_PARAM_CHORUS_BYPASS, 0); set(CHO, EAS_PARAM_CHORUS_PRESET, preset); set(CHO, EAS_PARAM_CHORUS_LEVEL, k ? 16384 : level); } }
    for (int f = 0; f < 60; f++) {
        for (int k = 0; k < 3; k++) { E = I[k]; if (f == 1) for (int q = 0; q < (loud ? 6 : 1); q++) sut_w3(h[k], 0x90, 60 + q, loud ? 127 : 60); sut_render(); memcpy(buf[k], PCM, sizeof(EAS_PCM) * 2 * (size_t)FRAME); }
        for (int n = 0; n < 2 * FRAME; n++) {
            int d = buf[1][n], e = buf[2][n] - d, full = abs(buf[2][n]) >= 32767; if (full && level < 16384) continue; double raw = d + 2.0 * e * level / 32768; int want = full ? buf[2][n] : sat(raw); if (fabs(raw) > 32770 && !full) over++;
            if (abs(want - buf[0][n]) > 4) mc_fail("chorus-levels", "frame %d, sample %d: direct sound %d, chorus at level 16384 adds %d, at level %d that makes %d, but %d is heard", f, n, d, e, level, want, buf[0][n]);
        }
    }
    if (over) mc_count("chorus beyond full scale", over);
}
static void chorus_levels_describe(u64 i, char *o, size_t n) { snprintf(o, n, "chorus preset %d at level %d%s", (int)(i / 1076), (int)(i % 538) * 61, i / 538 % 2 ? ", loud" : ""); }
/* ---- chorus: delay, depth, rate, level ---- */
static double unity(double x) { return x; }
static void chorus(u64 i) {
    int preset = (int)(i % 5) - 1; i /= 5; int rate = 10 + (int)(i % 41), depth = 15 + (int)(i / 41 % 46), level = (int[]){ 32767, 16384, 3000 }[i / 41 / 46 % 3];
    if (preset >= 0) { if (rate != 10 || depth != 15 || level != 32767) mc_skip(); }
    EAS_HANDLE h = start(TICK); both_off(); set(CHO, EAS_PARAM_CHORUS_BYPASS, 0);
    if (preset < 0) { set(CHO, EAS_PARAM_CHORUS_RATE, rate); set(CHO, EAS_PARAM_CHORUS_DEPTH, depth); set(CHO, EAS_PARAM_CHORUS_LEVEL, level); }
    else { set(CHO, EAS_PARAM_CHORUS_PRESET, preset); rate = (int[]){ 30, 45, 25, 37 }[preset]; depth = (int[]){ 39, 21, 53, 32 }[preset]; level = (int[]){ 32767, 25000, 32000, 29000 }[preset]; }
    long gr = get(CHO, EAS_PARAM_CHORUS_RATE), gd = get(CHO, EAS_PARAM_CHORUS_DEPTH), gl = get(CHO, EAS_PARAM_CHORUS_LEVEL);
    MC_CHECK(gr == rate && gd == depth && gl == level, "reported", "rate %ld, depth %ld, level %ld are reported, %d, %d, %d are set", gr, gd, gl, rate, depth, level);
    sut_w3(h, 0x90, 60, 127);
    /* follow the pulses: one every 1024 samples; what comes 5 to 15 ms after each is the chorus */
    double cyc = SR / (rate / 20.0), lo[2] = { 1e9, 1e9 }, hi[2] = { 0, 0 }, zero[2][64], prev[2] = { 0, 0 }, at = 0; int nz[2] = { 0, 0 }; long total = (long)(cyc * 2.2) + 3 * FRAME, pulse = -1; int peak[2] = { 0, 0 }; double sum[2] = { 0 }, mom[2] = { 0 };
    long n0 = -1;
    for (long base = 0; base < total; base += FRAME) {
        sut_render();
        for (int n = 0; n < FRAME; n++) {
            long t = base + n; int on = abs(PCM[2 * n]) > 2000 && (pulse < 0 || t - pulse > 900);
            if (on) {
                if (pulse >= 0) for (int c = 0; c < 2; c++) {
                    MC_CHECK(sum[c] > 0, "no-chorus", "side %d: nothing follows a pulse of %d", c, peak[c]);
                    double d = mom[c] / sum[c], ms = 1000 * d / SR; if (n0 < 0) n0 = pulse;
                    double share = sum[c] / peak[c], want = level / 32768.0;
                    if (fabs(share - want) > 0.01 + 0.09 * want) mc_fail("level", "a pulse of %d comes back at %.3f of its size, the level is %.3f", peak[c], share, want);
                    if (d < lo[c]) lo[c] = d; if (d > hi[c]) hi[c] = d;
                    double x = d - 0.010 * SR; if (prev[c] < -0.5 && x >= -0.5 && nz[c] < 64) zero[c][nz[c]++] = t; prev[c] = x;
                    (void)ms;
                }
                pulse = t; for (int c = 0; c < 2; c++) { peak[c] = 0; sum[c] = mom[c] = 0; }
            }
            if (pulse >= 0) for (int c = 0; c < 2; c++) {
                int v = PCM[2 * n + c]; long k = t - pulse; if (k < 60) { if (v > peak[c]) peak[c] = v; } else { sum[c] += v; mom[c] += (double)v * k; if (abs(v) > 3 && (k < 0.0065 * SR || k > 0.0135 * SR)) mc_fail("echo", "%ld samples after a pulse of %d something of %d is heard", k, peak[c], v); }
            }
        }
    }
    (void)at;
    double dep = depth * 0.00005 * SR, tol = 3.5 + dep * (1 - cos(M_PI * 1024 / cyc));
    for (int c = 0; c < 2; c++) {
        MC_CHECK(n0 >= 0, "no-chorus", "no delayed pulses are heard on side %d", c);
        if (fabs(hi[c] - (0.010 * SR + dep)) > tol || fabs(lo[c] - (0.010 * SR - dep)) > tol) mc_fail("depth", "side %d: the delay varies from %.1f to %.1f samples, depth %d asks for %.1f to %.1f", c, lo[c], hi[c], depth, 0.010 * SR - dep, 0.010 * SR + dep);
        MC_CHECK(nz[c] >= 2, "rate", "side %d: %d turns of the delay in %ld samples, one every %.0f are asked for", c, nz[c], total, cyc);
        double per = (zero[c][nz[c] - 1] - zero[c][0]) / (nz[c] - 1); if (per < cyc * 0.92 || per > cyc * 1.15) mc_fail("rate", "side %d: the delay turns in %.0f samples, rate %d asks for %.0f", c, per, rate, cyc);
    }
    double sh = fmod(zero[0][0] - zero[1][0] + 2 * cyc, cyc) / cyc; MC_CHECK(sh > 0.1 && sh < 0.9, "sides", "both sides turn together (%.2f)", sh);
}
static void chorus_describe(u64 i, char *o, size_t n) { int p = (int)(i % 5) - 1; i /= 5; if (p >= 0) snprintf(o, n, "preset %d", p); else snprintf(o, n, "rate %d, depth %d, level %d", 10 + (int)(i % 41), 15 + (int)(i / 41 % 46), (int[]){ 32767, 16384, 3000 }[i / 41 / 46 % 3]); }
/* ---- every order of settings, with notes in between ---- */
static struct { int rb, room, wet, dry, cb, rate, depth, level; } M, R_; /* what is set; what the reference has */
static EAS_DATA_HANDLE X[3]; static EAS_HANDLE H[3]; static int down; static double energy;
enum { RB0, RB1, ROOM0, ROOM1, ROOM2, ROOM3, WET0, WETH, WETM, DRY0, DRYM, CB0, CB1, CP0, CP1, CP2, CP3, RATEL, RATEH, DEPTHL, DEPTHH, LEV0, LEVH, LEVM, NOTE, OFF, REND, REND9, BADV, NOPS };
static const char *opname(int o) { static const char *N[] = { "reverb on", "reverb bypassed", "large hall", "hall", "chamber", "room", "wet 0", "wet 9000", "wet max", "dry 0", "dry max", "chorus on", "chorus bypassed", "chorus preset 1", "chorus preset 2", "chorus preset 3", "chorus preset 4", "rate 10", "rate 50", "depth 15", "depth 60", "level 0", "level 9000", "level max", "note", "note off", "render", "render 9", "values out of range" }; return N[o]; }
static const int WETP[] = { 27690, 27690, 24460, 23075 }, RATEP[] = { 30, 45, 25, 37 }, DEPTHP[] = { 39, 21, 53, 32 }, LEVELP[] = { 32767, 25000, 32000, 29000 };
static void check_get(void) {
    E = X[0]; static const int RP[] = { EAS_PARAM_REVERB_BYPASS, EAS_PARAM_REVERB_PRESET, EAS_PARAM_REVERB_WET, EAS_PARAM_REVERB_DRY }, CP[] = { EAS_PARAM_CHORUS_BYPASS, EAS_PARAM_CHORUS_RATE, EAS_PARAM_CHORUS_DEPTH, EAS_PARAM_CHORUS_LEVEL };
    long rv[] = { M.rb, M.room, M.wet, M.dry }, cv[] = { M.cb, M.rate, M.depth, M.level };
    for (int k = 0; k < 4; k++) { long g = get(REV, RP[k]); if (g != rv[k]) mc_fail("reported", "reverb parameter %d is %ld, %ld is reported", RP[k], rv[k], g); g = get(CHO, CP[k]); if (g != cv[k]) mc_fail("reported", "chorus parameter %d is %ld, %ld is reported", CP[k], cv[k], g); }
}
static void frame(void) {
    static EAS_PCM a[3][PCM_MAX];
    E = X[1];   /* the reference gets what is set now, just before it is needed */
    if (R_.room != M.room) set(REV, EAS_PARAM_REVERB_PRESET, M.room);
    set(REV, EAS_PARAM_REVERB_WET, M.wet); set(REV, EAS_PARAM_REVERB_DRY, M.dry); set(REV, EAS_PARAM_REVERB_BYPASS, M.rb); set(CHO, EAS_PARAM_CHORUS_LEVEL, M.level); set(CHO, EAS_PARAM_CHORUS_DEPTH, M.depth); set(CHO, EAS_PARAM_CHORUS_RATE, M.rate); set(CHO, EAS_PARAM_CHORUS_BYPASS, M.cb); R_ = M;
    for (int k = 0; k < 3; k++) { E = X[k]; sut_render(); memcpy(a[k], PCM, sizeof(EAS_PCM) * 2 * (size_t)FRAME); }
    int plain = (M.rb || (M.wet == 0 && M.dry == 32767)) && (M.cb || M.level == 0);
    for (int n = 0; n < 2 * FRAME; n++) {
        if (a[0][n] != a[1][n]) mc_fail("settings", "sample %d is %d, with the same settings made in another order it is %d", n, a[0][n], a[1][n]);
        if (plain && a[0][n] != a[2][n]) mc_fail("bypass", "nothing is switched on, but sample %d is %d instead of %d", n, a[0][n], a[2][n]);
    }
}
static int enabled(int o, int at) { (void)at; return o == NOTE ? !down : o == OFF ? down : 1; }
static void bad(int mod, int par, long v) { E = X[0]; EAS_RESULT r = EAS_SetParameter(E, mod, par, v); MC_CHECK(r != EAS_SUCCESS, "refused", "EAS_SetParameter(%d, %d, %ld) succeeded", mod, par, v); }
static void apply(int o) {
    E = X[0];
    switch (o) {
    case RB0: case RB1: M.rb = o == RB1; set(REV, EAS_PARAM_REVERB_BYPASS, M.rb); break;
    case ROOM0: case ROOM1: case ROOM2: case ROOM3: M.room = o - ROOM0; M.wet = WETP[M.room]; M.dry = 32767; set(REV, EAS_PARAM_REVERB_PRESET, M.room); break;
    case WET0: case WETH: case WETM: M.wet = o == WET0 ? 0 : o == WETH ? 9000 : 32767; set(REV, EAS_PARAM_REVERB_WET, M.wet); break;
    case DRY0: case DRYM: M.dry = o == DRY0 ? 0 : 32767; set(REV, EAS_PARAM_REVERB_DRY, M.dry); break;
    case CB0: case CB1: M.cb = o == CB1; set(CHO, EAS_PARAM_CHORUS_BYPASS, M.cb); break;
    case CP0: case CP1: case CP2: case CP3: M.rate = RATEP[o - CP0]; M.depth = DEPTHP[o - CP0]; M.level = LEVELP[o - CP0]; set(CHO, EAS_PARAM_CHORUS_PRESET, o - CP0); MC_CHECK(get(CHO, EAS_PARAM_CHORUS_PRESET) == o - CP0, "reported", "chorus preset %d is set, %ld is reported", o - CP0, get(CHO, EAS_PARAM_CHORUS_PRESET)); break;
    case RATEL: case RATEH: M.rate = o == RATEL ? 10 : 50; set(CHO, EAS_PARAM_CHORUS_RATE, M.rate); break;
    case DEPTHL: case DEPTHH: M.depth = o == DEPTHL ? 15 : 60; set(CHO, EAS_PARAM_CHORUS_DEPTH, M.depth); break;
    case LEV0: case LEVH: case LEVM: M.level = o == LEV0 ? 0 : o == LEVH ? 9000 : 32767; set(CHO, EAS_PARAM_CHORUS_LEVEL, M.level); break;
    case NOTE: case OFF: down = o == NOTE; for (int k = 0; k < 3; k++) { E = X[k]; sut_w3(H[k], 0x90, 60, down ? 90 : 0); } break;
    case BADV: bad(REV, EAS_PARAM_REVERB_PRESET, 4); bad(REV, EAS_PARAM_REVERB_PRESET, -1); bad(REV, EAS_PARAM_REVERB_WET, 32768); bad(REV, EAS_PARAM_REVERB_WET, -1); bad(REV, EAS_PARAM_REVERB_DRY, 32768); bad(REV, EAS_PARAM_REVERB_DRY, -1); bad(REV, 4, 0); bad(REV, -1, 0);
        bad(CHO, EAS_PARAM_CHORUS_PRESET, 4); bad(CHO, EAS_PARAM_CHORUS_PRESET, -1); bad(CHO, EAS_PARAM_CHORUS_RATE, 9); bad(CHO, EAS_PARAM_CHORUS_RATE, 51); bad(CHO, EAS_PARAM_CHORUS_DEPTH, 14); bad(CHO, EAS_PARAM_CHORUS_DEPTH, 61); bad(CHO, EAS_PARAM_CHORUS_LEVEL, -1); bad(CHO, EAS_PARAM_CHORUS_LEVEL, 32768); bad(CHO, 5, 0); bad(CHO, -1, 0); bad(-1, 0, 0); bad(99, 0, 0); break;
    default: for (int n = o == REND ? 1 : 9; n; n--) frame();
    }
    check_get();
}
static void setup(void) {
    for (int k = 0; k < 3; k++) { H[k] = start(SQ); X[k] = E; if (k == 2) both_off(); } down = 0; E = X[0];
    M.rb = (int)get(REV, EAS_PARAM_REVERB_BYPASS); M.room = (int)get(REV, EAS_PARAM_REVERB_PRESET); M.wet = (int)get(REV, EAS_PARAM_REVERB_WET); M.dry = (int)get(REV, EAS_PARAM_REVERB_DRY);
    M.cb = (int)get(CHO, EAS_PARAM_CHORUS_BYPASS); M.rate = (int)get(CHO, EAS_PARAM_CHORUS_RATE); M.depth = (int)get(CHO, EAS_PARAM_CHORUS_DEPTH); M.level = (int)get(CHO, EAS_PARAM_CHORUS_LEVEL); R_ = M;
    MC_CHECK(M.room >= 0 && M.room < 4 && M.wet == WETP[M.room] && M.dry == 32767, "start", "at the start room %d with wet %d and dry %d is set", M.room, M.wet, M.dry);
}
static void leaf(void) { for (int k = 0; k < 3; k++) frame(); if (!down) apply(NOTE); for (int k = 0; k < 8; k++) frame(); apply(RB0); apply(CB0); for (int k = 0; k < 8; k++) frame(); }
/* ---- the tail dies away, sooner in smaller rooms ---- */
static void tail(u64 i) {
    int wet = (int[]){ 32767, 27690, 16384 }[i % 3], prog = (int)(i / 3 % 3), len = (int[]){ 1, 3, 40, 400 }[i / 9 % 4], cho = (int)(i / 36 % 2), pan = (int)(i / 72); double e[4];
    for (int room = 0; room < 4; room++) {
        EAS_HANDLE h = start(prog); both_off(); set(REV, EAS_PARAM_REVERB_BYPASS, 0); set(REV, EAS_PARAM_REVERB_PRESET, room); set(REV, EAS_PARAM_REVERB_WET, wet); if (cho) set(CHO, EAS_PARAM_CHORUS_BYPASS, 0);
        for (int k = 0; k < 12; k++) { sut_render(); if (!pcm_silent()) mc_fail("self-noise", "frame %d sounds although nothing was played", k); }
        sut_w3(h, 0xb0, 10, pan * 127 / 2); sut_w3(h, 0x90, 60, 127); for (int k = 0; k < len; k++) sut_render(); sut_w3(h, 0x80, 60, 0); sut_render(); sut_render();
        int n0 = (int)(SR * 0.4 / FRAME), n1 = (int)(SR * 4.5 / FRAME), n2 = n1 + (int)(SR / FRAME); e[room] = 0; int worst = 0, early = 0;
        for (int k = 0; k < n2; k++) { sut_render(); for (int n = 0; n < 2 * FRAME; n++) { int v = abs(PCM[n]); if (k < 20 && v > early) early = v; if (k >= 4 && k < n0) e[room] += (double)v * v; if (k > n1 && v > worst) worst = v; } }
        if (worst > 327) mc_fail("rings", "room %d, wet %d: 4.5 s after the last note the output still reaches %d", room, wet, worst);
        MC_CHECK(early > 20, "no-tail", "room %d: no tail after the note (%d)", room, early);
        EAS_Shutdown(E); 
    }
    if (len >= 3 && !(e[0] > e[3] && e[1] > e[3])) mc_fail("size", "the halls ring with %.0f and %.0f, the room with %.0f", e[0], e[1], e[3]);
}
static void tail_describe(u64 i, char *o, size_t n) { snprintf(o, n, "wet %d, program %d, note of %d frames%s, pan %d", (int[]){ 32767, 27690, 16384 }[i % 3], (int)(i / 3 % 3), (int[]){ 1, 3, 40, 400 }[i / 9 % 4], i / 36 % 2 ? ", chorus" : "", (int)(i / 72) * 127 / 2); }
void mc_body(void) {
    static short low[2048], sq[512], loud[300], tick[1024], boom[4096]; unsigned r = 1; for (int i = 0; i < 4096; i++) boom[i] = (short)(i < 2048 ? 32000 : -32000);
    for (int i = 0; i < 2048; i++) { r = r * 1103515245 + 12345; low[i] = (short)((i / 100 % 2 ? 1500 : -1500) + (int)(r >> 16) % 900); if (i < 1024) tick[i] = (short)(i == 20 ? 20000 : 0); }
    for (int i = 0; i < 512; i++) sq[i] = (short)(i < 256 ? 6000 : -6000); for (int i = 0; i < 300; i++) loud[i] = (short)(i % 150 < 75 ? 32000 : -32000);
    d_wave w[5] = { { 16, 44100, low, sizeof low }, { 16, 44100, sq, sizeof sq }, { 16, 44100, loud, sizeof loud }, { 16, 44100, tick, sizeof tick }, { 16, 44100, boom, sizeof boom } }; d_rgn g[5]; d_ins in[5]; memset(g, 0, sizeof g); memset(in, 0, sizeof in);
    static const int LEN[] = { 2048, 512, 300, 1024, 4096 };
    for (int i = 0; i < 5; i++) { w[i].rate = (int)SR; g[i] = (d_rgn){ .khi = 127, .vhi = 127, .wave = i }; w[i].w = (d_wsmp){ 1, 60, 0, 0, 1, 0, LEN[i] }; in[i] = (d_ins){ .prog = (u32)i, .r = &g[i], .nr = 1, .art = dls_flat, .nart = dls_nflat }; }
    dls_build(&bank, in, 5, w, 5);
    int d = mc_thorough ? 5 : 4;
    mc_bound("wet 0 to 32767 x 4 rooms x 5 dry levels x quiet and loud; chorus: all 41 rates x 46 depths x 3 levels and the 4 presets over two turns; tails of 216 sounds in 4 rooms; every sequence of 29 settings, notes and frames up to depth %d", d);
    mc_model x = { .name = "orders", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 }; mc_explore(&x);
    mc_space t = { .name = "tails", .n = 216, .run = tail, .describe = tail_describe, .cpu_limit = 60 }; mc_enumerate(&t);
    mc_space c = { .name = "chorus", .n = (u64)(5 * 41 * 46 * 3), .run = chorus, .describe = chorus_describe, .cpu_limit = 60 }; mc_enumerate(&c);
    mc_space q = { .name = "chorus levels", .n = 538 * 2 * 4, .run = chorus_levels, .describe = chorus_levels_describe, .cpu_limit = 60 }; mc_enumerate(&q);
    mc_space s = { .name = "levels", .n = 32768ull * 4 * NDRY * 2, .run = levels, .describe = levels_describe, .cpu_limit = 60 }; mc_enumerate(&s);
}
