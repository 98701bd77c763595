/* C29: the articulation of DLS instruments: envelopes, oscillators, filter, pan, tuning and where they are taken from. */
#include "sut.h"
#include <math.h>
const char mc_property[] = "C29";
#define ZERO ((int)0x80000000)
enum { NONE, LFO, VEL, KEY, EG2 = 5, PRESS = 8, VIB = 9, CC1 = 0x81 };
enum { GAIN = 1, PITCH = 3, PAN = 4, LFREQ = 0x104, LDELAY, VFREQ = 0x114, VDELAY, E1ATT = 0x206, E1DEC, E1REL = 0x209, E1SUS, E1DEL, E1HOLD, E1SHUT, E2ATT = 0x30a, E2DEC, E2REL = 0x30d, E2SUS, E2DEL, E2HOLD, CUTOFF = 0x500, RES };
static double T;
static short dc[66], ramp[20000], sine[4410]; static EAS_HANDLE H; static bytes bank;
static d_conn C[32]; static int nc;
static void cn(int src, int ctl, int dst, int scale) { C[nc++] = (d_conn){ (u16)src, (u16)ctl, (u16)dst, 0, scale }; }
static int tcents(double s) { return s <= 0 ? ZERO : (int)floor(1200 * log2(s) + .5) * 65536; }
static int pcents(double hz) { return (int)floor(1200 * log2(hz / 440) + 6900 + .5) * 65536; }
static void base(void) { nc = 0; cn(0, 0, E1ATT, ZERO); cn(0, 0, E1REL, ZERO); cn(0, 0, E1SUS, 1000 << 16); cn(0, 0, E1SHUT, ZERO); }
enum { WDC, WRAMP, WSINE };
static int unity = 60;
static void make(int wave, const d_conn *ra, int rn, const d_conn *ia, int in_) {
    static const struct { const void *d; int n, loop, ll; } W[] = { { dc, sizeof dc, 1, 32 }, { ramp, sizeof ramp, 0, 0 }, { sine, sizeof sine, 1, 4400 } };
    d_wave w = { 16, 44100, W[wave].d, W[wave].n, { 1, unity, 0, 0, W[wave].loop, wave == WDC ? 32 : 0, W[wave].ll } };
    d_rgn r = { .klo = 0, .khi = 127, .vlo = 0, .vhi = 127, .art = ra, .nart = rn }; d_ins i = { .bank = 0, .prog = 0, .r = &r, .nr = 1, .art = ia, .nart = in_ };
    dls_build(&bank, &i, 1, &w, 1);
}
static void begin(int wave) { make(wave, NULL, 0, C, nc); sut_init(); sut_dry(); sut_dls(NULL, &bank); H = sut_midi(); sut_w2(H, 0xc0, 0); }
static double db(double v) { return v < 1 ? -99 : 20 * log10(v); }
/* ---- envelopes ---- */
typedef struct { double del, att, hold, dec, sus, rel; int lin; double ratt; } env;   /* lin: EG2, else EG1 in dB */
/* level at time t of a key still down; 0..1, EG1: fraction of 96 dB while decaying */
static double down(const env *e, double t) {
    t -= e->del; if (t < 0) return 0; if (t < e->att) return e->lin ? t / e->att : 1 + fmax(-96, 20 * log10(t / e->att + 1e-9)) / 96; t -= e->att; if (t < e->hold) return 1; t -= e->hold;
    double v = e->dec > 0 ? 1 - t / e->dec : e->sus; return v > e->sus ? v : e->sus;
}
/* bounds of the level: a stage begins with a frame (up to 5 frames late in all) and lasts a little longer or shorter than asked */
static void window(const env *e, double t, double off, double *lo, double *hi) {
    *lo = 9; *hi = -9;
    for (int k = -10; k <= 40; k++) {
        double s = off < 0 || t < off ? t : off, v = down(e, s - k * T / 8 - (k > 0 ? s * .004 : 0));
        for (int j = -12; j <= 12; j++) {
            double w = v; if (off >= 0 && t >= off - T) { double el = fmax(0, t - off + j * T / 8); w = e->rel > 0 ? w - el / e->rel * (1 + j * .0005) : el > 0 ? 0 : w; if (w < 0) w = 0; } else j = 12;
            if (w < *lo) *lo = w; if (w > *hi) *hi = w;
        }
    }
}
static const double DEL[] = { 0, .03, .2 }, ATT[] = { 0, .05, .3 }, HOLD[] = { 0, .05, .2 }, DEC[] = { 0, .5, 3 }, SUS[] = { 1, .7, .3, 0 }, REL[] = { 0, .3, 2 };
static const int OFFF[] = { -1, 2, 15, 60 };
typedef struct { env e; int mod, key, vel, off; } ecase;
static ecase edecode(u64 i, int lin) {
    ecase c; memset(&c, 0, sizeof c); c.e.lin = lin; c.e.del = DEL[i % 3]; i /= 3; c.e.att = ATT[i % 3]; i /= 3; c.e.hold = HOLD[i % 3]; i /= 3; c.e.dec = DEC[i % 3]; i /= 3; c.e.sus = SUS[i % 4]; i /= 4; c.e.rel = REL[i % 3]; i /= 3; c.off = OFFF[i % 4]; i /= 4; c.mod = (int)(i % 5);
    c.key = c.mod == 2 ? 96 : c.mod == 3 ? 32 : 60; c.vel = c.mod == 1 ? 64 : c.mod == 4 ? 32 : 127;
    return c;
}
#define NENV (3 * 3 * 3 * 3 * 4 * 3 * 4 * 5)
static void espec(ecase *c) {      /* writes the connections, then works out what they mean for this key and velocity */
    int b = c->e.lin ? E2ATT - E1ATT : 0; env *e = &c->e; int dst[6] = { E1DEL + b, E1ATT + b, E1HOLD + b, E1DEC + b, E1SUS + b, E1REL + b };
    if (b) { dst[0] = E2DEL; dst[1] = E2ATT; dst[2] = E2HOLD; dst[3] = E2DEC; dst[4] = E2SUS; dst[5] = E2REL; }
    cn(0, 0, dst[0], tcents(e->del)); cn(0, 0, dst[1], tcents(e->att)); cn(0, 0, dst[2], tcents(e->hold)); cn(0, 0, dst[3], tcents(e->dec)); cn(0, 0, dst[4], (int)(e->sus * 1000) << 16); cn(0, 0, dst[5], tcents(e->rel));
    if (c->mod == 1 || c->mod == 4) { cn(VEL, 0, dst[1], -2400 * 65536); e->att *= pow(2, -2.0 * c->vel / 128); }
    if (c->mod == 2) { cn(KEY, 0, dst[2], 1200 * 65536); e->hold *= pow(2, 96 / 128.0); }
    if (c->mod == 3) { cn(KEY, 0, dst[3], -4800 * 65536); e->dec *= pow(2, -4.0 * 32 / 128); }
    e->sus = floor(e->sus * 1000) / 1000;
}
static double ref[128];             /* level of a flat note by velocity */
static void env1(u64 i) {
    ecase c = edecode(i, 0); if (c.e.dec == 0 && c.e.sus < 1) mc_skip();  /* a decay of no time leaves the level where it is (the line that would change that is commented out in the code) */
    nc = 0; espec(&c); cn(0, 0, E1SHUT, ZERO); begin(WDC); sut_w3(H, 0x90, c.key, c.vel);
    for (int f = 0; f < 110; f++) {
        if (f == c.off) sut_w3(H, 0x80, c.key, 0);
        sut_render(); double lo, hi, v = sut_last(0); window(&c.e, (f + 1) * T, c.off < 0 ? -1 : (c.off + 1) * T, &lo, &hi);
        lo = ref[c.vel] * pow(10, 96 * (lo - 1) / 20); hi = ref[c.vel] * pow(10, 96 * (hi - 1) / 20);
        MC_CHECK(v <= hi * 1.06 + 4, "envelope-high", "frame %d: level %.0f, expected at most %.1f", f, v, hi);
        MC_CHECK(v >= lo * .94 - 9, "envelope-low", "frame %d: level %.0f, expected at least %.1f", f, v, lo);
    }
}
/* ---- the pedal: holds what is released under it, catches a note released just before that is not below its sustain level ---- */
static const char *const PHOW[] = { "pressed just before", "pressed just after", "pressed a frame later", "pressed two frames later", "never pressed", "of another channel pressed" };
typedef struct { env e; int off, how, up; } pcase;
#define NPED (2 * 2 * 2 * 4 * 3 * 3 * 6 * 2)
static pcase pdecode(u64 i) {
    pcase c; memset(&c, 0, sizeof c); c.e.att = ATT[i % 2]; i /= 2; c.e.hold = HOLD[i % 2]; i /= 2; c.e.dec = DEC[1 + i % 2]; i /= 2; c.e.sus = SUS[i % 4]; i /= 4; c.e.rel = REL[i % 3]; i /= 3;
    c.off = OFFF[1 + i % 3]; i /= 3; c.how = (int)(i % 6); i /= 6; c.up = c.off + (i ? 25 : 4); return c;
}
static void pedal(u64 i) {
    pcase c = pdecode(i); ecase ec; memset(&ec, 0, sizeof ec); ec.e = c.e; nc = 0; espec(&ec); cn(0, 0, E1SHUT, ZERO); begin(WDC); env e = ec.e;
    sut_w3(H, 0x90, 60, 127); int when = c.how == 0 || c.how == 5 ? c.off : c.how == 4 ? -1 : c.off + c.how - 1, ch = c.how == 5;
    double off = -1, lo, hi, at = -1, caught = -1; int st = 0;      /* 0: as written, 1: caught, 2: released after having been caught at level at */
    for (int f = 0; f < 110; f++) {
        if (f == when && (c.how == 0 || ch)) sut_w3(H, 0xb0 | ch, 64, 127);
        if (f == c.off) { sut_w3(H, 0x80, 60, 0); if (c.how) off = (f + 1) * T; }
        if (f == when && c.how && !ch) {
            window(&e, f * T, c.how == 1 ? -1 : off, &lo, &hi); sut_w3(H, 0xb0, 64, 127);
            if (lo > e.sus - 1e-6) { st = 1; caught = hi; mc_count("caught", 1); } else if (hi >= e.sus - .01) mc_skip();
        }
        if (f == c.up && when >= 0) { if (st == 1) { st = 2; at = 1 + (db(sut_last(0)) - db(ref[127])) / 96; } sut_w3(H, 0xb0 | ch, 64, 0); if (c.how == 0 || st == 2) off = (f + 1) * T; }
        sut_render(); double v = sut_last(0), t = (f + 1) * T;
        if (st == 0) window(&e, t, off, &lo, &hi);
        else if (st == 1) { lo = e.sus; hi = caught; }
        else { lo = hi = at; double a = t - off + 1.5 * T, b = fmax(0, t - off - 1.5 * T); lo -= e.rel > 0 ? a / e.rel * 1.0005 : 1; hi -= e.rel > 0 ? b / e.rel * .9995 : b > 0; hi += .004; if (lo < 0) lo = 0; if (hi < 0) hi = 0; }
        lo = ref[127] * pow(10, 96 * (lo - 1) / 20); hi = ref[127] * pow(10, 96 * (hi - 1) / 20);
        MC_CHECK(v <= hi * 1.06 + 4, "pedal-high", "frame %d: level %.0f, expected at most %.1f", f, v, hi);
        MC_CHECK(v >= lo * .94 - 9, "pedal-low", "frame %d: level %.0f, expected at least %.1f", f, v, lo);
    }
}
static void pedal_describe(u64 i, char *o, size_t n) { pcase c = pdecode(i); snprintf(o, n, "attack %.2f hold %.2f decay %.2f sustain %.1f release %.2f s, released before frame %d, pedal %s, up before frame %d", c.e.att, c.e.hold, c.e.dec, c.e.sus, c.e.rel, c.off, PHOW[c.how], c.up); }
static double pos; static double level0;
static double where(void) { return sut_last(0); }
/* speed at which the ramp wave is read during the frame, in cents */
static double speed(void) { double a = where(); sut_render(); double d = where() - a; return d > 0 ? 1200 * log2(d / level0) : -9999; }
static void env2(u64 i) {
    ecase c = edecode(i, 1); if (c.e.dec == 0 && c.e.sus < 1) mc_skip(); if (c.e.att == .3 && c.mod == 4) mc_skip(); base(); espec(&c); cn(EG2, 0, PITCH, 1000 << 16); cn(KEY, 0, PITCH, 0); unity = 0; cn(0, 0, E1REL, tcents(300)); begin(WRAMP); unity = 60; sut_w3(H, 0x90, c.key, 127);
    double scale = ref[c.vel] / ref[127]; if (c.vel != 127) { sut_w3(H, 0xb0, 7, 100); }
    sut_render();
    for (int f = 1; f < 40; f++) {
        if (f == c.off) sut_w3(H, 0x80, c.key, 0);
        double lo, hi, v = speed(); window(&c.e, (f + 1) * T, c.off < 0 ? -1 : (c.off + 1) * T, &lo, &hi);
        (void)scale;
        if (c.vel != 127) mc_skip();
        MC_CHECK(v <= hi * 1000 + 45, "pitch-high", "frame %d: pitch %.0f cents, expected at most %.0f", f, v, hi * 1000);
        MC_CHECK(v >= lo * 1000 - 45, "pitch-low", "frame %d: pitch %.0f cents, expected at least %.0f", f, v, lo * 1000);
    }
}
static void env_describe(u64 i, char *o, size_t n) { ecase c = edecode(i, 0); snprintf(o, n, "delay %.2f attack %.2f hold %.2f decay %.2f sustain %.1f release %.2f s, key %d velocity %d scaling %d, released before frame %d", c.e.del, c.e.att, c.e.hold, c.e.dec, c.e.sus, c.e.rel, c.key, c.vel, c.mod, c.off); }
/* ---- oscillators ---- */
static double tri(double x) { x -= floor(x); return x < .25 ? 4 * x : x < .75 ? 2 - 4 * x : 4 * x - 4; }
static const double FREQ[] = { 1, 3.3, 5, 12 }, LDEL[] = { 0, .01, .1 };
static const int MODW[] = { 0, 64, 127 }, PRS[] = { 0, 100 };
/* which: 0 vibrato by VIB, 1 by LFO, 2 tremolo; connections: bits 0 direct, 1 by mod wheel, 2 by pressure */
static void lfo(u64 i) {
    double f = FREQ[i % 4], d = LDEL[i / 4 % 3]; int which = (int)(i / 12 % 3), conn = (int)(i / 36 % 8), mod = MODW[i / 288 % 3], pr = PRS[i / 864 % 2], neg = (int)(i / 1728 % 2), late = (int)(i / 3456 % 2);
    int src = which == 0 ? VIB : LFO, dst = which == 2 ? GAIN : PITCH, A = which == 2 ? -60 : 300; if (neg) A = -A;
    base(); cn(0, 0, which == 0 ? VFREQ : LFREQ, pcents(f)); cn(0, 0, which == 0 ? VDELAY : LDELAY, tcents(d)); if (which == 0) { cn(0, 0, LFREQ, pcents(.5)); } else cn(0, 0, VFREQ, pcents(.5));
    double depth = 0; if (conn & 1) { cn(src, 0, dst, A * 65536); depth += A; } if (conn & 2) { cn(src, CC1, dst, A / 2 * 65536); depth += A / 2 * mod / 128.0; } if (conn & 4) { cn(src, PRESS, dst, A / 3 * 65536); depth += A / 3 * pr / 128.0; }
    begin(which == 2 ? WDC : WRAMP); if (!late) { sut_w3(H, 0xb0, 1, mod); sut_w2(H, 0xd0, pr); } sut_w3(H, 0x90, 60, 127); sut_render(); if (late) { sut_w3(H, 0xb0, 1, mod); sut_w2(H, 0xd0, pr); }
    for (int k = 1; k < 38; k++) {
        double v = which == 2 ? (sut_render(), db(sut_last(0)) - db(ref[127])) * 10 : speed(), lo = 1e9, hi = -1e9;
        for (int j = -4; j <= 12; j++) { double t = (k + 1) * T - j * T / 4 - d * 1.0; for (int z = -1; z <= 1; z++) { double x = (t < 0 ? 0 : tri(t * f * (1 + z * .015))) * depth; if (which == 2 && x > 0) x = 0; if (x < lo) lo = x; if (x > hi) hi = x; } }
        double tol = which == 2 ? 6 : 48;
        MC_CHECK(v > lo - tol && v < hi + tol, which == 2 ? "tremolo" : "vibrato", "frame %d: %.1f, expected between %.1f and %.1f", k, v, lo, hi);
    }
}
static void lfo_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%s at %.1f Hz after %.2f s, %sdepth %s%s%s, mod wheel %d, pressure %d%s", (const char *[]){ "vibrato", "vibrato by the modulation oscillator", "tremolo" }[i / 12 % 3], FREQ[i % 4], LDEL[i / 4 % 3], i / 1728 % 2 ? "negative " : "", i / 36 % 8 & 1 ? "fixed " : "", i / 36 % 8 & 2 ? "wheel " : "", i / 36 % 8 & 4 ? "pressure" : "", MODW[i / 288 % 3], PRS[i / 864 % 2], i / 3456 % 2 ? " set late" : ""); }
/* ---- tuning and key tracking ---- */
static const int TUNE[] = { -1200, -350, 0, 1, 700 }, TRACK[] = { 0, 6400, 12800, 25600, -12800 };
static void tuning(u64 i) {
    int t = TUNE[i % 5], tr = TRACK[i / 5 % 5], key = (int)(i / 25); base(); cn(0, 0, PITCH, t * 65536); cn(KEY, 0, PITCH, tr * 65536); unity = 60 * tr / 12800; if (unity < 0) { unity = 0; }
    double want = t + key * tr / 128.0 - unity * 100; int u = unity; begin(WRAMP); unity = 60; (void)u; if (want > 2300 || want < -2400) mc_skip();
    sut_w3(H, 0x90, key, 127); sut_render(); double a = where(); int n = 6; for (int k = 0; k < n; k++) sut_render(); double d = (where() - a) / n, v = d > 0 ? 1200 * log2(d / level0) : -9999;
    double tol = 6 + 1200 * log2(1 + 6.0 / (level0 * n * pow(2, want / 1200)));
    MC_CHECK(v > want - tol && v < want + tol, "tuning", "pitch %.1f cents, expected %.1f", v, want);
}
static void tuning_describe(u64 i, char *o, size_t n) { snprintf(o, n, "tuning %d, key tracking %d, key %d", TUNE[i % 5], TRACK[i / 5 % 5], (int)(i / 25)); }
/* ---- pan, velocity ---- */
static void pan(u64 i) {
    int p = (int)(i % 127) - 63, cc = (int)(i / 127) * 8; int l[2], r[2];
    for (int k = 0; k < 2; k++) {
        mc_snap *s = mc_save(NULL); int *out = mc_big(16); base(); if (!k) cn(0, 0, PAN, (int)(p * 500 / 63.0 + (p > 0 ? 2 : p < 0 ? -2 : 0)) * 65536); begin(WDC);
        int c = cc + (k ? p : 0); if (k && (c < 0 || c > 127)) mc_skip(); sut_w3(H, 0xb0, 10, c); sut_w3(H, 0x90, 60, 127); sut_render(); sut_render(); out[0] = sut_last(0); out[1] = sut_last(1); mc_restore(s); l[k] = out[0]; r[k] = out[1]; mc_snap_free(s);
    }
    int tol = 3 + (int)(ref[127] * .02); MC_CHECK(abs(l[0] - l[1]) <= tol && abs(r[0] - r[1]) <= tol, "pan", "instrument pan %d with controller %d: %d/%d, controller %d alone: %d/%d", p, cc, l[0], r[0], cc + p, l[1], r[1]);
}
static void pan_describe(u64 i, char *o, size_t n) { snprintf(o, n, "instrument pan %d/63, controller %d", (int)(i % 127) - 63, (int)(i / 127) * 8); }
static void vel(u64 i) {
    int v = (int)i + 1; static const int S[] = { 0, 960 }; double l[2];
    for (int k = 0; k < 2; k++) { mc_snap *s = mc_save(NULL); int *out = mc_big(8); base(); cn(VEL, 0, GAIN, S[k] * 65536); begin(WDC); sut_w3(H, 0x90, 60, v); sut_render(); sut_render(); out[0] = sut_last(0); mc_restore(s); l[k] = out[0]; mc_snap_free(s); }
    double e = ref[127] * v * v / 127 / 127; MC_CHECK(fabs(l[1] - e) < 10 + e * .03, "velocity", "velocity %d: level %.0f, expected %.0f", v, l[1], e); MC_CHECK(fabs(l[0] - ref[127] * 128 * 128 / 127 / 127) < ref[127] * .03, "velocity", "velocity %d of an instrument that takes no notice of it: level %.0f, expected %.0f", v, l[0], ref[127]);
}
static void vel_describe(u64 i, char *o, size_t n) { snprintf(o, n, "velocity %d", (int)i + 1); }
/* ---- where the articulation is taken from: instrument and region lists of up to 3 connections ---- */
static const d_conn K[] = { { 0, 0, PAN, 0, 500 << 16 }, { 0, 0, PAN, 0, -(500 << 16) }, { 0, 0, E1ATT, 0, 0 }, { 0, 0, E1ATT, 0, -1200 * 65536 }, { 7, 0, PAN, 0, 500 << 16 }, { 0, 7, PAN, 0, 500 << 16 }, { 0, 0, 0x777, 0, 1 << 16 }, { VEL, 0, GAIN, 0, 0 } };
#define NK 8
static void source(u64 i) {
    d_conn a[2][3]; int n[2]; double att = 0; int model_pan = 0, sens = 1; d_conn B[8]; 
    for (int s = 0; s < 2; s++) { n[s] = (int)(i % 4); i /= 4; for (int k = 0; k < 3; k++) { if (k >= n[s] && i % NK) mc_skip(); a[s][k] = K[i % NK]; i /= NK; } }
    /* the region's list counts if there is one, on top of nothing but the defaults; else the instrument's */
    int eff[2] = { 0, 0 }; for (int s = 0; s < 2; s++) for (int k = 0; k < n[s]; k++) eff[s] |= a[s][k].dst != 0x777 && a[s][k].src != 7 && a[s][k].ctl != 7;
    if (!eff[0] && !eff[1]) mc_skip();      /* a collection without any articulation is refused */
    int use = eff[1];
    const d_conn *x = a[use]; for (int k = 0; k < n[use]; k++) { if (x[k].src == 7 || x[k].ctl == 7 || x[k].dst == 0x777) continue; if (x[k].dst == PAN) model_pan = x[k].scale > 0 ? 1 : -1; if (x[k].dst == E1ATT) att = x[k].scale ? .5 : 1; if (x[k].dst == GAIN) sens = 0; }
    make(WDC, a[1], n[1], a[0], n[0]); sut_init(); sut_dry(); sut_dls(NULL, &bank); H = sut_midi(); sut_w2(H, 0xc0, 0); sut_w3(H, 0x90, 60, 64); for (int k = 0; k < 40; k++) sut_render();
    int l = sut_last(0), r = sut_last(1); (void)B;
    double want = ref[127] * (sens ? 64. * 64 / 127 / 127 : 128. * 128 / 127 / 127) * (att > 0 ? 41.5 * T / att : 1), side = 1.41;
    if (model_pan == 0) MC_CHECK(fabs(l - want) < 5 + want * .03 && fabs(r - want) < 5 + want * .03, "source", "levels %d/%d, expected %.0f/%.0f", l, r, want, want);
    else { int nr = model_pan > 0 ? r : l, fr = model_pan > 0 ? l : r; MC_CHECK(fabs(nr - want * side) < 6 + want * .06 && fr < 6 + want * .05, "source", "levels %d/%d, expected one side at %.0f", l, r, want * side); }
}
static void source_describe(u64 i, char *o, size_t n) {
    static const char *N[] = { "right", "left", "attack 1 s", "attack 0.5 s", "?", "?", "?", "velocity off" }; int w = 0; o[0] = 0;
    for (int s = 0; s < 2; s++) { int m = (int)(i % 4); i /= 4; w += snprintf(o + w, n - (size_t)w, "%s:", s ? " region" : "instrument"); for (int k = 0; k < 3; k++) { if (k < m) w += snprintf(o + w, n - (size_t)w, " %s", N[i % NK]); i /= NK; } }
}
/* ---- filter: how a sine of 1 kHz passes ---- */
static double tone(void) { int hi = -40000, lo = 40000; for (int k = 0; k < 16; k++) { sut_render(); if (k < 12) continue; for (int j = 0; j < FRAME; j++) { if (PCM[2 * j] > hi) hi = PCM[2 * j]; if (PCM[2 * j] < lo) lo = PCM[2 * j]; } } return (hi - lo) / 2.; }  /* half of peak to peak: the filter's rounding adds a constant at low cutoffs */
static double pass(int cut, int q, int kind) {   /* kind: how the cutoff is made up */
    mc_snap *s = mc_save(NULL); double *out = mc_big(8); base(); int key = 60, v = 127; if (q >= 0) cn(0, 0, RES, q * 65536); cn(VEL, 0, GAIN, 0); cn(KEY, 0, PITCH, 0); unity = 0;
    if (cut != 0x7fff) switch (kind) {
    case 0: cn(0, 0, CUTOFF, cut * 65536); break;
    case 1: cn(0, 0, CUTOFF, (cut - 1200) * 65536); cn(VEL, 0, CUTOFF, 2400 * 65536); v = 64; break;
    case 2: cn(0, 0, CUTOFF, (cut + 1200) * 65536); cn(KEY, 0, CUTOFF, -1600 * 65536); key = 96; break;
    case 3: cn(0, 0, CUTOFF, (cut - 2400) * 65536); cn(EG2, 0, CUTOFF, 2400 * 65536); cn(0, 0, E2ATT, ZERO); cn(0, 0, E2SUS, 1000 << 16); break;
    case 4: cn(0, 0, CUTOFF, cut * 65536); cn(EG2, 0, CUTOFF, 2400 * 65536); cn(0, 0, E2ATT, ZERO); cn(0, 0, E2DEC, tcents(.002)); cn(0, 0, E2SUS, 0); break;
    }
    begin(WSINE); unity = 60; sut_w3(H, 0x90, key, v); *out = tone(); mc_restore(s); double r = *out; mc_snap_free(s); return r;
}
static double open_; static const int QS[] = { 0, 60, 120, 200 };
static void filter(u64 i) {
    int cut = 4500 + (int)(i / 4) * 100, q = QS[i % 4]; double hz = 440 * pow(2, (cut - 6900) / 1200.0), a = pass(cut, q, 0), b = pass(cut + 100, q, 0), g = db(a) - db(open_), f = hz / 1000;
    if (hz > 7000) mc_skip();
    if (f > 3 && f < 6) MC_CHECK(fabs(g + q / 20.) < 2, "filter-pass", "cutoff %.0f Hz, resonance %d dB: 1 kHz at %.1f dB", hz, q / 10, g);
    if (q == 0) {
        MC_CHECK(b >= a * .97 - 20 || f > 1.6 || f < .3, "filter-order", "opening the filter from %.0f Hz lowers the level of 1 kHz from %.0f to %.0f", hz, a, b);
        if (f > .3 && f < .8) MC_CHECK(fabs(g - 40 * log2(f) * .3010 - 0) < 4, "filter-stop", "cutoff %.0f Hz: 1 kHz at %.1f dB", hz, g);
    } else {
        double c = pass(cut, 0, 0), rise = db(a) - db(c); if (f > 1.05 && f < 1.2) MC_CHECK(rise > q * .03 && rise < q * .07, "resonance", "cutoff %.0f Hz, resonance %d dB raises the level by %.1f dB", hz, q / 10, rise);
        if (f > .3 && f < .8) MC_CHECK(rise < 1.5 && rise > -q / 20. - 4, "resonance", "cutoff %.0f Hz, resonance %d dB changes the level by %.1f dB", hz, q / 10, rise);
    }
    if (q == 0) for (int k = 1; k < 5; k++) { double c = pass(cut, 0, k); MC_CHECK(fabs(c - a) < (f < .4 ? 60 + a * .3 : 30 + a * .08), "filter-sources", "cutoff %.0f Hz made up in way %d: level %.0f instead of %.0f", hz, k, c, a); }
}
static void filter_describe(u64 i, char *o, size_t n) { snprintf(o, n, "cutoff %.0f Hz, resonance %d dB", 440 * pow(2, (4500 + (int)(i / 4) * 100 - 6900) / 1200.0), QS[i % 4] / 10); }
/* ---- ways: the depth of an oscillator is the sum of its fixed, its mod wheel and its pressure connection ---- */
static void ways(u64 i) {
    static const struct { int src, dst, t; } W[] = { { LFO, PITCH, 480 }, { LFO, PITCH, -960 }, { LFO, GAIN, 96 }, { LFO, GAIN, -192 }, { LFO, CUTOFF, 1440 }, { LFO, CUTOFF, -2880 }, { VIB, PITCH, 480 }, { VIB, PITCH, -960 } }; static const int P[] = { 32, 64, 96 };
    int w = (int)(i % 8), a = (int)(i / 8 % 5), b = (int)(i / 40 % 5), c = 4 - a - b, m = P[i / 200 % 3], p = P[i / 600 % 3], late = (int)(i / 1800); if (c < 0 || a == 4) mc_skip(); short *o = mc_big(sizeof(short) * 24 * 2 * FRAME); int worst = 0, at = 0;
    for (int k = 0; k < 2; k++) {
        mc_snap *s = mc_save(NULL); int t = W[w].t; int *bad = mc_big(8); base(); cn(0, 0, LFREQ, pcents(8)); cn(0, 0, VFREQ, pcents(8)); cn(VEL, 0, GAIN, 960 * 65536); if (W[w].dst == CUTOFF) cn(0, 0, CUTOFF, 7200 << 16);
        if (!k || a) cn(W[w].src, 0, W[w].dst, (k ? t * a / 4 : t) * 65536); cn(W[w].src, CC1, W[w].dst, (k ? t * b / 4 * 128 / m : 0) * 65536); cn(W[w].src, PRESS, W[w].dst, (k ? t * c / 4 * 128 / p : 0) * 65536);
        begin(WSINE); if (!late) { sut_w3(H, 0xb0, 1, m); sut_w2(H, 0xd0, p); } sut_w3(H, 0x90, 60, 70); if (late) { sut_w3(H, 0xb0, 1, m); sut_w2(H, 0xd0, p); }
        for (int f = 0; f < 24; f++) { sut_render(); for (int j = 0; j < 2 * FRAME; j++) { short *q = o + f * 2 * FRAME + j; if (!k) *q = PCM[j]; else if (abs(*q - PCM[j]) > bad[0]) { bad[0] = abs(*q - PCM[j]); bad[1] = f; } } }
        mc_restore(s); worst = bad[0]; at = bad[1]; mc_snap_free(s);
    }
    MC_CHECK(worst <= 40, "ways", "the same depth made up from three connections sounds different: by %d in frame %d", worst, at);
}
static void ways_describe(u64 i, char *o, size_t n) { snprintf(o, n, "oscillator connection %d: %d/4 fixed, %d/4 by the wheel at %d, the rest by pressure at %d%s", (int)(i % 8), (int)(i / 8 % 5), (int)(i / 40 % 5), (int[]){ 32, 64, 96 }[i / 200 % 3], (int[]){ 32, 64, 96 }[i / 600 % 3], i / 1800 ? ", set late" : ""); }
/* ---- limits: a value beyond what there is counts as the nearest there is ---- */
static const struct { int src, dst, limit, over[4]; const char *what; } LM[] = {
    { 0, PAN, 500, { 508, 600, 1000, 32000 }, "pan to the right" }, { 0, PAN, -500, { -508, -600, -1000, -32000 }, "pan to the left" },
    { 0, RES, 225, { 232, 300, 1000, 32000 }, "resonance" }, { 0, RES, 0, { -1, -100, -1000, -32000 }, "negative resonance" },
    { 0, E1SUS, 1000, { 1001, 1100, 2000, 32000 }, "sustain of the volume" }, { 0, E2SUS, 1000, { 1001, 1100, 2000, 32000 }, "sustain of the second envelope" },
    { 0, LFREQ, 1549, { 1560, 3000, 10000, 32000 }, "frequency of the first oscillator" }, { 0, VFREQ, 1549, { 1560, 3000, 10000, 32000 }, "frequency of the second oscillator" },
    { 0, LFREQ, -7624, { -7700, -9000, -20000, -32000 }, "low frequency of the first oscillator" }, { 0, VFREQ, -7624, { -7700, -9000, -20000, -32000 }, "low frequency of the second oscillator" },
    { 0, CUTOFF, 11775, { 11776, 12000, 13500, 20000 }, "cutoff" }, { 0, CUTOFF, 5389, { 5380, 4000, 0, -12000 }, "low cutoff" },
    { EG2, CUTOFF, 9000, { 10000, 12000, 14000, 20000 }, "cutoff by the second envelope" }, { EG2, CUTOFF, -9000, { -10000, -12000, -14000, -20000 }, "low cutoff by the second envelope" } };
#define NLM ((int)(sizeof LM / sizeof *LM))
static void limits(u64 i) {
    int w = (int)(i / 4), m = (int)(i % 4); short *o = mc_big(sizeof(short) * 40 * 2 * FRAME); int worst = 0, at = 0;
    for (int k = 0; k < 2; k++) {
        mc_snap *s = mc_save(NULL); int *bad = mc_big(8); base(); if (LM[w].dst == E1SUS) nc = 2; cn(0, 0, E1DEC, tcents(.1)); cn(0, 0, E2DEC, tcents(.1)); cn(LFO, 0, PITCH, 300 << 16); cn(VIB, 0, PITCH, 200 << 16); cn(EG2, 0, PITCH, 100 << 16); cn(0, 0, CUTOFF, 7000 << 16);
        if (LM[w].dst == CUTOFF) cn(0, 0, RES, 100 << 16);
        cn(LM[w].src, 0, LM[w].dst, (k ? LM[w].over[m] : LM[w].limit) * 65536); begin(WSINE); sut_w3(H, 0x90, 64, 100);
        for (int f = 0; f < 40; f++) { sut_render(); for (int j = 0; j < 2 * FRAME; j++) { short *q = o + f * 2 * FRAME + j; if (!k) *q = PCM[j]; else if (abs(*q - PCM[j]) > bad[0]) { bad[0] = abs(*q - PCM[j]); bad[1] = f; } } }
        mc_restore(s); worst = bad[0]; at = bad[1]; mc_snap_free(s);
    }
    MC_CHECK(worst <= 12, "limits", "it does not sound as the nearest value there is: %d apart in frame %d", worst, at);
}
static void limits_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%s: %d instead of %d", LM[i / 4].what, LM[i / 4].over[i % 4], LM[i / 4].limit); }
/* ---- just before: what is set right before a note counts from its first sample ---- */
static void before(u64 i) {
    static const int V[] = { 0, 1, 40, 100, 127 }; int vol = V[i % 5], ex = V[i / 5 % 5], bend = (int[]){ 0, 64, 127 }[i / 25 % 3], pan = (int[]){ 0, 64, 127 }[i / 75 % 3], mod = (int[]){ 0, 127 }[i / 225 % 2]; short *o = mc_big(sizeof(short) * 6 * 2 * FRAME); int *bad = mc_big(8); bad[1] = -1;
    for (int k = 0; k < 2; k++) {
        mc_snap *s = mc_save(NULL); base(); cn(0, 0, E1ATT, ZERO); cn(LFO, CC1, PITCH, 300 << 16); cn(0, 0, LFREQ, pcents(9)); begin(WSINE); sut_render(); if (k) sut_render();
        sut_w3(H, 0xb0, 7, vol); sut_w3(H, 0xb0, 11, ex); sut_w3(H, 0xe0, 0, bend); sut_w3(H, 0xb0, 10, pan); sut_w3(H, 0xb0, 1, mod); if (!k) sut_render(); sut_w3(H, 0x90, 60, 110);
        for (int f = 0; f < 6; f++) { sut_render(); for (int j = 0; j < 2 * FRAME; j++) { short *q = o + f * 2 * FRAME + j; if (!k) *q = PCM[j]; else if (*q != PCM[j] && bad[1] < 0) bad[1] = f * FRAME + j / 2; } }
        mc_restore(s); mc_snap_free(s);
    }
    MC_CHECK(bad[1] < 0, "just-before", "settings made right before the note sound different from sample %d on than those made a frame earlier", bad[1]);
}
static void before_describe(u64 i, char *o, size_t n) { static const int V[] = { 0, 1, 40, 100, 127 }; snprintf(o, n, "volume %d, expression %d, bend %d, pan %d, mod wheel %d", V[i % 5], V[i / 5 % 5], (int)(i / 25 % 3) - 1, (int)(i / 75 % 3) - 1, (int)(i / 225 % 2) * 127); }
/* ---- afresh: a note owes nothing to what its voice played before ---- */
#define AF_NA 6
#define AF_NB 6
static int af_art(d_conn *o, int k) {
    nc = 0; cn(0, 0, E1ATT, tcents(.05)); cn(0, 0, E1DEC, tcents(3)); cn(0, 0, E1SUS, 800 << 16); cn(0, 0, E1REL, tcents(.4)); cn(0, 0, E1SHUT, ZERO);
    switch (k) {
    case 1: cn(0, 0, E1DEL, tcents(.03)); cn(0, 0, E1HOLD, tcents(.05)); cn(0, 0, CUTOFF, 7000 << 16); cn(0, 0, RES, 120 << 16); cn(0, 0, PAN, 300 << 16); break;
    case 2: cn(0, 0, E2DEL, tcents(.02)); cn(0, 0, E2ATT, tcents(.1)); cn(0, 0, E2HOLD, tcents(.03)); cn(0, 0, E2DEC, tcents(.3)); cn(0, 0, E2SUS, 300 << 16); cn(0, 0, E2REL, tcents(.5)); cn(EG2, 0, PITCH, 900 << 16); cn(EG2, 0, CUTOFF, 1500 << 16); cn(0, 0, CUTOFF, 6000 << 16); break;
    case 3: cn(0, 0, LFREQ, pcents(9)); cn(0, 0, LDELAY, tcents(.03)); cn(LFO, 0, PITCH, 200 << 16); cn(LFO, 0, GAIN, 60 << 16); break;
    case 4: cn(0, 0, VFREQ, pcents(7)); cn(0, 0, VDELAY, tcents(.02)); cn(VIB, 0, PITCH, -150 * 65536); cn(0, 0, PAN, -500 * 65536); cn(0, 0, E2ATT, ZERO); cn(0, 0, E2SUS, 1000 << 16); cn(EG2, 0, PITCH, 300 << 16); break;
    case 5: cn(0, 0, CUTOFF, 5000 << 16); cn(0, 0, RES, 200 << 16); break;
    }
    memcpy(o, C, sizeof C); return nc;
}
static EAS_HANDLE af_begin(int a, int b) {
    d_conn x[2][32]; int n[2]; n[0] = af_art(x[0], a); n[1] = af_art(x[1], b);
    d_wave w[2] = { { 16, 44100, sine, a == 5 ? 1400 : sizeof sine, { 1, 62, 0, 0, a != 5, 6, 4401 } }, { 16, 44100, sine, sizeof sine, { 1, 60, 0, 0, b != 1, 0, 4400 } } };
    d_rgn r[2] = { { .klo = 0, .khi = 63, .vlo = 0, .vhi = 127, .wave = 0, .art = x[0], .nart = n[0] }, { .klo = 64, .khi = 127, .vlo = 0, .vhi = 127, .wave = 1, .art = x[1], .nart = n[1] } };
    d_ins in = { .bank = 0, .prog = 0, .r = r, .nr = 2 }; dls_build(&bank, &in, 1, w, 2);
    sut_init(); sut_dry(); sut_dls(NULL, &bank); H = sut_midi(); sut_w2(H, 0xc0, 0); return H;
}
#include "afresh.h"
void mc_body(void) {
    for (int i = 0; i < 66; i++) dc[i] = 12000; for (int i = 0; i < 20000; i++) ramp[i] = (short)(i < 19990 ? i - 2000 : 18000); for (int i = 0; i < 4410; i++) sine[i] = (short)floor(6000 * sin(2 * M_PI * i / 44.0) + .5);
    { mc_snap *s = mc_save(NULL); double *o = mc_big(sizeof ref + 40);
      for (int v = 1; v < 128; v++) { base(); begin(WDC); sut_w3(H, 0x90, 60, v); sut_render(); sut_render(); o[v] = sut_last(0); mc_restore(s); }
      base(); begin(WRAMP); sut_w3(H, 0x90, 60, 127); sut_render(); double a = where(); for (int k = 0; k < 30; k++) sut_render(); o[128] = (where() - a) / 30; mc_restore(s);
      o[129] = pass(0x7fff, -1, 0);
      memcpy(ref, o, sizeof ref); level0 = o[128]; open_ = o[129]; mc_snap_free(s); }
    T = 256.0 / 44100; MC_CHECK(ref[127] > 2000 && ref[127] < 20000 && level0 > 20 && open_ > 500, "harness", "levels %.0f %.1f %.0f", ref[127], level0, open_);
    mc_space a = { .name = "volume envelope", .n = NENV, .run = env1, .describe = env_describe }; mc_enumerate(&a);
    mc_space pd = { .name = "pedal", .n = NPED, .run = pedal, .describe = pedal_describe }; mc_enumerate(&pd);
    mc_space b = { .name = "pitch envelope", .n = NENV, .run = env2, .describe = env_describe }; mc_enumerate(&b);
    mc_space c = { .name = "oscillators", .n = 6912, .run = lfo, .describe = lfo_describe }; mc_enumerate(&c);
    mc_space d = { .name = "tuning", .n = 25 * 128, .run = tuning, .describe = tuning_describe }; mc_enumerate(&d);
    mc_space e = { .name = "pan", .n = 127 * 16, .run = pan, .describe = pan_describe }; mc_enumerate(&e);
    mc_space f = { .name = "velocity", .n = 127, .run = vel, .describe = vel_describe }; mc_enumerate(&f);
    mc_space af = { .name = "afresh", .n = AF_N, .run = afresh, .describe = afresh_describe }; mc_enumerate(&af);
    mc_space bf = { .name = "just before", .n = 450, .run = before, .describe = before_describe }; mc_enumerate(&bf);
    mc_space wy = { .name = "ways", .n = 3600, .run = ways, .describe = ways_describe }; mc_enumerate(&wy);
    mc_space lm = { .name = "limits", .n = 4 * NLM, .run = limits, .describe = limits_describe }; mc_enumerate(&lm);
    mc_space g = { .name = "source", .n = 4 * 4 * 512 * 512, .run = source, .describe = source_describe }; mc_enumerate(&g);
    mc_space h = { .name = "filter", .n = 4 * 55, .run = filter, .describe = filter_describe }; mc_enumerate(&h);
}
