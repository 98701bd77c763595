/* C30: the built-in synthesizer plays a sound library as the library describes its instruments. */
#include "sut.h"
#include "eas_sndlib.h"
#include "eas_audioconst.h"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include <math.h>
const char mc_property[] = "C30";
#ifdef __SANITIZE_ADDRESS__
#define DEEP(a, b) (b)
#else
#define DEEP(a, b) (a)
#endif
#ifdef _8_BIT_SAMPLES
#define SMP(x) ((EAS_SAMPLE)((x) >> 8))
#define DEPTH 0
#else
#define SMP(x) ((EAS_SAMPLE)(x))
#define DEPTH LIB_FORMAT_16_BIT_SAMPLES
#endif
#define NW 4
#define RAMP 30000
enum { WDC, WRAMP, WSINE, WPAT };
static EAS_SAMPLE pool[66 + RAMP + 4410 + 700]; static EAS_U32 OFF[NW], LEN[NW];
typedef struct { S_EAS l; S_WT_REGION r[48]; S_ARTICULATION a[2]; S_BANK b[4]; S_PROGRAM p[8]; } lib;
static void remake(S_EAS *d, const S_EAS *s) { memcpy((void *)d, s, sizeof *s); }
static EAS_HANDLE H; static double T, top, topf /* through a song's stream, which has headroom */, level0;
static double Tof(int f) { return f * T; }
static S_ARTICULATION flat(void) { S_ARTICULATION a; memset(&a, 0, sizeof a); a.eg1.attackTime = 32767; a.eg1.sustainLevel = 32767; a.eg1.decayTime = 32767; return a; }
/* nr regions, nb banks, np programs; the arrays of the library are filled in by the caller */
static void mk(lib *x, int nr, int nb, int np, int attr) {
    S_EAS l = { .identifier = _EAS_LIBRARY_VERSION, .libAttr = (EAS_U32)(_OUTPUT_SAMPLE_RATE | DEPTH | attr), .pBanks = x->b, .pPrograms = x->p, .pWTRegions = x->r, .pArticulations = x->a, .pSampleLen = LEN, .pSampleOffsets = OFF, .pSamples = pool, .numBanks = (EAS_U16)nb, .numPrograms = (EAS_U16)np, .numWTRegions = (EAS_U16)nr, .numArticulations = 2, .numSamples = NW };
    remake(&x->l, &l);
}
static S_WT_REGION reg(int wave, int lo, int hi, int gain, int ls, int le, int flags) {
    S_WT_REGION r; memset(&r, 0, sizeof r); r.region.rangeLow = (EAS_U8)lo; r.region.rangeHigh = (EAS_U8)hi; r.region.keyGroupAndFlags = (EAS_U16)flags; r.tuning = -6000; r.gain = (EAS_I16)gain; r.waveIndex = (EAS_U16)wave;
    if (le > 0) { r.region.keyGroupAndFlags |= REGION_FLAG_IS_LOOPED; r.loopStart = (EAS_U32)ls; r.loopEnd = (EAS_U32)le; } return r;
}
/* a library of one instrument of one region */
static void single(lib *x, int wave, S_ARTICULATION a, int attr) {
    memset(x, 0, sizeof *x); x->a[0] = a; x->a[1] = flat(); int ls = 0, le = 0; if (wave == WDC) le = 32; if (wave == WSINE) le = 4400;
    x->r[0] = reg(wave, 0, 127, wave == WRAMP ? 4500 : 32767, ls, le, REGION_FLAG_LAST_REGION); for (int p = 0; p < 128; p++) x->b[0].regionIndex[p] = x->b[1].regionIndex[p] = 0; x->b[0].locale = 0x7900; x->b[1].locale = 0x7800; mk(x, 1, 2, 0, attr);
}
static int prior;                   /* other notes were played and cut off before, for so many frames */
static void begin(lib *x) { sut_init(); sut_dry(); EAS_SetVolume(E, NULL, 100); EAS_RESULT r = EAS_SetSoundLibrary(E, NULL, &x->l); MC_CHECK(r == EAS_SUCCESS, "refused", "a valid sound library is refused: %ld", (long)r); H = sut_midi(); sut_w3(H, 0xb0, 7, 127); sut_w3(H, 0xb9, 7, 127);
    if (prior) { sut_w3(H, 0xb0, 1, 90); sut_w3(H, 0xe0, 0, 90); for (int k = 0; k < (prior > 5 ? 3 : 1); k++) sut_w3(H, 0x90, 66 + k, 127); for (int f = 0; f < prior; f++) sut_render(); sut_w3(H, 0xb0, 120, 0); for (int f = 0; f < 3; f++) sut_render(); sut_w3(H, 0xb0, 1, 0); sut_w3(H, 0xe0, 0, 64); } }
static double db(double v) { return v < 1 ? -99 : 20 * log10(v); }
static lib *S;
/* ---- volume envelope: linear attack, exponential decay and release, sustain ---- */
static const int ATT[] = { 32767, 8000, 1000, 300 }, DEC[] = { 32767, 32000, 30000, 20000 }, SUS[] = { 32767, 20000, 5000, 0 }, REL[] = { 0, 16384, 30000, 32400 }, OFFF[] = { -1, 2, 15, 60 };
typedef struct { int att, dec, sus, rel, off, vel, again; } ecase;
static ecase edecode(u64 i) { ecase c; c.att = ATT[i % 4]; i /= 4; c.dec = DEC[i % 4]; i /= 4; c.sus = SUS[i % 4]; i /= 4; c.rel = REL[i % 4]; i /= 4; c.off = OFFF[i % 4]; i /= 4; c.vel = i % 2 ? 64 : 127; i /= 2; c.again = (int)(i % 2); return c; }
#define NENV (4 * 4 * 4 * 4 * 4 * 2 * 2)
static void env1(u64 i) {
    ecase c = edecode(i); S_ARTICULATION a = flat(); a.eg1.attackTime = (EAS_I16)c.att; a.eg1.decayTime = (EAS_I16)c.dec; a.eg1.sustainLevel = (EAS_I16)c.sus; a.eg1.releaseTime = (EAS_I16)c.rel; single(S, WDC, a, 0); begin(S);
    if (c.again) { sut_w3(H, 0x90, 64, 100); for (int k = 0; k < 3; k++) sut_render(); sut_w3(H, 0xb0, 120, 0); sut_w3(H, 0x90, 65, 1); for (int k = 0; k < 300; k++) sut_render(); sut_w3(H, 0x80, 65, 0); for (int k = 0; k < 900; k++) { sut_render(); } if (sut_last(0) > 2) mc_skip(); }
    sut_w3(H, 0x90, 60, c.vel); double v = 0, full = top * c.vel * c.vel / 127 / 127; int st = 0;      /* 0 attack, 1 decay, 2 sustain, 3 release, 4 ended */
    for (int f = 0; f < 140; f++) {
        if (f == c.off) { sut_w3(H, 0x80, 60, 0); if (st < 4) st = 3; }
        if (st == 0) { v += c.att; if (v >= 32767) { v = 32767; st = 1; } }
        else if (st == 1) { v *= c.dec / 32768.; if (v <= c.sus + .5) { v = c.sus; st = c.sus > 0 ? 2 : 4; } }
        else if (st == 3) { v *= c.rel / 32768.; if (v < 1) st = 4; }
        if (st == 4) v = 0;
        sut_render(); double want = full * v / 32767, got = sut_last(0), tol = 24 + want * .02;
        /* each step drops a fraction: at most one unit per step, kept up by the decay */
        if (st == 1 || st == 3) { int m = st == 1 ? c.dec : c.rel; double drift = 32768. / (32768 - m + 1); if (drift > f + 1) drift = f + 1; tol += full * drift / 32768; }
        MC_CHECK(got < want + tol && got > want - tol, "envelope", "frame %d: level %.0f, expected %.1f (tolerance %.1f)", f, got, want, tol);
    }
}
static void env1_describe(u64 i, char *o, size_t n) { ecase c = edecode(i); snprintf(o, n, "attack %d decay %d sustain %d release %d, velocity %d, released before frame %d%s", c.att, c.dec, c.sus, c.rel, c.vel, c.off, c.again ? ", after other notes" : ""); }
/* ---- the pedal: holds a note released under it, catches one released just before that has not fallen below its sustain level ---- */
static const int PATT[] = { 32767, 3000 }, PDEC[] = { 32767, 30000, 20000 }, PSUS[] = { 32767, 20000, 5000, 0 }, PREL[] = { 0, 16384, 30000 }, POFF[] = { 3, 15, 60 };
typedef struct { int att, dec, sus, rel, off, how, up; } pcase;
static pcase pdecode(u64 i) { pcase c; c.att = PATT[i % 2]; i /= 2; c.dec = PDEC[i % 3]; i /= 3; c.sus = PSUS[i % 4]; i /= 4; c.rel = PREL[i % 3]; i /= 3; c.off = POFF[i % 3]; i /= 3; c.how = (int)(i % 5); i /= 5; c.up = c.off + (i ? 25 : 4); return c; }
#define NPED (2 * 3 * 4 * 3 * 3 * 5 * 2)
static void pedal(u64 i) {
    pcase c = pdecode(i); S_ARTICULATION a = flat(); a.eg1.attackTime = (EAS_I16)c.att; a.eg1.decayTime = (EAS_I16)c.dec; a.eg1.sustainLevel = (EAS_I16)c.sus; a.eg1.releaseTime = (EAS_I16)c.rel; single(S, WDC, a, 0); begin(S);
    sut_w3(H, 0x90, 60, 127); double v = 0, full = top; int st = 0, down = 0, key = 1, r0 = 0;        /* st 5: caught, anywhere between where it was and the sustain level */
    for (int f = 0; f < 110; f++) {
        if (f == c.off && c.how == 0) { sut_w3(H, 0xb0, 64, 127); down = 1; }
        if (f == c.off) { sut_w3(H, 0x80, 60, 0); key = 0; if (!down && st < 4) { st = 3; r0 = f; } }
        if (c.how && c.how < 4 && f == c.off + c.how - 1) { sut_w3(H, 0xb0, 64, 127); down = 1; if (st == 3) { if (c.how > 1 && fabs(v - c.sus) < 40 + c.sus * .02) mc_skip(); if (v >= c.sus - .01) { st = 5; r0 = 0; mc_count("caught", 1); } } }
        if (f == c.up) { if (down) sut_w3(H, 0xb0, 64, 0); down = 0; if (!key && st < 4) { if (st != 3) r0 = f; st = 3; } else if (st == 5) { v = sut_last(0) / full * 32767; st = 3; r0 = f; } }
        double was = v;
        if (st == 0) { v += c.att; if (v >= 32767) { v = 32767; st = 1; } }
        else if (st == 1) { v *= c.dec / 32768.; if (v <= c.sus + .5) { v = c.sus; st = c.sus > 0 ? 2 : 4; } }
        else if (st == 3) { v *= c.rel / 32768.; if (v < 1) st = 4; }
        if (st == 4) v = 0;
        (void)was; sut_render(); double want = full * v / 32767, got = sut_last(0), tol = 30 + want * .03;
        if (st == 1) { double drift = 32768. / (32768 - c.dec + 1); if (drift > f + 1) drift = f + 1; tol += full * drift / 32768; } if (st == 3) { double drift = 32768. / (32768 - c.rel + 1); tol += full * drift / 32768; }
        if (st == 5) { MC_CHECK(got < want + tol && got > full * c.sus / 32767 - 30 - full * .02, "pedal", "frame %d: the pedal was pressed while the note stood at %.0f, its sustain level is %.0f, but it is heard at %.0f", f, want, full * c.sus / 32767, got); if (c.sus == 0) { v = 0; } }
        else MC_CHECK(got < want + tol && got > want - tol, "pedal", "frame %d: level %.0f, expected %.1f (tolerance %.1f)", f, got, want, tol);
        if (st == 5 && c.sus == 0) return;
    }
    (void)r0;
}
static void pedal_describe(u64 i, char *o, size_t n) { pcase c = pdecode(i); snprintf(o, n, "attack %d decay %d sustain %d release %d, released before frame %d, pedal %s, up before frame %d", c.att, c.dec, c.sus, c.rel, c.off, (const char *[]){ "pressed just before", "pressed just after", "pressed a frame later", "pressed two frames later", "never pressed" }[c.how], c.up); }
/* ---- pitch envelope and oscillator: read off the speed at which a ramp is played ---- */
static double where(void) { return sut_last(0); }
static double start, ran;            /* where the ramp was, and how far it should have moved since (output units) */
static void pitch_begin(void) { start = where(); ran = 0; }
static void pitch_frame(int f, double cents, const char *key) { sut_render(); ran += level0 * pow(2, cents / 1200); double got = where() - start; MC_CHECK(fabs(got - ran) < 18 + ran * .002, key, "frame %d: the wave has moved by %.0f, expected %.0f (now at %.0f cents)", f, got, ran, cents); }
static const int ATT2[] = { 32767, 3000, 900 }, DEC2[] = { 0, 500, 3000 }, SUS2[] = { 32767, 12000, 0 }, REL2[] = { 0, 800, 32767 }, OFF2[] = { -1, 1, 3, 14, 30 }, DEP2[] = { 1000, -1200, 0 };
static void env2(u64 i) {
    int att = ATT2[i % 3], dec = DEC2[i / 3 % 3], sus = SUS2[i / 9 % 3], rel = REL2[i / 27 % 3], off = OFF2[i / 81 % 5], dep = DEP2[i / 405 % 3];
    S_ARTICULATION a = flat(); a.eg1.releaseTime = 32767; a.eg2.attackTime = (EAS_I16)att; a.eg2.decayTime = (EAS_I16)dec; a.eg2.sustainLevel = (EAS_I16)sus; a.eg2.releaseTime = (EAS_I16)rel; a.eg2ToPitch = (EAS_I16)dep; single(S, WRAMP, a, 0); begin(S); sut_w3(H, 0x90, 60, 127);
    double v = 0; int st = 0;
    for (int f = 0; f < 42; f++) {
        if (f == off) { sut_w3(H, 0x80, 60, 0); st = 3; }
        if (st == 0) { v += att; if (v >= 32767) { v = 32767; st = 1; } } else if (st == 1) { v -= dec; if (v <= sus) { v = sus; st = 2; } } else if (st == 3) { v -= rel; if (v <= 0) v = 0; }
        if (f == 0) { sut_render(); pitch_begin(); continue; }
        pitch_frame(f, v / 32768 * dep, "pitch-envelope");
    }
}
static void env2_describe(u64 i, char *o, size_t n) { snprintf(o, n, "attack %d decay %d sustain %d release %d depth %d cents, released before frame %d", ATT2[i % 3], DEC2[i / 3 % 3], SUS2[i / 9 % 3], REL2[i / 27 % 3], DEP2[i / 405 % 3], OFF2[i / 81 % 5]); }
static double tri(double x) { x -= floor(x); return x < .25 ? 4 * x : x < .75 ? 2 - 4 * x : 4 * x - 4; }
static const int FRQ[] = { 0, 300, 1900, 9000 }, LDL[] = { 0, 1, 20 }, LPI[] = { 0, 200, -350 }, MOD[] = { 0, 64, 127 }, PRS[] = { 0, 100 }, LGA[] = { 0, 12, -24 };
static void osc(u64 i) {
    int frq = FRQ[i % 4], dl = LDL[i / 4 % 3], pi = LPI[i / 12 % 3], md = MOD[i / 36 % 3], pr = PRS[i / 108 % 2], late = (int)(i / 216 % 2);
    S_ARTICULATION a = flat(); a.lfoFreq = (EAS_I16)frq; a.lfoDelay = (EAS_I16)dl; a.lfoToPitch = (EAS_I16)pi; single(S, WRAMP, a, 0); begin(S); if (!late) { sut_w3(H, 0xb0, 1, md); sut_w2(H, 0xd0, pr); } sut_w3(H, 0x90, 60, 127); sut_render(); sut_render(); if (late) { sut_w3(H, 0xb0, 1, md); sut_w2(H, 0xd0, pr); }
    for (int f = 2; f < 42; f++) {
        double depth = pi + 50. * md / 128 + 50. * pr / 128; if (f == 2) pitch_begin();
        pitch_frame(f, f < dl ? 0 : tri((f - dl) * frq / 32768.) * depth, "vibrato");
    }
}
static void osc_describe(u64 i, char *o, size_t n) { snprintf(o, n, "oscillator step %d delay %d to pitch %d, wheel %d pressure %d%s", FRQ[i % 4], LDL[i / 4 % 3], LPI[i / 12 % 3], MOD[i / 36 % 3], PRS[i / 108 % 2], i / 216 % 2 ? " set late" : ""); }
static void trem(u64 i) {
    int frq = FRQ[i % 4], dl = LDL[i / 4 % 3], ga = LGA[i / 12 % 3], md = MOD[i / 36 % 3]; S_ARTICULATION a = flat(); a.lfoFreq = (EAS_I16)frq; a.lfoDelay = (EAS_I16)dl; a.lfoToGain = (EAS_I8)ga; single(S, WDC, a, 0); begin(S); sut_w3(H, 0xb0, 1, md); sut_w3(H, 0xb0, 7, 60); sut_w3(H, 0x90, 60, 127);
    double base = 0;
    for (int f = 0; f < 42; f++) {
        sut_render(); double got = db(sut_last(0)); if (!f) base = got; double want = f < dl ? 0 : tri((f - dl) * frq / 32768.) * ga;
        if (want > db(top) - base) want = db(top) - base;    /* never above full scale */
        MC_CHECK(got - base < want + .7 && got - base > want - 1.3, "tremolo", "frame %d: %.1f dB, expected %.1f", f, got - base, want);
    }
}
static void trem_describe(u64 i, char *o, size_t n) { snprintf(o, n, "oscillator step %d delay %d to gain %d dB, wheel %d", FRQ[i % 4], LDL[i / 4 % 3], LGA[i / 12 % 3], MOD[i / 36 % 3]); }
/* ---- which instrument: banks, programs, fallbacks ---- */
#define NI 10
static const int GAIN[NI] = { 2000, 5000, 8000, 11000, 14000, 17000, 20000, 23000, 26000, 29000 };
static int has0;                    /* whether the default banks have a program 0 */
static void plib(lib *x, int variant) {
    memset(x, 0, sizeof *x); x->a[0] = x->a[1] = flat(); for (int k = 0; k < NI; k++) x->r[k] = reg(WDC, 0, 127, GAIN[k], 0, 32, REGION_FLAG_LAST_REGION);
    for (int b = 0; b < 3; b++) { x->b[b].locale = (EAS_U16)(int[]){ 0x7900, 0x7800, 0x0100 }[b]; for (int p = 0; p < 128; p++) x->b[b].regionIndex[p] = INVALID_REGION_INDEX; }
    if (!(variant & 1)) { x->b[0].regionIndex[0] = 1; x->b[1].regionIndex[0] = 2; } x->b[0].regionIndex[5] = 3; x->b[1].regionIndex[5] = 4; x->b[2].regionIndex[5] = 5; x->b[2].regionIndex[127] = 6;
    x->p[0] = (S_PROGRAM){ 0x790105, 7 }; x->p[1] = (S_PROGRAM){ 0x790007, 8 }; x->p[2] = (S_PROGRAM){ 0x780007, 9 }; x->p[3] = (S_PROGRAM){ 0x790005, 0 }; x->p[4] = (S_PROGRAM){ 0x000105, 2 };
    mk(x, NI, variant & 2 ? 2 : 3, variant & 4 ? 3 : 5, 0);
}
static int pfind(const lib *x, int bank, int prog) {
    for (int b = 0; b < x->l.numBanks; b++) if (x->b[b].locale == bank && x->b[b].regionIndex[prog] != INVALID_REGION_INDEX) return x->b[b].regionIndex[prog];
    for (int p = 0; p < x->l.numPrograms; p++) if (x->p[p].locale == (EAS_U32)(bank << 8 | prog)) return x->p[p].regionIndex;
    return -1;
}
static const int MSB[] = { 0x79, 0x78, 0, 1 }, PRG[] = { 0, 5, 7, 9, 127 };
/* a choice: none, or bank MSB with an optional LSB, and program */
#define NCH (1 + 5 * 3 * 5)          /* MSB or none, LSB none/0/1, program */
typedef struct { int drum, bank, region; } chst;
static void choose(const lib *x, chst *c, int k, int ch, int live) {
    if (!k) return; k--; int m = k % 5, l = k / 5 % 3, p = PRG[k / 15];
    if (m < 4) { c->bank = MSB[m] << 8; if (live) sut_w3(H, 0xb0 | ch, 0, MSB[m]); } if (l) { c->bank = (c->bank & 0xff00) | (l - 1); if (live) sut_w3(H, 0xb0 | ch, 32, l - 1); }
    if (live) sut_w2(H, 0xc0 | ch, p);
    if (c->bank >> 8 == 0x78) c->drum = 1; if (c->bank >> 8 == 0x79) c->drum = 0;
    int r = pfind(x, c->bank, p), d = c->drum ? 0x7800 : 0x7900; if (r < 0) r = pfind(x, d, p); if (r < 0) r = pfind(x, d, 0); if (r < 0) r = 0; c->region = r;
}
static void prog(u64 i) {
    int v = (int)(i % 8), ch = i / 8 % 2 ? 9 : 0, k1 = (int)(i / 16 % NCH), k2 = (int)(i / 16 / NCH); plib(S, v); begin(S); for (int c = 0; c < 16; c++) sut_w3(H, 0xb0 | c, 7, 127);
    chst c = { ch == 9, ch == 9 ? 0x7800 : 0x7900, 0 }; c.region = pfind(S, c.bank, 0); if (c.region < 0) c.region = 0;
    choose(S, &c, k1, ch, 1); choose(S, &c, k2, ch, 1);
    sut_w3(H, 0x90 | ch, 60, 127); sut_render(); sut_render(); double want = top * GAIN[c.region] / 32767, got = sut_last(0);
    MC_CHECK(fabs(got - want) < 5 + want * .01, "program", "level %.0f, expected %.0f (instrument %d)", got, want, c.region);
}
static void ch_describe(int k, char *o, size_t n) { if (!k) { snprintf(o, n, "-"); return; } k--; static const char *M[] = { "0x79", "0x78", "0", "1", "-" }, *L[] = { "-", "0", "1" }; snprintf(o, n, "bank %s/%s program %d", M[k % 5], L[k / 5 % 3], PRG[k / 15]); }
static void prog_describe(u64 i, char *o, size_t n) { char a[60], b[60]; ch_describe((int)(i / 16 % NCH), a, 60); ch_describe((int)(i / 16 / NCH), b, 60); snprintf(o, n, "library variant %d, channel %d: %s, then %s", (int)(i % 8), i / 8 % 2 ? 9 : 0, a, b); }
/* ---- which region: key ranges, transposed ---- */
static void keys(u64 i) {
    int key = (int)(i % 128), v = (int)(i / 128 % 4), coarse = (int)(i / 512 % 3) * 12 - 12, tr = (int)(i / 1536 % 3) * 5 - 5, ch = i / 4608 % 2 ? 9 : 0; static const int LO[4][4] = { { 40, 60, 61, 0 }, { 0, 64, 64, 100 }, { 60, 20, 0, 0 }, { 127, 0, 50, 50 } }, HI[4][4] = { { 59, 60, 127, 20 }, { 63, 64, 99, 127 }, { 70, 80, 127, 127 }, { 127, 0, 50, 49 } };
    memset(S, 0, sizeof *S); S->a[0] = S->a[1] = flat(); S->r[0] = reg(WDC, 0, 127, 32767, 0, 32, REGION_FLAG_LAST_REGION); S->r[5] = S->r[0];
    for (int k = 0; k < 4; k++) S->r[1 + k] = reg(WDC, LO[v][k], HI[v][k], GAIN[k], 0, 32, k == 3 ? REGION_FLAG_LAST_REGION : 0); S->b[0].locale = 0x7900; S->b[1].locale = 0x7800; for (int p = 0; p < 128; p++) S->b[0].regionIndex[p] = S->b[1].regionIndex[p] = 1; mk(S, 6, 2, 0, 0);
    bytes f = { 0 }; smf_head(&f, 0, 1, 96); int m = smf_trk(&f); smf_ev3(&f, 0, 0xb0 | ch, 7, 127); smf_ev3(&f, 0, 0xb0 | ch, 101, 0); smf_ev3(&f, 0, 0xb0 | ch, 100, 2); smf_ev3(&f, 0, 0xb0 | ch, 6, 64 + coarse); smf_ev3(&f, 0, 0x90 | ch, key, 127); smf_eot(&f, 5000); smf_endtrk(&f, m);
    sut_init(); sut_dry(); EAS_SetVolume(E, NULL, 100); EAS_SetSoundLibrary(E, NULL, &S->l); static EAS_FILE fl; static mc_file mf; H = sut_open(sut_file(&fl, &mf, f.b, f.n)); EAS_SetTransposition(E, H, tr); for (int k = 0; k < 3; k++) sut_render();
    int k = key + coarse + (ch == 9 ? 0 : tr), want = 0; if (k < 0) k = 0; if (k > 127) k = 127; for (int r = 3; r >= 0; r--) if (k >= LO[v][r] && k <= HI[v][r]) want = GAIN[r];
    double w = topf * want / 32767, got = sut_last(0); MC_CHECK(fabs(got - w) < 22 + w * .01, "region", "level %.0f, expected %.0f", got, w);
}
static void keys_describe(u64 i, char *o, size_t n) { snprintf(o, n, "key %d, ranges %d, coarse tuning %d, transposition %d, channel %d", (int)(i % 128), (int)(i / 128 % 4), (int)(i / 512 % 3) * 12 - 12, (int)(i / 1536 % 3) * 5 - 5, i / 4608 % 2 ? 9 : 0); }
/* ---- waves: once or looped, sample by sample, at exact multiples of the stored rate ---- */
static int wave_at(const EAS_SAMPLE *w, int n, int ls, int le, double pos) {
    int i = (int)floor(pos); double fr = pos - i; int a = i, b = i + 1; if (le > 0) { while (a >= le) a -= le - ls; b = a + 1; if (b >= le) b = ls; } else { if (a >= n) return 0; if (b >= n) b = n - 1; }
    return (int)(w[a] * (1 - fr) + w[b] * fr);
}
static void waves(u64 i) {
    static const int LS[] = { 0, 1, 100, 690, 40 }, LE[] = { 0, 700, 330, 700, 42 }, TUN[] = { -6000, -4800, -7200, -3600 }; int k = (int)(i % 5), t = (int)(i / 5 % 4), wv = i / 20 % 2 ? WPAT : WSINE, key = i / 40 % 2 ? 48 : 60; int tun = TUN[t] + (60 - key) * 100; const EAS_SAMPLE *w = (EAS_SAMPLE *)((char *)pool + OFF[wv]); int n = (int)(LEN[wv] / sizeof(EAS_SAMPLE)); double step = pow(2, (tun + key * 100) / 1200.);
    single(S, WDC, flat(), 0); S->r[0] = reg(wv, 0, 127, 32767, LS[k], LE[k], REGION_FLAG_LAST_REGION); S->r[0].tuning = (EAS_I16)tun; begin(S); sut_w3(H, 0x90, key, 127); double pos = 0; if (step >= LE[k] - LS[k] && LE[k]) mc_skip();
    double sc = top / (double)(((EAS_SAMPLE *)((char *)pool + OFF[WDC]))[0]); int last = k ? 1 << 30 : n - 2;
    for (int f = 0; f < 24; f++) { sut_render(); for (int j = 0; j < FRAME; j++, pos += step) { if (!f) continue; double dev = step == 1 ? 0 : pos * .0005, hi = -1e9, lo = 1e9, got = PCM[2 * j];      /* the step is a rounded power of two */
            for (int e = -(int)ceil(dev * 10); e <= (int)ceil(dev * 10); e++) { double v = pos > last ? 0 : sc * wave_at(w, n, LS[k], LE[k], pos + e * .1); if (v > hi) hi = v; if (v < lo) lo = v; } double want = got > hi ? hi : got < lo ? lo : got; if (pos > n - 3 * step - 2 && pos < n + 3 * step && !k) continue;
        MC_CHECK(fabs(got - want) < 40 + fabs(want) * .015, "wave", "frame %d sample %d (position %.1f): %.0f, expected %.0f", f, j, pos, got, want); } }
}
static void waves_describe(u64 i, char *o, size_t n) { snprintf(o, n, "wave %d, loop %d, tuning %d, key %d", (int)(i / 20 % 2), (int)(i % 5), (int)(i / 5 % 4), i / 40 % 2 ? 48 : 60); }
/* ---- pan ---- */
static void pan(u64 i) {
    int p = (int)(i % 127) - 63, cc = (int)(i / 127) * 8; int l[2], r[2], c0 = cc + p; if (c0 < 0 || c0 > 127) mc_skip();
    for (int k = 0; k < 2; k++) { mc_snap *s = mc_save(NULL); int *out = mc_big(16); S_ARTICULATION a = flat(); a.pan = (EAS_I8)(k ? 0 : p); single(S, WDC, a, 0); begin(S); sut_w3(H, 0xb0, 10, k ? c0 : cc); sut_w3(H, 0x90, 60, 127); sut_render(); sut_render(); out[0] = sut_last(0); out[1] = sut_last(1); mc_restore(s); l[k] = out[0]; r[k] = out[1]; mc_snap_free(s); }
    int tol = 3 + (int)(top * .005); MC_CHECK(abs(l[0] - l[1]) <= tol && abs(r[0] - r[1]) <= tol, "pan", "instrument pan %d with controller %d: %d/%d, controller %d alone: %d/%d", p, cc, l[0], r[0], c0, l[1], r[1]);
}
static void pan_describe(u64 i, char *o, size_t n) { snprintf(o, n, "instrument pan %d, controller %d", (int)(i % 127) - 63, (int)(i / 127) * 8); }
/* ---- filter ---- */
static double tone(void) { int hi = -40000, lo = 40000; for (int k = 0; k < 16; k++) { sut_render(); if (k < 12) continue; for (int j = 0; j < FRAME; j++) { if (PCM[2 * j] > hi) hi = PCM[2 * j]; if (PCM[2 * j] < lo) lo = PCM[2 * j]; } } return (hi - lo) / 2.; }
static double pass(int cut, int q, int kind, int attr) {
    mc_snap *s = mc_save(NULL); double *out = mc_big(8); S_ARTICULATION a = flat(); a.filterQ = (EAS_U8)q; a.filterCutoff = (EAS_I16)cut; if (kind == 1) { a.filterCutoff = (EAS_I16)(cut - 2400); a.eg2ToFc = 2400; a.eg2.attackTime = a.eg2.sustainLevel = 32767; } if (kind == 2) { a.eg2ToFc = 2400; a.eg2.attackTime = a.eg2.decayTime = 32767; }
    single(S, WSINE, a, attr); begin(S); sut_w3(H, 0x90, 60, 127); *out = tone(); mc_restore(s); double r = *out; mc_snap_free(s); return r;
}
static double open_; static const int QS[] = { 0, 4, 8, 14 };
static void filter(u64 i) {
    int cut = 4500 + (int)(i / 4) * 100, qi = QS[i % 4]; double q = qi * 7.5, hz = 440 * pow(2, (cut - 6900) / 1200.0), f = hz / 1000; if (hz > 7000) mc_skip(); double a = pass(cut, qi, 0, LIB_FORMAT_FILTER_ENABLED), b = pass(cut + 100, qi, 0, LIB_FORMAT_FILTER_ENABLED), g = db(a) - db(open_);
    if (f > 3 && f < 6) MC_CHECK(fabs(g + q / 20.) < 2, "filter-pass", "cutoff %.0f Hz, resonance %.1f dB: 1 kHz at %.1f dB", hz, q / 10, g);
    if (!qi) { MC_CHECK(b >= a * .97 - 20 || f > 1.6 || f < .3, "filter-order", "opening the filter from %.0f Hz lowers the level of 1 kHz from %.0f to %.0f", hz, a, b); if (f > .45 && f < .8) MC_CHECK(fabs(g - 40 * log2(f) * .3010) < 4, "filter-stop", "cutoff %.0f Hz: 1 kHz at %.1f dB", hz, g); }
    else { double c = pass(cut, 0, 0, LIB_FORMAT_FILTER_ENABLED), rise = db(a) - db(c); if (f > 1.05 && f < 1.2) MC_CHECK(rise > q * .03 && rise < q * .07, "resonance", "cutoff %.0f Hz, resonance %.1f dB raises the level by %.1f dB", hz, q / 10, rise); }
    if (!qi) { for (int k = 1; k < 3; k++) { double c = pass(cut, 0, k, LIB_FORMAT_FILTER_ENABLED); MC_CHECK(fabs(c - a) < (f < .4 ? 60 + a * .3 : 30 + a * .15), "filter-sources", "cutoff %.0f Hz made up in way %d: level %.0f instead of %.0f", hz, k, c, a); } double c = pass(cut, 0, 0, 0); MC_CHECK(fabs(c - open_) < 3 + open_ * .01, "filter-off", "a library without filters sounds filtered: %.0f instead of %.0f", c, open_); }
}
static void filter_describe(u64 i, char *o, size_t n) { snprintf(o, n, "cutoff %.0f Hz, resonance %d", 440 * pow(2, (4500 + (int)(i / 4) * 100 - 6900) / 1200.0), QS[i % 4]); }
/* ---- changing libraries: every sequence of operations ---- */
#define BIGR 40
static lib *L[6];                   /* two of one and two instruments, one of many, one of another version, rate, depth */
static int bad(int k) { return k == 3 || k == 4; }
static EAS_SNDLIB_HANDLE LP(int k) { return k == 5 ? NULL : &L[k]->l; }      /* 5: no library, nothing to be heard */
typedef struct { int on, lib, prog, note, level; } stream_;
static stream_ M[2]; static int glob; static EAS_HANDLE SH[2]; static EAS_FILE sf[2]; static mc_file sm[2]; static bytes quiet;
static int gainof(int k, int p) { return k == 5 ? 0 : k == 2 ? 700 * (p % BIGR) + 700 : k == 0 ? 6000 : p == 1 ? 12000 : 9000; }
static void lib_setup(void) {
    sut_init(); sut_dry(); EAS_SetVolume(E, NULL, 100); EAS_SetSoundLibrary(E, NULL, &L[0]->l); glob = 0; memset(M, 0, sizeof M);
}
/* 0..4: global library k; 5..9: library k for stream 0; 10,11 open/close stream 0 (a live one on a file); 12,13: stream 1; 14: program 1 on stream 0, 15: program 39, 16: note on 0, 17: note off 0, 18: note on 1, 19 note off 1 */
static int lib_enabled(int op, int at) { (void)at; if (op < 5 || op == 20) return 1; if (op < 10 || op == 21) return M[0].on; if (op == 10) return !M[0].on; if (op == 12) return !M[1].on; if (op == 13 || op == 18 || op == 19) return M[1].on && (op == 13 || M[1].note == (op == 19)); return M[0].on && (op == 16 ? !M[0].note : op == 17 ? M[0].note : 1); }
static EAS_HANDLE FH[2];
static void lib_apply(int op) {
    static u8 w[8]; EAS_RESULT r;
    if (op < 5 || op == 20) { int k = op == 20 ? 5 : op; r = EAS_SetSoundLibrary(E, NULL, LP(k)); if (!bad(k)) { MC_CHECK(r == 0, "refused", "valid library refused: %ld", (long)r); glob = k; } else MC_CHECK(r != 0, "accepted", "a library of another format is accepted"); }
    else if (op < 10 || op == 21) { int k = op == 21 ? 5 : op - 5; r = EAS_SetSoundLibrary(E, FH[0], LP(k)); if (!bad(k)) { MC_CHECK(r == 0, "refused", "valid library refused by a stream: %ld", (long)r); M[0].lib = k; M[0].note = M[0].level = M[0].prog = 0; } else MC_CHECK(r != 0, "accepted", "a library of another format is accepted by a stream"); }
    else if (op == 10 || op == 12) { int s = op == 12; FH[s] = sut_open(sut_file(&sf[s], &sm[s], quiet.b, quiet.n)); r = EAS_OpenMIDIStream(E, &SH[s], FH[s]); MC_CHECK(r == 0, "open", "%ld", (long)r); M[s] = (stream_){ 1, glob, 0, 0, 0 }; w[0] = 0xb0; w[1] = 7; w[2] = 127; sut_write(SH[s], w, 3); }
    else if (op == 11 || op == 13) { int s = op == 13; r = EAS_CloseMIDIStream(E, SH[s]); MC_CHECK(r == 0, "close", "%ld", (long)r); r = EAS_CloseFile(E, FH[s]); MC_CHECK(r == 0, "close", "%ld", (long)r); M[s].on = M[s].note = M[s].level = 0; }
    else if (op == 14 || op == 15) { sut_w2(SH[0], 0xc0, op == 14 ? 1 : 39); M[0].prog = op == 14 ? 1 : 39; }
    else if (op == 16 || op == 18) { int s = op == 18; sut_w3(SH[s], 0xb0, 7, 127); sut_w3(SH[s], 0x90, 60, 127); M[s].note = 1; M[s].level = gainof(M[s].lib, M[s].prog); }
    else { int s = op == 19; sut_w3(SH[s], 0x80, 60, 0); M[s].note = M[s].level = 0; }
    for (int k = 0; k < 6; k++) sut_render();
    double want = 0; for (int s = 0; s < 2; s++) want += topf * M[s].level / 32767; double got = sut_last(0);
    MC_CHECK(fabs(got - want) < 40 + want * .01, "library", "level %.0f, expected %.0f", got, want);
}
static const char *lib_opname(int op) { static const char *N[] = { "library A for all", "library B for all", "large library for all", "library of another version for all", "library of another rate for all", "library A for stream 0", "library B for stream 0", "large library for stream 0", "library of another version for stream 0", "library of another rate for stream 0", "open 0", "close 0", "open 1", "close 1", "program 1 on 0", "program 39 on 0", "note on 0", "note off 0", "note on 1", "note off 1", "no library for all", "no library for stream 0" }; return N[op]; }
/* ---- key groups: a note ends the notes of its group on its channel; every sequence, with and without voices to spare ---- */
/* notes of one library and levels that tell every combination apart: two keys of group 1 and one without a group on channel 0, the third of group 1 on channel 1 */
static const int KCH[] = { 0, 0, 1, 0 }; static double KLV[4]; static int KP, KSETTLE, KNX;
typedef struct { int n[4], last, total; } kst; static kst K;
static void kg_lib(void) {
    memset(S, 0, sizeof *S); S->a[0] = S->a[1] = flat(); for (int k = 0; k < 4; k++) S->r[k] = reg(WDC, 60 + k, 60 + k, 250 * (int[]){ 1, 3, 9, 27 }[k], 0, 32, (k == 3 ? REGION_FLAG_LAST_REGION | (KNX ? REGION_FLAG_NON_SELF_EXCLUSIVE : 0) : 0x100)); S->b[0].locale = 0x7900; S->b[1].locale = 0x7800; mk(S, 4, 2, 0, 0);
}
static void kg_setup(void) { memset(&K, 0, sizeof K); K.last = -1; kg_lib(); begin(S); sut_w3(H, 0xb1, 7, 127); if (KP < 8) { EAS_RESULT r = EAS_SetSynthPolyphony(E, 0, KP); MC_CHECK(r == 0, "polyphony", "%ld", (long)r); } }
static void kg_apply(int op) {
    if (op == 8) { sut_render(); return; }
    int k = op % 4; sut_w3(H, (op < 4 ? 0x90 : 0x80) | KCH[k], 60 + k, 127);
    int t = 0;          /* total: at least so many sound; t notes end, perhaps not among those */
    if (op >= 4) { t = K.n[k]; K.n[k] = 0; if (K.last == k) K.last = -1; }
    else { if (k < 3) for (int j = 0; j < 3; j++) if (KCH[j] == KCH[k]) { t += K.n[j]; K.n[j] = 0; } if (k == 3 && KSETTLE && !KNX && K.n[3] == 2) { K.n[3]--; t++; } K.n[k]++; K.last = k; }
    if (op < 4 && t) t++;        /* a note that has just been ended still holds its voice for a moment */
    K.total -= t; if (K.total < 0) K.total = 0; if (op < 4 && K.total < KP) K.total++;
    if (KSETTLE) for (int f = 0; f < 3; f++) sut_render();
}
static void kg_leaf(void) {
    for (int f = 0; f < 3; f++) sut_render(); double got = sut_last(0); int best[4] = { 0 }, c[4]; double err = 1e9; for (c[0] = 0; c[0] < 3; c[0]++) for (c[1] = 0; c[1] < 3; c[1]++) for (c[2] = 0; c[2] < 3; c[2]++) for (c[3] = 0; c[3] < 7; c[3]++) { double e = got; for (int k = 0; k < 4; k++) e -= c[k] * KLV[k]; if (fabs(e) < err) { err = fabs(e); memcpy(best, c, sizeof c); } }
    /* one key sounds twice at most, not enforced within a frame */
    MC_CHECK(err < 16, "key-group", "level %.0f cannot come from these notes", got); int n = 0; for (int k = 0; k < 4; k++) n += best[k];
    MC_CHECK(n <= KP, "polyphony", "%d notes sound", n);
    for (int k = 0; k < 4; k++) MC_CHECK(best[k] <= K.n[k] && (KP < 8 || best[k] == K.n[k] || (k == 3 && !KSETTLE && !KNX && best[k] >= (K.n[k] > 0))), "key-group", "key %d sounds %d times instead of %d", 60 + k, best[k], K.n[k]);
    MC_CHECK(K.last < 0 || best[K.last] > 0, "newest", "the note played last, %d, does not sound", 60 + K.last);
    if (KSETTLE && KP < 8) MC_CHECK(n >= K.total, "lost", "%d notes sound, at least %d expected", n, K.total);
}
static int kg_enabled(int op, int at) { (void)at; return op < 3 || op == 3 ? op != 3 || K.n[3] < 6 : op < 8 ? K.n[op - 4] > 0 : !KSETTLE; }
static const char *kg_opname(int op) { static const char *N[] = { "on 60 (group)", "on 61 (group)", "on 62 (group, other channel)", "on 63 (no group)", "off 60", "off 61", "off 62", "off 63", "frame" }; return N[op]; }
/* ---- afresh: a note owes nothing to what its voice played before ---- */
#define AF_NA 6
#define AF_NB 6
static S_ARTICULATION af_art(int k) {
    S_ARTICULATION a = flat(); a.eg1.attackTime = 3000; a.eg1.decayTime = 32000; a.eg1.sustainLevel = 20000; a.eg1.releaseTime = 30000;
    switch (k) {
    case 1: a.eg1.attackTime = 700; a.eg1.releaseTime = 31000; a.filterCutoff = 7000; a.filterQ = 8; a.pan = 40; break;
    case 2: a.eg2.attackTime = 900; a.eg2.decayTime = 200; a.eg2.sustainLevel = 9000; a.eg2.releaseTime = 100; a.eg2ToPitch = 900; a.eg2ToFc = 1500; a.filterCutoff = 6000; break;
    case 3: a.lfoFreq = 1900; a.lfoDelay = 5; a.lfoToPitch = 200; a.lfoToGain = 12; break;
    case 4: a.eg1.attackTime = 32767; a.eg1.decayTime = 32767; a.eg1.sustainLevel = 32767; a.eg1.releaseTime = 0; a.lfoFreq = 700; a.lfoToPitch = -150; a.eg2.attackTime = a.eg2.sustainLevel = 32767; a.eg2ToPitch = 300; a.pan = -63; break;
    case 5: a.filterCutoff = 5000; a.filterQ = 14; break;
    }
    return a;
}
static EAS_HANDLE af_begin(int a, int b) {
    memset(S, 0, sizeof *S); S->a[0] = af_art(a); S->a[1] = af_art(b);
    S->r[0] = a == 3 ? reg(WPAT, 0, 63, 30000, 0, 0, REGION_FLAG_USE_WAVE_GENERATOR) : a == 4 ? reg(WRAMP, 0, 63, 3000, 0, 0, 0) : a == 5 ? reg(WPAT, 0, 63, 30000, 0, 0, 0) : reg(WPAT, 0, 63, 30000, 0, 650, 0);
    S->r[1] = b == 0 ? reg(WPAT, 64, 127, 30000, 0, 0, REGION_FLAG_USE_WAVE_GENERATOR) : b == 1 ? reg(WRAMP, 64, 127, 3000, 0, 0, 0) : reg(WSINE, 64, 127, 32767, 0, 4400, 0);
    S->r[1].region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; S->r[1].artIndex = 1;
    S->b[0].locale = 0x7900; S->b[1].locale = 0x7800; mk(S, 2, 2, 0, LIB_FORMAT_FILTER_ENABLED); begin(S); return H;
}
#include "afresh.h"
void mc_body(void) {
    int at = 0; for (int k = 0; k < NW; k++) { int n = (int[]){ 66, RAMP, 4410, 700 }[k]; OFF[k] = (EAS_U32)(at * (int)sizeof(EAS_SAMPLE)); LEN[k] = (EAS_U32)(n * (int)sizeof(EAS_SAMPLE));
      for (int i = 0; i < n; i++) pool[at + i] = SMP(k == WDC ? 2700 : k == WRAMP ? (i < 21000 ? 3 * i - 31000 : 32000) : k == WSINE ? (int)floor(1400 * sin(2 * M_PI * i / 44.0) + .5) : (i * 7919 + i * i * 31) % 4001 - 2000); at += n; }
    S = mc_big(sizeof *S); for (int k = 0; k < 5; k++) L[k] = mc_big(sizeof *L[k]);
    for (int k = 0; k < 5; k++) { lib *x = L[k]; memset(x, 0, sizeof *x); x->a[0] = x->a[1] = flat(); int nr = k == 2 ? BIGR : k == 1 ? 2 : 1; for (int r = 0; r < nr; r++) x->r[r] = reg(WDC, 0, 127, gainof(k > 2 ? 0 : k, r), 0, 32, REGION_FLAG_LAST_REGION); x->b[0].locale = 0x7900; x->b[1].locale = 0x7800; for (int p = 0; p < 128; p++) x->b[0].regionIndex[p] = x->b[1].regionIndex[p] = (EAS_U16)(k == 2 ? p % BIGR : k == 1 ? p == 1 : 0); mk(x, nr, 2, 0, 0); }
    { S_EAS y = L[3]->l; *(EAS_U32 *)&y.identifier += 0x01000000; remake(&L[3]->l, &y); S_EAS z = L[4]->l; *(EAS_U32 *)&z.libAttr = (EAS_U32)(_OUTPUT_SAMPLE_RATE / 2 | DEPTH); remake(&L[4]->l, &z); }
    smf_head(&quiet, 0, 1, 96); int m = smf_trk(&quiet); smf_eot(&quiet, 200000); smf_endtrk(&quiet, m);
    { mc_snap *s = mc_save(NULL); double *o = mc_big(40);
      single(S, WDC, flat(), 0); begin(S); sut_w3(H, 0x90, 60, 127); sut_render(); sut_render(); o[0] = sut_last(0); mc_restore(s);
      single(S, WRAMP, flat(), 0); begin(S); sut_w3(H, 0x90, 60, 127); sut_render(); double a = where(); for (int k = 0; k < 40; k++) sut_render(); o[1] = (where() - a) / 40; mc_restore(s);
      o[2] = pass(0, 0, 0, 0);
      single(S, WDC, flat(), 0); begin(S); EAS_HANDLE g; static EAS_FILE fl; static mc_file mf; EAS_OpenMIDIStream(E, &g, sut_open(sut_file(&fl, &mf, quiet.b, quiet.n))); sut_w3(g, 0xb0, 7, 127); sut_w3(g, 0x90, 60, 127); sut_render(); sut_render(); o[3] = sut_last(0); mc_restore(s);
      topf = o[3]; top = o[0]; level0 = o[1]; open_ = o[2]; mc_snap_free(s); }
    T = (double)FRAME / _OUTPUT_SAMPLE_RATE; (void)Tof; (void)has0; MC_CHECK(top > 3000 && topf > 1000 && top < 20000 && level0 > 300 && open_ > 500, "harness", "levels %.0f %.1f %.0f", top, level0, open_);
    mc_space a = { .name = "volume envelope", .n = NENV, .run = env1, .describe = env1_describe }; mc_enumerate(&a);
    mc_space pd = { .name = "pedal", .n = NPED, .run = pedal, .describe = pedal_describe }; mc_enumerate(&pd);
    for (prior = 0; prior < 12; prior += prior ? 7 : 2) {        /* 0, 2 and 9 frames */
        static char nm[3][6][60]; int q = prior ? prior > 5 ? 2 : 1 : 0; const char *af = (const char *[]){ "", ", after notes of 2 frames", ", after notes of 9 frames" }[q];
        snprintf(nm[q][0], 60, "pitch envelope%s", af);
        mc_space b = { .name = nm[q][0], .n = 1215, .run = env2, .describe = env2_describe }; mc_enumerate(&b);
        snprintf(nm[q][1], 60, "oscillator and pitch%s", af);
        mc_space c = { .name = nm[q][1], .n = 432, .run = osc, .describe = osc_describe }; mc_enumerate(&c);
        snprintf(nm[q][2], 60, "oscillator and level%s", af);
        mc_space d = { .name = nm[q][2], .n = 108, .run = trem, .describe = trem_describe }; mc_enumerate(&d);
        snprintf(nm[q][3], 60, "waves%s", af);
        mc_space g = { .name = nm[q][3], .n = 80, .run = waves, .describe = waves_describe }; mc_enumerate(&g);
        snprintf(nm[q][4], 60, "pan%s", af);
        mc_space h = { .name = nm[q][4], .n = 127 * 16, .run = pan, .describe = pan_describe }; mc_enumerate(&h);
        snprintf(nm[q][5], 60, "filter%s", af);
        mc_space j = { .name = nm[q][5], .n = 4 * 55, .run = filter, .describe = filter_describe }; mc_enumerate(&j);
    }
    prior = 0;
    mc_space af = { .name = "afresh", .n = AF_N, .run = afresh, .describe = afresh_describe }; mc_enumerate(&af);
    mc_space e = { .name = "programs", .n = 16 * NCH * NCH, .run = prog, .describe = prog_describe }; mc_enumerate(&e);
    mc_space f = { .name = "key ranges", .n = 9216, .run = keys, .describe = keys_describe }; mc_enumerate(&f);
    mc_model x = { .name = "libraries", .nops = 22, .depth = mc_thorough ? DEEP(11, 9) : 8, .dedupe = 1, .setup = lib_setup, .enabled = lib_enabled, .apply = lib_apply, .opname = lib_opname }; mc_explore(&x);
    { mc_snap *s = mc_save(NULL); double *o = mc_big(40); for (int k = 0; k < 4; k++) { kg_lib(); begin(S); sut_w3(H, 0xb1, 7, 127); sut_w3(H, 0x90 | KCH[k], 60 + k, 127); for (int f = 0; f < 3; f++) sut_render(); o[k] = sut_last(0); mc_restore(s); } memcpy(KLV, o, sizeof KLV); mc_snap_free(s); }
    for (int v = 0; v < 8; v++) { static const int P[] = { 64, 64, 64, 2, 2, 3, 3, 1 }, SE[] = { 0, 0, 1, 0, 1, 0, 1, 0 }, NX[] = { 0, 1, 0, 0, 0, 1, 0, 0 }; KP = P[v]; KSETTLE = SE[v]; KNX = NX[v]; static char nm[60]; snprintf(nm, sizeof nm, "key groups, polyphony %d%s%s", KP, KSETTLE ? ", settled" : "", KNX ? ", unlimited repeats" : "");
      mc_model y = { .name = nm, .nops = 9, .depth = mc_thorough ? DEEP(9, 7) : 7, .setup = kg_setup, .enabled = kg_enabled, .apply = kg_apply, .leaf = kg_leaf, .dedupe = 1, .opname = kg_opname }; mc_explore(&y); }
}
