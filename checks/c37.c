/* C37: a WAVE file plays the samples it contains (built with _WAVE_PARSER and _IMA_DECODER). */
#include "sut.h"
#include "wave.h"
#include <math.h>
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
const char mc_property[] = "C37";
#define OUTRATE 44100.0
#define MAXS 70000
#define GAIN 1.5067
enum { PAD = 4 };
static double G;                                       /* output per unit of sample at the default volumes */
static bytes W; static EAS_FILE ef; static mc_file em;
/* what the file contains: S[c][PAD + k] is sample k; before the beginning there is silence */
typedef struct { int n, ima; double hold; float s[2][PAD + MAXS + PAD]; } src;
static src *SR;
static double at(const src *s, int c, double p) {
    double fl = floor(p), f = p - fl; int k = (int)fl; double a, b;
    a = k < 0 ? 0 : k >= s->n ? s->hold * s->s[c][PAD + s->n - 1] : s->s[c][PAD + k];
    b = k + 1 < 0 ? 0 : k + 1 >= s->n ? s->hold * s->s[c][PAD + s->n - 1] : s->s[c][PAD + k + 1];
    return a + (b - a) * f;
}
/* the smallest interval that holds the interpolation everywhere within e of position p */
static void range(const src *s, int c, double p, double e, double *lo, double *hi) {
    double a = at(s, c, p - e), b = at(s, c, p + e); *lo = a < b ? a : b; *hi = a < b ? b : a;
    for (double k = floor(p - e) + 1; k < p + e; k += 1) { a = at(s, c, k); if (a < *lo) *lo = a; if (a > *hi) *hi = a; }
}
static EAS_STATE state(EAS_HANDLE h) { EAS_STATE st; EAS_RESULT r = EAS_State(E, h, &st); MC_CHECK(r == EAS_SUCCESS, "state", "EAS_State returned %ld", (long)r); return st; }
static long loc(EAS_HANDLE h) { EAS_I32 t; EAS_RESULT r = EAS_GetLocation(E, h, &t); MC_CHECK(r == EAS_SUCCESS, "location", "EAS_GetLocation returned %ld", (long)r); return (long)t; }
#define OUTMAX (256 * 80)
static EAS_PCM *OUT;                                    /* recording outside the state */
static int play(EAS_HANDLE h, int maxframes) {           /* until it stops; returns the number of frames */
    int n = 0; while (n < maxframes) { sut_render(); memcpy(OUT + n * FRAME * 2, PCM, (size_t)FRAME * 4); n++; if (state(h) == EAS_STATE_STOPPED) return n; }
    return n + 1;
}
static double clip(double v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : v; }
/* OUT, n samples, is the source played at a constant rate near "ratio" from its beginning */
static int follows(const src *s, int n, double g, double ratio, double *bad, int *where) {
    *where = -1;
    for (int i = 0; i < n; i++) for (int c = 0; c < 2; c++) {
        double lo, hi, o = OUT[i * 2 + c]; range(s, c, i * ratio - 2, 0.01 + i * ratio * 1.2e-5, &lo, &hi);
        if (o < clip(lo * g - 3 - fabs(lo) * g * 1e-3) || o > clip(hi * g + 3 + fabs(hi) * g * 1e-3)) { *where = i; *bad = o; return 0; }
    }
    return 1;
}
static void plays(const src *s, int frames, double g, double ratio, double below, double above, const char *what) {
    int n = frames * FRAME, w, best = -1; double bad, bo = 0, br = ratio;
    for (double r = ratio * (1 + above); r >= ratio * (1 - below) - 1e-9; r -= ratio * 1.6e-5) { if (follows(s, n, g, r, &bad, &w)) return; if (w > best) { best = w; bo = bad; br = r; } }
    mc_fail("samples", "%s: output sample %d is %g; the source at position %.2f of %d (rate ratio %.5f) is %g, %g, times %.4f", what, best, bo, best * br - 2, s->n, br, at(s, 0, best * br - 2), at(s, 1, best * br - 2), g);
}
static void stops(const src *s, int frames, double ratio, double tol, const char *what) {
    double lo = s->n * (1 - tol) - 2.5 - ratio, hi = s->n * (1 + tol) + 2.5;
    MC_CHECK(frames * FRAME * ratio >= lo && (frames - 1) * FRAME * ratio <= hi, "end", "%s: a file of %d samples at ratio %.4f stopped in frame %d", what, s->n, ratio, frames);
    for (int k = 0; k < 3; k++) { sut_render(); MC_CHECK(pcm_silent(), "after-end", "%s: there is sound after the end", what); }
}
/* samples that make a position recognisable */
static int noise(int k, int c) { u32 x = (u32)(k * 2 + c) * 2654435761u + 12345; x ^= x >> 13; x *= 2246822519u; x ^= x >> 16; return (int)(x % 40001) - 20000; }
static void pcm_source(src *s, bytes *d, int n, int st, int bits) {
    s->n = n; s->hold = 0; d->n = 0;
    for (int k = 0; k < n; k++) for (int c = 0; c < 2; c++) {
        int v = noise(k, c); if (k < 4) v = (int[]){ 32767, -32768, 0, 1 }[(k + c) & 3];
        if (bits == 8) v = (v >> 8) * 256;
        if (c && !st) { s->s[1][PAD + k] = s->s[0][PAD + k]; continue; }
        s->s[c][PAD + k] = (float)v; if (bits == 8) by_u8(d, (v / 256) + 128); else by_le16(d, v);
    }
}
static const int RATES[] = { 4000, 8000, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000 }; static const int LENS[] = { 1, 2, 3, 7, 100, 511, 512, 1500 };
static const u32 SPEED[] = { 0, 1u << 27, 1u << 29, (1u << 28) + (1u << 26) };
enum { NLAY = 5 };
static bytes Dt;
static void layout(int lay, int ima, int st, int rate, int bits, int block, const bytes *d) {
    wbegin(&W);
    if (lay == 1) { wchunk(&W, "junk", "abc", 3); winfo(&W, 0); }
    if (lay == 2) { bytes f = {0}; by_le16(&f, ima ? 0x11 : 1); by_le16(&f, 1 + st); by_le32(&f, (u32)rate); by_le32(&f, 1); by_le16(&f, ima ? block : (1 + st) * bits / 8); by_le16(&f, bits); by_le16(&f, 2); by_le16(&f, 77); by_u8(&f, 5); wchunk(&W, "fmt ", f.b, f.n); by_free(&f); }
    else wfmt(&W, ima, 1 + st, rate, bits, block);
    if (lay == 3) { wchunk(&W, "fact", "\1\0\0\0", 4); winfo(&W, 1); wchunk(&W, "odd ", "xyzzy", 5); }
    wchunk(&W, "data", d->b, d->n); if (lay == 2 || lay == 3) { wchunk(&W, "tail", "12345", 5); winfo(&W, 0); } wend(&W);
    if (lay == 4) { W.b[4] = W.b[5] = W.b[6] = 0; W.b[7] = 0x80; W.n -= d->n & 1; }
}
static void go(const src *s, int rate, u32 speed, const char *what) {
    EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef, &em, W.b, W.n), &h); MC_CHECK(r == EAS_SUCCESS, "open", "%s: EAS_OpenFile returned %ld", what, (long)r);
    r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "%s: EAS_Prepare returned %ld", what, (long)r);
    if (speed) { r = EAS_SetPlaybackRate(E, h, speed); MC_CHECK(r == EAS_SUCCESS, "rate", "EAS_SetPlaybackRate returned %ld", (long)r); }
    EAS_I32 ft = -1; r = EAS_GetFileType(E, h, &ft); MC_CHECK(r == EAS_SUCCESS && ft == (s->ima ? EAS_FILE_WAVE_IMA_ADPCM : EAS_FILE_WAVE_PCM), "type", "%s: file type %ld", what, (long)ft);
    MC_CHECK(state(h) == EAS_STATE_READY, "ready", "%s: state %ld after EAS_Prepare", what, (long)state(h));
    double ratio = rate / OUTRATE * (speed ? speed / (double)(1 << 28) : 1); int fr = play(h, 79);
    double below = speed ? 1.2e-3 : 3.2e-4, above = speed ? 6e-4 : 1e-4;
    plays(s, fr > 79 ? 79 : fr, G, ratio, below, above, what); if (fr <= 79) stops(s, fr, ratio, below, what); else MC_CHECK(s->n > 79 * FRAME * ratio * (1 - below) - 3, "no-end", "%s: does not end", what);
    mc_count("output samples compared", (fr > 79 ? 79 : fr) * FRAME);
    r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r);
}
static void run_pcm(u64 i) {
    int lay = (int)(i % NLAY), sp, kind, ra; i /= NLAY; sp = (int)(i % 4); i /= 4; kind = (int)(i % 4); i /= 4; ra = (int)(i % 11); i /= 11;
    int n = LENS[i], st = kind & 1, bits = kind & 2 ? 16 : 8; char w[80]; snprintf(w, sizeof w, "%d bit %s", bits, st ? "stereo" : "mono");
    if (n == 1500 && RATES[ra] < 8000 && sp == 1) mc_skip();
    sut_init(); sut_dry(); SR->ima = 0; pcm_source(SR, &Dt, n, st, bits); layout(lay, 0, st, RATES[ra], bits, 0, &Dt); go(SR, RATES[ra], SPEED[sp], w);
}
static void d_pcm(u64 i, char *b, size_t c) { int lay = (int)(i % NLAY), sp, kind, ra; i /= NLAY; sp = (int)(i % 4); i /= 4; kind = (int)(i % 4); i /= 4; ra = (int)(i % 11); i /= 11; snprintf(b, c, "%d samples, %d bit %s, %d Hz, speed %g, layout %d", LENS[i], kind & 2 ? 16 : 8, kind & 1 ? "stereo" : "mono", RATES[ra], SPEED[sp] ? SPEED[sp] / (double)(1 << 28) : 1, lay); }
/* ADPCM */
static const int BLK[] = { 0, 4, 5, 16, 36, 64, 256 }; static const int IRATE[] = { 4000, 8000, 22050, 44100 }, ILEN[] = { 1, 3, 4, 5, 37, 72, 75, 500 };
static int nib(int k, int pat) { return pat == 0 ? noise(k, 0) & 15 : pat == 1 ? (k / 6 % 2 ? 15 : 7) : pat == 2 ? (noise(k, 1) & 11) : 7; }
static void ima_source(src *s, bytes *d, int bytes_, int block, int pat) {
    s->n = 0; s->hold = 1; d->n = 0; int pred = 0, idx = 0, left = bytes_, k = 0;
    while (left > 0) {
        int in = block ? block : left; if (in > left) in = left;
        if (block) { pred = noise(k, 1); if (pat == 3) pred = 32000; idx = pat == 1 ? 88 : (k * 7) % 60; if (in < 4) { for (int j = 0; j < in; j++) by_u8(d, 0x55); break; } by_le16(d, pred); by_u8(d, idx); by_u8(d, pat == 2 ? 0xff : 0); s->s[0][PAD + s->n] = s->s[1][PAD + s->n] = (float)pred; s->n++; left -= 4; in -= 4; }
        for (int j = 0; j < in; j++) { int a = nib(k++, pat), b = nib(k++, pat); by_u8(d, a | b << 4); s->s[0][PAD + s->n] = s->s[1][PAD + s->n] = (float)ima_next(&pred, &idx, a); s->n++; s->s[0][PAD + s->n] = s->s[1][PAD + s->n] = (float)ima_next(&pred, &idx, b); s->n++; left--; }
    }
}
static void run_ima(u64 i) {
    int lay = (int)(i % NLAY), sp, ra, pat, bl; i /= NLAY; sp = (int)(i % 4); i /= 4; ra = (int)(i % 4); i /= 4; pat = (int)(i % 4); i /= 4; bl = BLK[i % 7]; i /= 7; int n = ILEN[i];
    if (bl && n < 4) mc_skip(); if (lay == 4 && bl && n % bl && n % bl < 4) mc_skip();
    sut_init(); sut_dry(); SR->ima = 1; ima_source(SR, &Dt, n, bl, pat); if (lay == 4) SR->hold = 0; layout(lay, 1, 0, IRATE[ra], 4, bl, &Dt); go(SR, IRATE[ra], SPEED[sp], "ADPCM");
}
static void d_ima(u64 i, char *b, size_t c) { int lay = (int)(i % NLAY), sp, ra, pat, bl; i /= NLAY; sp = (int)(i % 4); i /= 4; ra = (int)(i % 4); i /= 4; pat = (int)(i % 4); i /= 4; bl = BLK[i % 7]; i /= 7; snprintf(b, c, "ADPCM, %d bytes in blocks of %d, pattern %d, %d Hz, speed %d, layout %d", ILEN[i], bl, pat, IRATE[ra], sp, lay); }
/* the data end before the file says so: what is there is played */
static void run_cut(u64 i) {
    int kind = (int)(i % 6), cut; i /= 6; int f = (int)(i & 1); i >>= 1; cut = (int)i; int st = kind < 4 && kind & 1, bits = kind & 2 ? 16 : 8, fr = 1;
    sut_init(); sut_dry(); SR->ima = kind >= 4;
    if (kind < 4) { fr = (1 + st) * bits / 8; pcm_source(SR, &Dt, 600, st, bits); } else ima_source(SR, &Dt, 300, kind == 4 ? 36 : 0, 0);
    if (cut >= Dt.n) mc_skip(); layout(f ? 1 : 0, kind >= 4, st, 22050, kind >= 4 ? 4 : bits, kind == 4 ? 36 : 0, &Dt); int at_ = W.n - (Dt.n + (Dt.n & 1)); W.n = at_ + cut;
    int whole; if (kind < 4) whole = cut / fr; else if (kind == 5) whole = cut * 2; else { int b = cut / 36, r = cut % 36; whole = b * 65 + (r >= 4 ? 1 + (r - 4) * 2 : 0); }
    SR->n = whole; SR->hold = 0; char w[60]; snprintf(w, sizeof w, "%s with %d of its bytes", kind < 4 ? "PCM" : "ADPCM", cut); go(SR, 22050, 0, w);
}
static void d_cut(u64 i, char *b, size_t c) { snprintf(b, c, "kind %d, %sdata end after %d bytes", (int)(i % 6), i / 6 & 1 ? "INFO first, " : "", (int)(i / 12)); }
/* locate in files of three seconds */
enum { LT = 449 };
static void run_locate(u64 i) {
    int t = (int)(i % LT) * 7; i /= LT; int kind = (int)(i % 6); i /= 6; static const int R[] = { 4000, 11025, 22050 }; int rate = R[i % 3]; i /= 3; int before = (int)i, st = kind < 4 && kind & 1, bits = kind & 2 ? 16 : 8, blk = kind == 4 ? 36 : 256, spb = blk * 2 - 7; int ok = 0; EAS_RESULT r;
    sut_init(); sut_dry(); SR->ima = kind >= 4; if (kind < 4) pcm_source(SR, &Dt, rate * 3, st, bits); else ima_source(SR, &Dt, (rate * 3 / spb + 1) * blk, blk, 2); layout(0, kind >= 4, st, rate, kind >= 4 ? 4 : bits, blk, &Dt);
    EAS_HANDLE h = sut_open(sut_file(&ef, &em, W.b, W.n)); for (int k = 0; k < before; k++) sut_render(); if (before == 2) { r = EAS_Locate(E, h, 2950, EAS_FALSE); MC_CHECK(r == EAS_SUCCESS, "locate", "%ld", (long)r); sut_render(); } if (loc(h) == t) mc_skip(); r = EAS_Locate(E, h, t, EAS_FALSE);
    if (kind < 4 && t > 3001) { MC_CHECK(r == EAS_ERROR_LOCATE_BEYOND_END, "locate", "locate %d ms, beyond the end, returned %ld", t, (long)r); sut_render(); sut_render(); MC_CHECK(state(h) == EAS_STATE_STOPPED && pcm_silent(), "end", "it does not stop after a locate beyond the end"); return; }
    if (t >= 2980) mc_skip(); MC_CHECK(r == EAS_SUCCESS, "locate", "locate %d ms returned %ld", t, (long)r); MC_CHECK(loc(h) == t, "location", "%ld ms after a locate to %d", loc(h), t); sut_render(); sut_render(); memcpy(OUT, PCM, (size_t)FRAME * 4); double ratio = rate / OUTRATE, p0 = t * (double)rate / 1000; if (kind >= 4) p0 = floor(p0 / spb) * spb;
    /* the second frame after the locate, at any phase within the tolerance */
    double lo = p0 + FRAME * ratio - 2 - 4, hi = p0 + FRAME * ratio - 2 + 3.5;
    if (kind >= 4 && fabs(t * (double)rate / 1000 - p0 - spb) < 2) lo -= spb, hi += 0; if (kind >= 4 && t * (double)rate / 1000 - p0 < 2) lo -= spb;
    for (double p = lo; p <= hi && !ok; p += 0.05) { ok = 1; for (int n = 0; n < FRAME && ok; n++) for (int c = 0; c < 2; c++) { double a, b, o = OUT[n * 2 + c]; range(SR, c, p + n * ratio, 0.06, &a, &b); if (o < clip(a * G - 5 - fabs(a) * G * 1e-3) || o > clip(b * G + 5 + fabs(b) * G * 1e-3)) { ok = 0; break; } } }
    MC_CHECK(ok, "locate", "after a locate to %d ms (sample %.1f) something else is heard than the samples there", t, p0);
}
static void d_locate(u64 i, char *b, size_t c) { int t = (int)(i % LT) * 7; i /= LT; int kind = (int)(i % 6); i /= 6; snprintf(b, c, "kind %d, %d Hz, after %d frames to %d ms", kind, (int[]){ 4000, 11025, 22050 }[i % 3], (int)(i / 3), t); }
/* the volume of the stream is in dB */
static double level(int v, int how) {          /* steady output per unit at volume v */
    static bytes d; d.n = 0; for (int k = 0; k < 3000; k++) by_le16(&d, 3000); layout(0, 0, 0, 44100, 16, 0, &d);
    EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef, &em, W.b, W.n), &h); MC_CHECK(r == EAS_SUCCESS, "open", "%ld", (long)r);
    if (how == 0) { r = EAS_SetVolume(E, h, v); MC_CHECK(r == EAS_SUCCESS || r == EAS_ERROR_NOT_VALID_IN_THIS_STATE, "volume", "%ld", (long)r); }
    r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "%ld", (long)r);
    if (how == 1 || how == 0) { r = EAS_SetVolume(E, h, v); MC_CHECK(r == EAS_SUCCESS, "volume", "%ld", (long)r); }
    sut_render(); if (how == 2) { r = EAS_SetVolume(E, h, v); MC_CHECK(r == EAS_SUCCESS, "volume", "%ld", (long)r); int a = PCM[0]; sut_render(); (void)a; }
    EAS_I32 back = -1; back = EAS_GetVolume(E, h); MC_CHECK(how == 3 || back == v, "get-volume", "volume %d set, %ld read back", v, (long)back);
    sut_render(); double x = PCM[FRAME] / 3000.0, y = PCM[FRAME + 1] / 3000.0; for (int k = 2; k < FRAME * 2; k++) MC_CHECK(abs(PCM[k] - PCM[k & 1]) <= 1, "steady", "a constant does not sound constant: %d, %d", PCM[k & 1], PCM[k]); MC_CHECK(fabs(x - y) < 2e-4, "balance", "left %g, right %g", x, y);
    r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); return x;
}
static void run_vol(u64 i) { int v = (int)(i % 101), how = (int)(i / 101); sut_init(); sut_dry(); double g = level(v, how), want = G * pow(10, (v - 100) / 20.0); MC_CHECK(fabs(g - want) <= want * 0.03 + 1.5 / 3000, "volume-law", "volume %d: gain %.5f instead of %.5f", v, g, want); }
static void d_vol(u64 i, char *b, size_t c) { snprintf(b, c, "volume %d set %s", (int)(i % 101), (const char *[]){ "before and after preparing", "after preparing", "while it plays" }[i / 101]); }
/* two files, or a file and MIDI, at once: the sum of both */
enum { NT = 9 };
static void tfile(int k, EAS_FILE *f, mc_file *m, bytes *o) {
    static bytes d; static src *tmp; if (!tmp) tmp = SR;
    if (k < 6) { static const int R[6] = { 8000, 44100, 22050, 96000, 11025, 48000 }; pcm_source(SR, &d, 700 + k * 90, k & 1, k & 2 ? 16 : 8); for (int j = 0; k & 2 && j + 1 < d.n; j += 2) { int v = (int16_t)(d.b[j] | d.b[j + 1] << 8) / 3; d.b[j] = (u8)v; d.b[j + 1] = (u8)(v >> 8); } layout(k % 4, 0, k & 1, R[k], k & 2 ? 16 : 8, 0, &d); o->n = 0; by_put(o, W.b, W.n); }
    else if (k == 6) { ima_source(SR, &d, 500, 36, 2); layout(0, 1, 0, 22050, 4, 36, &d); o->n = 0; by_put(o, W.b, W.n); }
    else { o->n = 0; smf_head(o, 0, 1, 96); int t = smf_trk(o); smf_tempo(o, 0, 200000); smf_ev2(o, 0, 0xc0, k == 7 ? 0 : 19); smf_ev3(o, 0, 0x90, 60, 90); smf_ev3(o, 12, 0x90, 67, 80); smf_ev3(o, 10, 0x80, 60, 0); smf_eot(o, 20); smf_endtrk(o, t); }
    sut_file(f, m, o->b, o->n);
}
static void run_two(u64 i) {
    int a = (int)(i % NT), b = (int)(i / NT % NT), late = (int)(i / NT / NT) * 3, n = 14; static bytes fa, fb; static EAS_FILE ea, eb; static mc_file ma, mb; EAS_HANDLE h; EAS_RESULT r;
    for (int pass = 0; pass < 3; pass++) {
        sut_init(); sut_dry(); EAS_HANDLE ha = NULL, hb = NULL; tfile(a, &ea, &ma, &fa); tfile(b, &eb, &mb, &fb);
        r = EAS_SetVolume(E, NULL, 78); MC_CHECK(r == EAS_SUCCESS, "volume", "%ld", (long)r);
        for (int k = 0; k < n; k++) { if (k == 0 && pass != 1) ha = sut_open(&ea); if (k == late && pass != 0) hb = sut_open(&eb); sut_render(); for (int j = 0; j < FRAME * 2; j++) { int at_ = k * FRAME * 2 + j; if (pass == 0) OUT[at_] = PCM[j]; else if (pass == 1) OUT[OUTMAX + at_] = PCM[j]; else { int want = OUT[at_] + OUT[OUTMAX + at_]; if (abs(want) < 30000) MC_CHECK(abs(PCM[j] - want) <= 4, "sum", "frame %d: two files together give %d, alone they give %d and %d", k, PCM[j], OUT[at_], OUT[OUTMAX + at_]); } } }
        for (h = ha, r = 0; h; h = h == ha ? hb : NULL) { r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); } if (!ha && hb) { r = EAS_CloseFile(E, hb); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); } if (pass < 2) { r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "%ld", (long)r); }
    }
}
static void d_two(u64 i, char *b, size_t c) { snprintf(b, c, "files %d and %d, the second %d frames later", (int)(i % NT), (int)(i / NT % NT), (int)(i / NT / NT) * 3); }
/* what is said about the file */
static const char *const TAG[] = { "INAM", "IART", "ICOP", "ISFT", "" }; static const E_EAS_METADATA_TYPE MT[] = { EAS_METADATA_TITLE, EAS_METADATA_AUTHOR, EAS_METADATA_COPYRIGHT }; static const int TL[] = { 0, 1, 5, 8, 33 }, BS[] = { 1, 2, 6, 40 };
static struct { int n; E_EAS_METADATA_TYPE t[8]; char x[8][48]; void *u; } got; static char mbuf[64];
static void mcb(E_EAS_METADATA_TYPE t, char *m, EAS_VOID_PTR p) { if (got.n < 8) { got.t[got.n] = t; snprintf(got.x[got.n], 48, "%s", m); got.u = p; } got.n++; }
static void run_meta(u64 i) {
    int bs = BS[i % 4]; i /= 4; int where = (int)(i % 3); i /= 3; int tl[3], tg[3]; bytes l = {0}; struct { int n; E_EAS_METADATA_TYPE t[3]; char x[3][48]; } want; want.n = 0; by_put(&l, "INFO", 4); EAS_RESULT r;
    for (int k = 0; k < 3; k++) { tg[k] = (int)(i % 5); i /= 5; } int base = (int)(i % 5);
    for (int k = 0; k < 3; k++) { char t[40]; tl[k] = TL[(base + k * 2) % 5]; for (int j = 0; j < tl[k]; j++) t[j] = (char)('a' + (j + k * 5) % 26); if (tg[k] == 4) continue; wchunk(&l, TAG[tg[k]], t, tl[k]); if (tg[k] < 3) { int m = tl[k] < bs - 1 ? tl[k] : bs - 1; want.t[want.n] = MT[tg[k]]; memcpy(want.x[want.n], t, (size_t)m); want.x[want.n++][m] = 0; } }
    static bytes d; pcm_source(SR, &d, 333, 1, 16); wbegin(&W); if (where == 0) wchunk(&W, "LIST", l.b, l.n); wfmt(&W, 0, 2, 11025, 16, 0); if (where == 1) wchunk(&W, "LIST", l.b, l.n); wchunk(&W, "data", d.b, d.n); if (where == 2) wchunk(&W, "LIST", l.b, l.n); wend(&W); by_free(&l);
    sut_init(); sut_dry(); memset(&got, 0, sizeof got); memset(mbuf, 0x55, sizeof mbuf); EAS_HANDLE h = NULL; r = EAS_OpenFile(E, sut_file(&ef, &em, W.b, W.n), &h); MC_CHECK(r == EAS_SUCCESS, "open", "%ld", (long)r); r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "%ld", (long)r); r = EAS_RegisterMetaDataCallback(E, h, mcb, mbuf, bs, &got); MC_CHECK(r == EAS_SUCCESS, "register", "%ld", (long)r);
    EAS_I32 len = -7; r = EAS_ParseMetaData(E, h, &len); MC_CHECK(r == EAS_SUCCESS, "metadata", "EAS_ParseMetaData returned %ld", (long)r); MC_CHECK(len == 333 * 4 * 1000 / 44100, "length", "length %ld ms instead of %d", (long)len, 333 * 4 * 1000 / 44100);
    MC_CHECK(got.n == want.n, "metadata", "%d texts reported instead of %d", got.n, want.n); for (int k = 0; k < want.n; k++) MC_CHECK(got.t[k] == want.t[k] && !strcmp(got.x[k], want.x[k]) && got.u == &got, "metadata", "text %d: type %d \"%s\" instead of %d \"%s\"", k, (int)got.t[k], got.x[k], (int)want.t[k], want.x[k]); for (int k = bs; k < 64; k++) MC_CHECK(mbuf[k] == 0x55, "metadata-overrun", "buffer of %d bytes overrun", bs);
    double ratio = 0.25; int fr = play(h, 79); plays(SR, fr, G, ratio, 3.2e-4, 1e-4, "with texts"); r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r);
}
static void d_meta(u64 i, char *b, size_t c) { int bs = BS[i % 4]; i /= 4; int w = (int)(i % 3); i /= 3; snprintf(b, c, "buffer of %d, INFO %s, texts %s %s %s, lengths %d", bs, (const char *[]){ "first", "before the data", "last" }[w], TAG[i % 5], TAG[i / 5 % 5], TAG[i / 25 % 5], (int)(i / 125)); }
/* control while it plays: a ramp on the left and a constant on the right tell where it is and how loud it is */
enum { CN = 2550, CR = 22050, DC = 12000 };
static EAS_HANDLE CH; static int cima; static src *CS; static bytes CW;
static struct { double pos, seg, g, loc, speed; int st, rep, vol, ended, maybe, located, fresh; } m;
static double GV[2];                                     /* gain at volume 100 and 88 */
static void c_file(void) {
    bytes d = {0}; CS->n = 0; CS->hold = cima; CS->ima = cima;
    if (!cima) { CS->n = CN; for (int k = 0; k < CN; k++) { int v = 1000 + k * 7; CS->s[0][PAD + k] = (float)v; CS->s[1][PAD + k] = DC; by_le16(&d, v); by_le16(&d, DC); } }
    else for (int b = 0; b < 39; b++) { int p = 2000 + b * 400; by_le16(&d, p); by_le16(&d, 0); for (int j = 0; j < 32; j++) by_u8(&d, 0x80); for (int j = 0; j < 65; j++) { CS->s[0][PAD + CS->n] = CS->s[1][PAD + CS->n] = (float)p; CS->n++; } }
    wbegin(&CW); winfo(&CW, 0); wfmt(&CW, cima, cima ? 1 : 2, CR, cima ? 4 : 16, cima ? 36 : 0); wchunk(&CW, "data", d.b, d.n); for (int j = 0; j < d.n; j++) d.b[j] = (u8)(j * 57); wchunk(&CW, "junk", d.b, d.n < 4000 ? d.n : 4000); wend(&CW); by_free(&d);
}
static void c_setup(void) { sut_init(); sut_dry(); CH = sut_open(sut_file(&ef, &em, CW.b, CW.n)); memset(&m, 0, sizeof m); m.st = EAS_STATE_READY; m.fresh = 1; m.speed = 1; }
static void c_look(const char *what) {
    EAS_STATE st = state(CH); int want = m.st == EAS_STATE_STOPPED && m.rep ? EAS_STATE_PLAY : m.st;
    if (want == EAS_STATE_READY && st == EAS_STATE_PLAY) st = want; if (want == EAS_STATE_PAUSING && m.located && st == EAS_STATE_PAUSED) st = want;
    if (!m.maybe) MC_CHECK(st == want, "state", "after %s: state %ld instead of %d", what, (long)st, want);
    long t = loc(CH); MC_CHECK(fabs((double)t - m.loc) <= 14, "location", "after %s: location %ld ms instead of %.1f", what, t, m.loc);
}
static void c_frame(void) {
    int restart = 0;
    if (m.st == EAS_STATE_STOPPED && m.rep) { m.rep--; m.pos = 0; m.seg = 0; m.loc = 0; m.g = GV[m.vol]; m.st = EAS_STATE_READY; m.ended = 0; restart = 1; }
    sut_render(); m.located = 0; if (m.st == EAS_STATE_STOPPED || m.st == EAS_STATE_PAUSED) { MC_CHECK(pcm_silent(), "silent", "there is sound in state %d", m.st); c_look("a frame"); return; }
    if (m.fresh) m.g = GV[m.vol]; m.fresh = 0; double ratio = CR / OUTRATE * m.speed, g1 = m.st == EAS_STATE_PAUSING ? 0 : GV[m.vol], lo = m.g < g1 ? m.g : g1, hi = m.g < g1 ? g1 : m.g; double tol = 3;
    if (!m.ended) for (int n = 0; n < FRAME; n++) {
        double p = m.pos + n * ratio - 2, a, b; if (restart && p < -0.5) MC_CHECK(PCM[n * 2] >= -4 && PCM[n * 2] <= CS->s[0][PAD] * m.g + 4, "restart", "sample %d after starting over: %d", n, PCM[n * 2]); if (p - tol < m.seg || p + tol > CS->n - 1) continue; int L = PCM[n * 2], R = PCM[n * 2 + 1];
        range(CS, 0, p, tol, &a, &b); MC_CHECK(L >= a * lo * 0.99 - 4 && L <= b * hi * 1.01 + 4, "place", "sample %d of a frame: %d, at position %.1f it has to be between %.1f and %.1f", n, L, p, a * lo, b * hi);
        if (cima) MC_CHECK(abs(L - R) <= 1, "mono", "left %d, right %d", L, R); else { MC_CHECK(R >= DC * lo * 0.99 - 3 && R <= DC * hi * 1.01 + 3, "loudness", "sample %d of a frame: %d instead of %.1f to %.1f", n, R, DC * lo, DC * hi); if (R > 300) { double q = (double)L / R * DC; MC_CHECK(q >= a * (1 - 3.0 / R) - 40 - 60000.0 / R && q <= b * (1 + 3.0 / R) + 40 + 60000.0 / R, "place", "sample %d of a frame: left/right %.1f, at position %.1f it has to be between %.1f and %.1f", n, q, p, a, b); } }
        /* the level changes gradually, and has changed at the end of the frame */
        double gw = m.g + (g1 - m.g) * n / FRAME; MC_CHECK(fabs((cima ? L : R) - gw * (cima ? (a + b) / 2 : DC)) <= (cima ? (b - a) / 2 * hi : 0) + 0.02 * hi * (cima ? b : DC) + 4, "fade", "sample %d of a frame: %d instead of %.1f", n, cima ? L : R, gw * (cima ? (a + b) / 2 : DC));
    }
    m.g = g1; m.loc += FRAME / 44.1 * m.speed; m.pos += FRAME * ratio; m.maybe = 0; int fin = m.ended || m.pos >= CS->n; m.maybe = !m.ended && fabs(m.pos - CS->n) < 6;
    m.st = m.st == EAS_STATE_PAUSING ? EAS_STATE_PAUSED : EAS_STATE_PLAY; if (fin) m.st = EAS_STATE_STOPPED;
    c_look("a frame"); if (m.maybe) { EAS_STATE st = state(CH); int r0 = m.rep; if (r0) mc_skip(); MC_CHECK(st == EAS_STATE_STOPPED || st == EAS_STATE_PLAY || st == EAS_STATE_PAUSED, "state", "state %ld near the end", (long)st); if (st != m.st) { m.st = (int)st; m.ended = st != EAS_STATE_STOPPED; } m.maybe = 0; }
}
static const int LOCS[] = { 0, 30, 77, 5000 };
enum { O_R, O_R4, O_R12, O_PAUSE, O_RESUME, O_L0, O_L1, O_L2, O_L3, O_HALF, O_DBL, O_ONE, O_VOL, O_REP, O_META, O_N };
static void c_op(int op) {
    EAS_RESULT r, want = EAS_SUCCESS; char nm[40] = ""; long now;
    switch (op) {
    case O_R: c_frame(); return;
    case O_R4: for (int k = 0; k < 4; k++) c_frame(); return;
    case O_R12: for (int k = 0; k < 12; k++) c_frame(); return;
    case O_PAUSE: if (m.st == EAS_STATE_STOPPED && m.rep) mc_skip(); r = EAS_Pause(E, CH); want = m.st == EAS_STATE_READY || m.st == EAS_STATE_PLAY ? EAS_SUCCESS : EAS_ERROR_NOT_VALID_IN_THIS_STATE; if (!want) m.st = EAS_STATE_PAUSING; strcpy(nm, "EAS_Pause"); break;
    case O_RESUME: if (m.st == EAS_STATE_STOPPED) mc_skip(); r = EAS_Resume(E, CH); want = m.st == EAS_STATE_PAUSED || m.st == EAS_STATE_PAUSING ? EAS_SUCCESS : EAS_ERROR_NOT_VALID_IN_THIS_STATE; if (!want) m.st = EAS_STATE_PLAY; strcpy(nm, "EAS_Resume"); break;
    case O_L0: case O_L1: case O_L2: case O_L3: { int t = LOCS[op - O_L0]; now = loc(CH); r = EAS_Locate(E, CH, t, EAS_FALSE); sprintf(nm, "EAS_Locate(%d)", t); if (t == now) break; m.located = 1; if (t == 5000) { want = EAS_ERROR_LOCATE_BEYOND_END; if (m.st != EAS_STATE_STOPPED) m.ended = 1; break; } double s = t * (double)CR / 1000; if (cima) s = floor(s / 65) * 65; m.pos = m.seg = s; m.loc = t; m.ended = 0; if (m.st != EAS_STATE_PAUSED && m.st != EAS_STATE_PAUSING) m.st = EAS_STATE_READY; break; }
    case O_HALF: case O_DBL: case O_ONE: r = EAS_SetPlaybackRate(E, CH, op == O_HALF ? 1u << 27 : op == O_DBL ? 1u << 29 : 1u << 28); m.speed = op == O_HALF ? 0.5 : op == O_DBL ? 2 : 1; strcpy(nm, "EAS_SetPlaybackRate"); break;
    case O_VOL: m.vol ^= 1; r = EAS_SetVolume(E, CH, m.vol ? 88 : 100); strcpy(nm, "EAS_SetVolume"); break;
    case O_REP: m.rep = 1; r = EAS_SetRepeat(E, CH, 1); strcpy(nm, "EAS_SetRepeat"); break;
    default: { EAS_I32 len = 0; r = EAS_ParseMetaData(E, CH, &len); strcpy(nm, "EAS_ParseMetaData"); } break;
    }
    MC_CHECK(r == want, "result", "%s returned %ld instead of %ld", nm, (long)r, (long)want); c_look(nm);
}
static const char *c_name(int op) { static const char *const n[] = { "a frame", "4 frames", "12 frames", "pause", "resume", "locate 0", "locate 30", "locate 77", "locate 5000", "half speed", "double speed", "normal speed", "other volume", "repeat once", "metadata" }; return n[op]; }
static void c_leaf(void) { for (int k = 0; k < 6; k++) c_frame(); if (m.st == EAS_STATE_PAUSED) { c_op(O_RESUME); for (int k = 0; k < 3; k++) c_frame(); } EAS_RESULT r = EAS_CloseFile(E, CH); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "shutdown", "%ld, %ld blocks", (long)r, mc_live()); }
void mc_body(void) {
    OUT = mc_big(sizeof(EAS_PCM) * OUTMAX * 2 * 2); SR = mc_big(sizeof *SR); CS = mc_big(sizeof *CS); { static u8 z[300000]; by_put(&W, z, sizeof z); by_put(&Dt, z, sizeof z); }
    mc_snap *s0 = mc_save(NULL); sut_init(); sut_dry(); double g = level(100, 1), g88 = level(88, 1); mc_restore(s0); G = GV[0] = g; GV[1] = g88;
    MC_CHECK(fabs(G - GAIN) < GAIN * 0.05, "gain", "a WAVE file sounds at %.4f of its level instead of %.4f", G, GAIN);
    mc_bound("PCM: 8 lengths (1..1500) x 11 sample rates x 4 formats x 4 speeds x %d layouts; ADPCM: 8 lengths x 7 block sizes x 4 contents x 4 sample rates x 4 speeds x %d layouts; 6 formats ending after any number of bytes", NLAY, NLAY);
    mc_space a = { .name = "PCM", .n = 8ull * 11 * 4 * 4 * NLAY, .run = run_pcm, .describe = d_pcm, .cpu_limit = 20 }; mc_enumerate(&a);
    mc_space b = { .name = "ADPCM", .n = 8ull * 7 * 4 * 4 * 4 * NLAY, .run = run_ima, .describe = d_ima, .cpu_limit = 20 }; mc_enumerate(&b);
    mc_space e = { .name = "cut", .n = 2400ull * 12, .run = run_cut, .describe = d_cut, .cpu_limit = 20 }; mc_enumerate(&e);
    mc_space l = { .name = "locate", .n = (u64)LT * 6 * 3 * 3, .run = run_locate, .describe = d_locate, .cpu_limit = 20 }; mc_enumerate(&l);
    mc_space v = { .name = "volume", .n = 303, .run = run_vol, .describe = d_vol, .cpu_limit = 5 }; mc_enumerate(&v);
    mc_space t = { .name = "two", .n = NT * NT * 3, .run = run_two, .describe = d_two, .cpu_limit = 5 }; mc_enumerate(&t);
    mc_space x = { .name = "texts", .n = 4 * 3 * 125 * 5, .run = run_meta, .describe = d_meta, .cpu_limit = 20 }; mc_enumerate(&x);
    for (cima = 0; cima < 2; cima++) { c_file(); mc_model c = { .name = cima ? "control, ADPCM" : "control, PCM", .nops = O_N, .depth = mc_thorough ? 8 : 6, .setup = c_setup, .apply = c_op, .leaf = c_leaf, .opname = c_name, .dedupe = 1, .leaf_only_final = 1, .cpu_limit = 20 }; mc_explore(&c); }
}
