/* C39: the instruments of the built-in sound set. */
#include "sut.h"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include <math.h>
const char mc_property[] = "C39";
/* the ranges of keys the General MIDI guidelines recommend for the instruments (drums and effects: those of a common keyboard) */
static const u8 LO[128] = { 21,21,21,21,28,28,41,36, 60,72,60,53,48,65,60,60, 36,36,36,21,36,53,60,53, 40,40,40,40,40,40,40,40, 28,28,28,28,28,28,28,28, 55,48,36,28,28,28,23,36, 28,28,36,36,48,48,48,48, 58,34,29,58,41,36,36,36, 54,49,42,37,58,52,34,50, 74,60,60,60,60,55,60,60, 21,21,36,36,36,36,36,36, 36,36,36,36,36,36,36,36, 36,36,36,36,36,36,36,36, 48,48,50,55,48,36,55,48, 72,60,52,60,48,36,36,36, 36,36,36,36,36,36,36,36 };
static const u8 HI[128] = { 108,108,108,108,103,103,89,96, 108,108,84,89,84,96,77,84, 96,96,96,108,96,89,84,89, 84,84,86,86,86,86,86,86, 55,55,55,55,55,55,55,55, 96,84,72,55,93,93,103,57, 96,96,96,96,79,79,84,72, 94,75,55,82,77,96,96,96, 87,80,75,68,91,81,64,91, 108,96,96,96,96,84,96,84, 108,108,96,96,96,96,96,96, 96,96,96,96,96,96,96,96, 96,96,96,96,96,96,96,96, 77,84,79,84,79,77,96,72, 84,72,76,72,72,84,84,84, 84,84,84,84,84,84,84,84 };
static EAS_HANDLE H; static float *X; static int NX; enum { XMAX = 30000 };
static void open_(void) { sut_init(); sut_dry(); H = sut_midi(); }
static int frame_(void) { sut_render(); int m = 0; for (int i = 0; i < FRAME; i++) { int a = PCM[2 * i], b = PCM[2 * i + 1]; if (NX < XMAX) X[NX++] = (float)(a + b); if (abs(a) > m) m = abs(a); if (abs(b) > m) m = abs(b); } return m; }
static int pitched(int p) { return p != 14 && p != 47 && p != 55 && p != 86 && p < 112; }
static int held(int p) { return (p >= 16 && p <= 23) || p == 29 || p == 30 || (p >= 40 && p <= 44) || (p >= 48 && p <= 54) || (p >= 56 && p <= 91 && p != 88) || (p >= 109 && p <= 111); }
static int struck(int p) { return p <= 15 || (p >= 24 && p <= 28) || (p >= 31 && p <= 39) || (p >= 45 && p <= 47) || p == 55 || (p >= 104 && p <= 108) || (p >= 112 && p <= 115) || (p >= 117 && p <= 121) || p == 127; }
/* ---- every key of its range sounds at once ---- */
static int sounds(int p, int k) { open_(); if (p >= 0) sut_w2(H, 0xc0, p); sut_w3(H, p < 0 ? 0x99 : 0x90, k, 100); NX = XMAX; int m = 0; for (int f = 0; f < 90 && m <= 1000; f++) { int a = frame_(); if (a > m) m = a; } EAS_RESULT r = EAS_CloseMIDIStream(E, H); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "%ld", (long)r); E = NULL; return m > 1000; }
static void run_range(u64 i) {
    int p = (int)i, a = -1, b = -1, n = 0; for (int k = LO[p]; k <= HI[p]; k++) if (!sounds(p, k)) { if (a < 0) a = k; b = k; n++; }
    if (n) { char key[40]; snprintf(key, sizeof key, n == b - a + 1 ? "silent-%d-%d-%d" : "silent-%d-%d-%d-in-part", p, a, b); mc_fail(key, "%d keys of program %d, from %d to %d, make no sound", n, p, a, b); }
}
static void d_range(u64 i, char *o, size_t n) { snprintf(o, n, "program %d, keys %d to %d", (int)i, LO[i], HI[i]); }
/* ---- one note: pitch, level while held, end ---- */
static double corr(int o, int lag, int w) { double a = 0, b = 0, c = 0; for (int i = o; i < o + w; i++) { double x = X[i], y = X[i + lag]; a += x * x; b += y * y; c += x * y; } return a > 0 && b > 0 ? c / sqrt(a * b) : 0; }
/* how far it is from the pitch of the key, in cents, over an even number of periods (some patches sound an octave below, too); r: how periodic */
static double cents(int key, int o, double *r) {
    double rate = 44100. / 256 * FRAME, T = rate / (440 * pow(2, (key - 69) / 12.)); int m = (int)(rate / 98 / T); if (m > 12) m = 12; if (T < 12 && m > 6) m = 6; m &= ~1; if (m < 2) m = 2;
    double L = m * T, e = L * .047 < T * .4 ? L * .047 : T * .4; int lo = (int)ceil(L - e - .2), hi = (int)floor(L + e + .2), bl = lo; double best = -2; static double v[2000]; MC_CHECK(hi - lo < 2000 && o + 3000 + hi < NX, "harness", "window");
    for (int l = lo; l <= hi; l++) { v[l - lo] = corr(o, l, 3000); if (v[l - lo] > best) { best = v[l - lo]; bl = l; } }
    double at = bl; if (bl > lo && bl < hi) { double a = v[bl - 1 - lo], b = v[bl - lo], c = v[bl + 1 - lo], d = a - 2 * b + c; if (d < 0) at = bl + .5 * (a - c) / d; } *r = best; return -1200 * log2(at / L);
}
static void end_(const char *what) { int f, q = 0; for (f = 0; f < 1200 && q < 12; f++) { sut_render(); q = pcm_silent() ? q + 1 : 0; } MC_CHECK(q == 12, "endless", "%s still sounds %d frames after it was released", what, f); EAS_I32 v; (void)v; }
static int KEYS(int p) { return HI[p] - LO[p] + 1; }
static int total; static void nth(u64 i, int *p, int *k) { int q = (int)i; for (*p = 0; q >= KEYS(*p); (*p)++) q -= KEYS(*p); *k = LO[*p] + q; }
enum { HOLD = 500 };
static double energy(void) { double e = 0; for (int i = 0; i < 20 * FRAME && i < NX; i++) e += X[i] * X[i]; return 10 * log10(e + 1); }
static void run_note(u64 i) {
    int p, k; nth(i, &p, &k); if (!sounds(p, k)) mc_skip();             /* judged above */
    char w[60]; snprintf(w, sizeof w, "program %d, key %d", p, k); open_(); sut_w3(H, 0xb0, 7, 64); sut_w2(H, 0xc0, p); sut_w3(H, 0x90, k, 100); NX = 0; int peak = 0, late = 0;
    for (int f = 0; f < HOLD; f++) { int m = frame_(); if (m > peak) peak = m; if (f >= HOLD - 30 && m > late) late = m; }
    if (pitched(p)) { double rmin = FRAME < 256 ? .2 : .48, r1, r2, c1 = cents(k, 1323, &r1), c2 = cents(k, 22050 * FRAME / 256, &r2); MC_CHECK((fabs(c1) <= 32 && r1 >= rmin) || (fabs(c2) <= 32 && r2 >= rmin), "pitch", "%s is out of tune: %.0f cents (%.2f), later %.0f cents (%.2f)", w, c1, r1, c2, r2); }
    if (held(p)) MC_CHECK(late >= peak * .14, "sustain", "%s, held for three seconds, fell from %d to %d", w, peak, late);
    if (struck(p)) MC_CHECK(late <= peak * .3, "decay", "%s, held for three seconds, only fell from %d to %d", w, peak, late);
    sut_w3(H, 0x80, k, 0); end_(w);
    if (k < HI[p] && p != 123) {
        double e0 = energy(), e1; if (!sounds(p, k + 1)) return; open_(); sut_w3(H, 0xb0, 7, 64); sut_w2(H, 0xc0, p); sut_w3(H, 0x90, k + 1, 100); NX = 0; for (int f = 0; f < 20; f++) frame_(); e1 = energy();
        MC_CHECK(fabs(e0 - e1) <= 8, "uneven", "%s is %.1f dB louder than the next key", w, e0 - e1);
    }
}
static void d_note(u64 i, char *o, size_t n) { int p, k; nth(i, &p, &k); snprintf(o, n, "program %d, key %d", p, k); }
/* ---- the same instrument on every channel, after every usual way to select it ---- */
enum { NCH = 15, NWAY = 5 };
static u64 listen(int p, int ch, int way, int k) {
    open_(); static const u8 gm[] = { 0xf0, 0x7e, 0x7f, 9, 1, 0xf7 }; if (way == 1 || way == 4) sut_write(H, gm, 6);
    if (way == 2) { sut_w3(H, 0xb0 | ch, 0, 0); sut_w3(H, 0xb0 | ch, 32, 0); } if (way == 3) { sut_w3(H, 0xb0 | ch, 0, 121); sut_w3(H, 0xb0 | ch, 32, 0); } if (way == 4) sut_w2(H, 0xc0 | ch, 127 - p);
    sut_w2(H, 0xc0 | ch, p); sut_w3(H, 0x90 | ch, k, 90); u64 h = 0; for (int f = 0; f < 10; f++) h = sut_render_hash(h); sut_w3(H, 0x80 | ch, k, 0); for (int f = 0; f < 4; f++) h = sut_render_hash(h);
    EAS_RESULT r = EAS_CloseMIDIStream(E, H); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "%ld", (long)r); E = NULL; return h;
}
static void run_chan(u64 i) { int c = (int)(i % NCH), way, p; i /= NCH; way = (int)(i % NWAY); p = (int)(i / NWAY); int ch = c < 9 ? c : c + 1, k = (LO[p] + HI[p]) / 2; u64 a = listen(p, 0, 0, k), b = listen(p, ch, way, k); MC_CHECK(a == b, "channel", "program %d sounds differently on channel %d, selected in way %d", p, ch + 1, way); }
static void d_chan(u64 i, char *o, size_t n) { int c = (int)(i % NCH); i /= NCH; snprintf(o, n, "program %d on channel %d, way %d", (int)(i / NWAY), (c < 9 ? c : c + 1) + 1, (int)(i % NWAY)); }
/* ---- harder is louder ---- */
static void run_vel(u64 i) {
    int p = (int)(i / 3), k = LO[p] + (HI[p] - LO[p]) * (1 + (int)(i % 3)) / 4; double last = 0; if (!sounds(p, k)) mc_skip();
    for (int v = 1; v <= 127; v += 9) { open_(); sut_w3(H, 0xb0, 7, 64); sut_w2(H, 0xc0, p); sut_w3(H, 0x90, k, v); NX = 0; for (int f = 0; f < 8; f++) frame_(); double e = energy(); MC_CHECK(e >= last - .3, "velocity", "program %d, key %d: velocity %d is softer (%.1f dB) than %d (%.1f dB)", p, k, v, e, v - 9, last); last = e; MC_CHECK(v < 100 || e > 40, "velocity", "silent at velocity %d", v); EAS_RESULT r = EAS_CloseMIDIStream(E, H); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "%ld", (long)r); E = NULL; }
}
static void d_vel(u64 i, char *o, size_t n) { snprintf(o, n, "program %d, velocities 1 to 127, place %d", (int)(i / 3), (int)(i % 3)); }
/* ---- the drums: each key of the General MIDI map sounds and ends, whatever program is chosen for its channel ---- */
static void run_drum(u64 i) {
    int k = 35 + (int)(i % 47), p = (int)(i / 47) - 1; char w[60]; snprintf(w, sizeof w, "drum %d, program %d", k, p); open_(); sut_w3(H, 0xb9, 7, 64); if (p >= 0) sut_w2(H, 0xc9, p); sut_w3(H, 0x99, k, 100); NX = 0; int peak = 0;
    for (int f = 0; f < 6; f++) { int m = frame_(); if (m > peak) peak = m; } MC_CHECK(peak > 300, "drum", "%s makes no sound", w);
    if (p < 0) { int late = 0; for (int f = 0; f < 900; f++) { int m = frame_(); if (f >= 870 && m > late) late = m; } MC_CHECK(late <= peak * .1, "ring", "%s, held for five seconds, only fell from %d to %d", w, peak, late); }
    sut_w3(H, 0x89, k, 0); end_(w);
}
static void d_drum(u64 i, char *o, size_t n) { snprintf(o, n, "drum %d, program %d", 35 + (int)(i % 47), (int)(i / 47) - 1); }
void mc_body(void) {
    X = mc_big(XMAX * sizeof *X); for (int p = 0; p < 128; p++) total += KEYS(p);
    mc_bound("keys: the recommended range of each program, 35 to 81 for drums");
    mc_space a = { .name = "range", .n = 128, .run = run_range, .describe = d_range, .cpu_limit = 60 }; mc_enumerate(&a);
    mc_space b = { .name = "notes", .n = (u64)total, .run = run_note, .describe = d_note, .cpu_limit = 60 }; mc_enumerate(&b);
    mc_space c = { .name = "channels", .n = 128 * NWAY * NCH, .run = run_chan, .describe = d_chan, .cpu_limit = 60 }; mc_enumerate(&c);
    mc_space v = { .name = "velocity", .n = 128 * 3, .run = run_vel, .describe = d_vel, .cpu_limit = 60 }; mc_enumerate(&v);
    mc_space d = { .name = "drums", .n = 47 * 129, .run = run_drum, .describe = d_drum, .cpu_limit = 60 }; mc_enumerate(&d);
}
