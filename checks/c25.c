/* C25: pitch.  Waves with a step at a known sample: when the step is heard tells how fast the wave was read. */
#include "sut.h"
#include <math.h>
const char mc_property[] = "C25";
static const d_conn ART[] = { { 0, 0, 0x206, 0, (int)0x80000000 }, { 0, 0, 0x209, 0, (int)0x80000000 }, { 0, 0, 0x20a, 0, 1000 << 16 }, { 0, 0, 0x20d, 0, (int)0x80000000 }, { 2, 0, 1, 0, 0 }, { 0, 0, 3, 0, 0 } };
static d_conn artt[6]; 
static EAS_HANDLE H, F; static EAS_FILE ff; static mc_file fm; static bytes bank, quiet;
#define NP 5
static const int P[NP] = { 375, 1500, 6000, 24000, 96000 };
static short *W[NP];
static void mkbank(bytes *o, const d_conn *art, int nart, int unity, int fine, int rate, int only) {
    static d_wave w[NP]; static d_rgn r[NP]; static d_ins in[2 * NP]; int n = 0;
    for (int i = 0; i < NP; i++) if (only < 0 || only == i) { w[n] = (d_wave){ 16, rate, W[i], (P[i] + 600) * 2, { 1, unity, fine, 0, 0, 0, 0 } }; r[n] = (d_rgn){ .khi = 127, .vhi = 127, .wave = n }; n++; }
    for (int i = 0; i < 2 * n; i++) in[i] = (d_ins){ .bank = i < n ? 0 : 0x80000000, .prog = i % n, .r = &r[i % n], .nr = 1, .art = art, .nart = nart };
    dls_build(o, in, 2 * n, w, n);
}
static int pick(double cents) { double inc = pow(2, cents / 1200); int i = 0; while (i < NP - 1 && P[i] < 3000 * inc) i++; return i; }
static void w3(int ch, int a, int b, int c) { sut_w3(H, a | ch, b, c); }
static void rpn(int ch, int l, int v) { w3(ch, 0xb0, 101, 0); w3(ch, 0xb0, 100, l); w3(ch, 0xb0, 6, v); }
/* output sample at which the step is heard */
static double step_at(int from) { for (int f = 0; f < 900; f++) { sut_render(); for (int k = 0; k < FRAME; k++) if (PCM[2 * k] > 3000) return from + f * FRAME + k; } return -1; }
static void judge(int p, double cents, const char *what) {
    double t = step_at(0), inc = P[p] / t, c = 1200 * log2(inc), lo = 1200 * log2((P[p] - 1.5) / (t + 1)), hi = 1200 * log2(P[p] / (t - 1));
    if (t < 0) mc_fail("no-sound", "%s: the note is never heard", what);
    if (cents < lo - 3.5 || cents > hi + 3.5) mc_fail("pitch", "%s: %.1f cents (wave read %.5f times as fast as recorded), expected %.1f", what, c, inc, cents);
}
static void begin(int ch, double cents, int p) { (void)cents; w3(ch, 0xb0, 0, ch == 9 ? 0x78 : 0x79); sut_w2(H, 0xc0 | ch, p); w3(ch, 0xb0, 7, 70); w3(ch, 0xb0, 10, 0); }
static void keys(u64 i) { int key = (int)(i % 128), ch = i / 128 ? 9 : 0; double c = 100 * (key - 60); int p = pick(c); begin(ch, c, p); w3(ch, 0x90, key, 100); judge(p, c, "key"); }
static void keys_describe(u64 i, char *o, size_t nz) { int n = (int)nz; snprintf(o, n, "key %d on channel %d", (int)(i % 128), i / 128 ? 10 : 1); }
static int bend_of(u64 i) { int b = (int)(i % 128) << 7 | (i / 128 % 2 ? 127 : 0); return b; }
static void bends(u64 i) {
    int range = (int)(i / 256), b = bend_of(i); double c = (b - 8192) / 8192.0 * range * 100; int p = pick(c);
    begin(0, c, p); w3(1, 0xe0, 0, 0); rpn(0, 0, range); w3(0, 0xe0, b & 127, b >> 7); w3(0, 0x90, 60, 100); judge(p, c, "bend");
}
static void bends_describe(u64 i, char *o, size_t nz) { int n = (int)nz; snprintf(o, n, "bend %d, range %d", bend_of(i), (int)(i / 256)); }
static void tunes(u64 i) {
    int fine = (int)(i % 128), coarse = 64 + ((int)(i / 128) - 3) * 8, ch = 0; double c = (fine - 64) * 100 / 64.0 + (coarse - 64) * 100; int p = pick(c);
    begin(ch, c, p); rpn(ch, 1, fine); rpn(ch, 2, coarse); rpn(1, 1, 0); rpn(1, 2, 70); w3(ch, 0x90, 60, 100); judge(p, c, "tuning");
}
static void tunes_describe(u64 i, char *o, size_t nz) { int n = (int)nz; snprintf(o, n, "fine tune %d, coarse tune %d", (int)(i % 128), 64 + ((int)(i / 128) - 3) * 8); }
/* waves recorded at other pitches and rates */
static const int RATES[] = { 8000, 11025, 16000, 22050, 32000, 44100, 48000 }, FINE[] = { 0, -50, 50, -99, 99, 7 }, OFS[] = { 0, -12, 7, 24 };
static void waves(u64 i) {
    int rate = RATES[i % 7], fine = FINE[i / 7 % 6], ofs = OFS[i / 42 % 4], unity = (int)(i / 168), key = unity + ofs; if (key < 0 || key > 127) mc_skip();
    double c = 1200 * log2(rate / 44100.0) + fine + 100 * ofs; int p = pick(c);
    bytes b = { 0 }; mkbank(&b, artt, 6, unity, fine, rate, p); EAS_CloseMIDIStream(E, H); sut_dls(NULL, &b); H = sut_midi(); begin(0, c, 0); w3(0, 0x90, key, 100); judge(p, c, "wave"); by_free(&b);
}
static void waves_describe(u64 i, char *o, size_t nz) { int n = (int)nz; snprintf(o, n, "wave of %d Hz, unity key %d, fine tune %d; key %d", RATES[i % 7], (int)(i / 168), FINE[i / 7 % 6], (int)(i / 168) + OFS[i / 42 % 4]); }
/* everything together */
static const int B3[] = { 8192, 0, 12288 }, R3[] = { 2, 12, 0 }, F3[] = { 64, 0, 127 }, C3[] = { 64, 60, 76 }, T3[] = { 0, -12, 5 }, K3[] = { 60, 30, 84 }, U3[] = { 0, 150 };
static void mix(u64 i) {
    int b = B3[i % 3], r = R3[i / 3 % 3], f = F3[i / 9 % 3], co = C3[i / 27 % 3], t = T3[i / 81 % 3], k = K3[i / 243 % 3], u = U3[i / 729 % 2], ch = i / 1458 ? 9 : 0;
    double c = (b - 8192) / 8192.0 * r * 100 + 100 * (k - 60) + u; if (ch == 0) c += (f - 64) * 100 / 64.0 + (co - 64) * 100 + t * 100;
    int p = pick(c);
    if (u) { bytes z = { 0 }; artt[5].scale = u << 16; mkbank(&z, artt, 6, 60, 0, 44100, p); EAS_CloseMIDIStream(E, H); EAS_CloseFile(E, F); sut_dls(NULL, &z); F = sut_open(sut_file(&ff, &fm, quiet.b, quiet.n)); EAS_RESULT q = EAS_OpenMIDIStream(E, &H, F); MC_CHECK(q == EAS_SUCCESS, "open", "%ld", (long)q); by_free(&z); }
    MC_CHECK(EAS_SetTransposition(E, F, t) == EAS_SUCCESS, "transpose", "refused");
    begin(ch, c, u ? 0 : p); rpn(ch, 0, r); rpn(ch, 1, f); rpn(ch, 2, co); w3(ch, 0xe0, b & 127, b >> 7); w3(ch, 0x90, k, 100); judge(p, c, "mix");
}
static void mix_describe(u64 i, char *o, size_t nz) { int n = (int)nz; snprintf(o, n, "channel %d, bend %d, range %d, fine %d, coarse %d, transposition %d, key %d, instrument tuning %d", i / 1458 ? 10 : 1, B3[i % 3], R3[i / 3 % 3], F3[i / 9 % 3], C3[i / 27 % 3], T3[i / 81 % 3], K3[i / 243 % 3], U3[i / 729 % 2]); }
static void transp(u64 i) {
    int t = (int)(i % 25) - 12, ch = i / 25 % 2 ? 9 : 0, late = (int)(i / 50), p = pick(ch ? 0 : t * 100);
    if (!late) MC_CHECK(EAS_SetTransposition(E, F, t) == EAS_SUCCESS, "transpose", "transposition by %d refused", t);
    begin(ch, 0, p); w3(ch, 0x90, 60, 100);
    if (late) MC_CHECK(EAS_SetTransposition(E, F, t) == EAS_SUCCESS, "transpose", "transposition by %d refused", t);
    judge(p, ch ? 0 : 100 * t, "transposition");
}
static void transp_describe(u64 i, char *o, size_t nz) { int n = (int)nz; snprintf(o, n, "transposition by %d set %s the note, channel %d", (int)(i % 25) - 12, i / 50 ? "after" : "before", i / 25 % 2 ? 10 : 1); }
/* ---- a note bent while it sounds: the step comes when the speeds add up ---- */
static struct { int bend, range, fine, coarse, tr, sel; double pos; int rendered; } M;
typedef struct { int k, v; const char *name; } hop;
static const hop OPS[] = { { 0, 0, "bend down" }, { 0, 16383, "bend up" }, { 0, 8192, "bend centre" }, { 1, 0, "select bend range" }, { 1, 1, "select fine tune" }, { 1, 2, "select coarse tune" }, { 2, 0, "data 0" }, { 2, 12, "data 12" }, { 2, 70, "data 70" }, { 3, -12, "transpose -12" }, { 3, 0, "transpose 0" }, { 4, 1, "render" }, { 4, 5, "render 5" }, { 5, 0, "reset controllers" }, { 6, 0, "other channel: bend down" }, { 7, 0, "drum channel: coarse tune" } };
static const char *hname(int o) { return OPS[o].name; }
static double speed(void) { return pow(2, ((M.bend - 8192) / 8192.0 * M.range + (M.fine - 64) / 64.0 + M.coarse - 64 + M.tr) / 12); }
static void happly(int o) {
    const hop *p = &OPS[o];
    switch (p->k) {
    case 0: M.bend = p->v; w3(0, 0xe0, p->v & 127, p->v >> 7); break;
    case 1: M.sel = p->v; w3(0, 0xb0, 101, 0); w3(0, 0xb0, 100, p->v); break;
    case 2: if (M.sel == 0) M.range = p->v; if (M.sel == 1) M.fine = p->v; if (M.sel == 2) { M.coarse = p->v; } w3(0, 0xb0, 6, p->v); break;
    case 3: M.tr = p->v; MC_CHECK(EAS_SetTransposition(E, F, p->v) == EAS_SUCCESS, "transpose", "refused"); break;
    case 4: for (int k = 0; k < p->v; k++) { sut_render(); M.pos += FRAME * speed(); M.rendered++; } break;
    case 5: w3(0, 0xb0, 121, 0); M.bend = 8192; M.range = 2; M.fine = M.coarse = 64; M.sel = -1; break;
    case 6: w3(1, 0xe0, 0, 0); break;
    default: rpn(9, 2, 40);
    }
}
static int henabled(int o, int at) { (void)at; if (OPS[o].k == 4) return M.pos + 6 * FRAME * speed() < 22000; if (OPS[o].k == 2) return !(M.sel == 2 && OPS[o].v != 70); return 1; }
static void hleaf(void) {
    double left = P[3] - M.pos, e = left / speed(), t;
    if (e < 60 || e > 200000) return;
    t = step_at(0); double tol = 2 + e * 0.003 + M.rendered * 1.2 / speed() * 1;
    if (t < 0 || fabs(t - e) > tol) mc_fail("bend-history", "the step comes %.0f samples later, expected %.0f: bend %d, range %d, fine %d, coarse %d, transposition %d", t, e, M.bend, M.range, M.fine, M.coarse, M.tr);
}
static void hsetup(void) { memset(&M, 0, sizeof M); M.bend = 8192; M.range = 2; M.fine = M.coarse = 64; M.sel = -1; begin(0, 0, 3); w3(0, 0x90, 60, 100); }
/* ---- built-in instruments: equal settings sound equal ---- */
static void equal(u64 i) {
    int prog = (int)(i % 128), how = (int)(i / 128 % 7), key = 48 + (int)(i / 128 / 7) * 12; u64 *h = mc_big(2 * sizeof *h);
    mc_snap *s = mc_save(NULL);
    for (int v = 0; v < 2; v++) {
        int k = key; sut_w2(H, 0xc0, prog);
        switch (how) {
        case 0: if (v) { rpn(0, 0, 4); w3(0, 0xe0, 0, 64 + 16); } else w3(0, 0xe0, 0, 64 + 32); break;
        case 1: if (v) rpn(0, 1, 96); else w3(0, 0xe0, 0, 64 + 16); break;
        case 2: if (v) rpn(0, 2, 66); else k += 2; break;
        case 3: if (v) EAS_SetTransposition(E, F, -7); else k -= 7; break;
        case 4: if (v) { rpn(0, 0, 24); } break;
        case 5: if (v) { rpn(0, 2, 60); EAS_SetTransposition(E, F, 4); } break;
        default: if (v) { rpn(0, 1, 32); w3(0, 0xe0, 0, 64 + 16); } break;
        }
        w3(0, 0x90, k, 100); u64 x = 1; for (int f = 0; f < 12; f++) x = sut_render_hash(x);
        h[v] = x; mc_restore(s);
    }
    u64 a = h[0], b = h[1]; mc_snap_free(s);
    if (a != b) mc_fail("equal", "the two do not sound alike");
}
static void equal_describe(u64 i, char *o, size_t nz) { int n = (int)nz; static const char *W[] = { "half bend of range 2, quarter bend of range 4", "quarter bend of range 2, fine tune +50 cents", "two keys up, coarse tune +2", "seven keys down, transposition -7", "no bend, no bend of range 24", "plain, coarse tune -4 and transposition +4", "plain, fine tune -50 cents and quarter bend" }; snprintf(o, n, "built-in program %d, key %d: %s", (int)(i % 128), 48 + (int)(i / 128 / 7) * 12, W[i / 128 % 7]); }
void mc_body(void) {
    memcpy(artt, ART, sizeof artt);
    for (int i = 0; i < NP; i++) { W[i] = calloc((size_t)P[i] + 600, 2); for (int k = P[i]; k < P[i] + 600; k++) W[i][k] = 16000; }
    mkbank(&bank, ART, 6, 60, 0, 44100, -1);
    smf_head(&quiet, 0, 1, 96); int m = smf_trk(&quiet); smf_eot(&quiet, 1000000); smf_endtrk(&quiet, m);
    sut_init(); sut_dry(); F = sut_open(sut_file(&ff, &fm, quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H, F); MC_CHECK(H != NULL, "open", "no stream");
    mc_space e = { .name = "equal settings", .n = 128 * 7 * (mc_thorough ? 4 : 2), .run = equal, .describe = equal_describe }; mc_enumerate(&e);
    EAS_CloseMIDIStream(E, H); EAS_CloseFile(E, F);
    sut_dls(NULL, &bank); F = sut_open(sut_file(&ff, &fm, quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H, F);
    int d = mc_thorough ? 7 : 5, nr = mc_thorough ? 25 : 13;
    mc_bound("all keys; all 128 bend MSBs with LSB 0 and 127 at ranges 0 to %d; all fine tunings at 7 coarse ones; all transpositions; waves of 7 rates, 6 fine tunings, all unity keys at 4 intervals; 2916 combinations of bend, range, tunings, transposition, key, instrument tuning and channel kind; every sequence of 16 changes and renders up to depth %d during one note; 7 pairs of equal settings on all 128 built-in programs", nr - 1, d);
    mc_space a = { .name = "keys", .n = 256, .run = keys, .describe = keys_describe }; mc_enumerate(&a);
    mc_space t = { .name = "transposition", .n = 100, .run = transp, .describe = transp_describe }; mc_enumerate(&t);
    mc_space b = { .name = "bends", .n = 256 * (u64)nr, .run = bends, .describe = bends_describe }; mc_enumerate(&b);
    mc_space c = { .name = "tunings", .n = 128 * 7, .run = tunes, .describe = tunes_describe }; mc_enumerate(&c);
    mc_space x = { .name = "mix", .n = 2916, .run = mix, .describe = mix_describe }; mc_enumerate(&x);
    mc_space w = { .name = "waves", .n = 168 * 128, .run = waves, .describe = waves_describe }; mc_enumerate(&w);
    mc_model h = { .name = "during a note", .nops = 16, .depth = d, .setup = hsetup, .enabled = henabled, .apply = happly, .leaf = hleaf, .opname = hname, .dedupe = 1 }; mc_explore(&h);
}
