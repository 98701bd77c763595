/* C24: a DLS collection sounds as it is written: region selection, banks, gains, waves and loops, key groups. */
#include "sut.h"
#include <math.h>
const char mc_property[] = "C24";
#define NOVEL { 2, 0, 1, 0, 0 }     /* velocity does not act on the gain */
static const d_conn ART[] = { { 0, 0, 0x206, 0, (int)0x80000000 }, { 0, 0, 0x209, 0, (int)0x80000000 }, { 0, 0, 0x20a, 0, 1000 << 16 }, { 0, 0, 0x20d, 0, (int)0x80000000 }, NOVEL };
#define NART 5
static EAS_HANDLE H; static bytes bank;
/* output of a wave of constant value v at centre, everything else at its default; measured once */
static double K; 
static EAS_HANDLE vol(EAS_HANDLE h) { sut_w3(h, 0xb0, 7, 70); sut_w3(h, 0xb9, 7, 70); return h; }
static EAS_HANDLE midi(void) { return vol(sut_midi()); }
static double expect(double v) { return v * K; }
static void start(void) { sut_init(); sut_dry(); if (bank.n) sut_dls(NULL, &bank); H = midi(); }
/* ---- regions ---- */
typedef struct { int klo, khi, vlo, vhi, level; } rg;
static const rg R[] = { { 0, 40, 0, 127, 256 }, { 41, 72, 0, 63, 512 }, { 41, 72, 64, 127, 1024 }, { 60, 60, 0, 127, 2048 }, { 60, 80, 100, 127, 4096 }, { 81, 81, 1, 1, 8192 }, { 90, 127, 0, 126, 256 }, { 127, 127, 127, 127, 512 } };
static const rg R2[] = { { 0, 127, 10, 20, 300 }, { 64, 64, 0, 127, 3000 } };
#define NR ((int)(sizeof R / sizeof *R))
static void regions_bank(void) {
    static short s[NR + 2][66]; static d_wave w[NR + 2]; static d_rgn r[NR + 2]; static d_ins in[2];
    for (int i = 0; i < NR + 2; i++) {
        const rg *g = i < NR ? &R[i] : &R2[i - NR]; for (int k = 0; k < 66; k++) s[i][k] = (short)g->level;
        w[i] = (d_wave){ 16, 44100, s[i], 132, { 1, 60, 0, 0, 1, 32, 32 } };
        r[i] = (d_rgn){ .klo = g->klo, .khi = g->khi, .vlo = g->vlo, .vhi = g->vhi, .wave = i, .rgn2 = i & 1, .opts = 1 };
    }
    in[0] = (d_ins){ .bank = 0, .prog = 3, .r = r, .nr = NR, .art = ART, .nart = NART }; in[1] = (d_ins){ .bank = 0x80000000, .prog = 0, .r = r + NR, .nr = 2, .art = ART, .nart = NART };
    dls_build(&bank, in, 2, w, NR + 2);
}
static void region(u64 i) {
    int drum = (int)(i / (128 * 127)), key = (int)(i / 127 % 128), vel = (int)(i % 127) + 1; double e = 0;
    start();
    if (!drum) sut_w2(H, 0xc0, 3);
    for (int k = 0; k < (drum ? 2 : NR); k++) { const rg *g = drum ? &R2[k] : &R[k]; if (key >= g->klo && key <= g->khi && vel >= g->vlo && vel <= g->vhi) e += g->level; }
    sut_w3(H, drum ? 0x99 : 0x90, key, vel); sut_render(); sut_render();
    if (fabs(sut_last(0) - expect(e)) > 8 || sut_last(0) != sut_last(1)) mc_fail("region", "level %d, the regions of key %d at velocity %d add up to %.0f", sut_last(0), key, vel, expect(e));
    sut_w3(H, drum ? 0x89 : 0x80, key, 0); for (int k = 0; k < 4; k++) sut_render();
    MC_CHECK(pcm_silent(), "release", "still sounding after its note-off");
}
static void region_describe(u64 i, char *o, size_t nz) { int n = (int)nz; snprintf(o, n, "%s, key %d, velocity %d", i / (128 * 127) ? "drums" : "melody", (int)(i / 127 % 128), (int)(i % 127) + 1); }
/* ---- banks ---- */
static const struct { u32 bank, prog; int level; } I[] = { { 0, 5, 300 }, { 0x7900, 5, 600 }, { 0x100, 5, 1200 }, { 0x7901, 5, 2400 }, { 1, 5, 4800 }, { 0x80000000, 5, 700 }, { 0x80000000 | 0x7800, 5, 1400 }, { 0x80000000 | 1, 5, 2800 }, { 0x80000000, 0, 5600 }, { 0, 127, 900 } };
#define NI ((int)(sizeof I / sizeof *I))
static const u8 MSB[] = { 0, 1, 0x78, 0x79, 2 }, LSB[] = { 0, 1, 5 }, PRG[] = { 5, 0, 127, 6 };
static int present(int set, u32 bk, u32 prog) { for (int k = 0; k < NI; k++) if ((set >> k & 1) && I[k].bank == bk && I[k].prog == prog) return I[k].level; return 0; }
static void banks(u64 i) {
    int set = (int)(i % (1 << NI)); if (!set) return;
    static bytes b[2]; static short s[NI][66]; static d_wave w[NI]; static d_rgn r[NI]; static d_ins in[NI]; int n = 0, ch = (int)(i >> NI) ? 9 : 0;
    for (int k = 0; k < NI; k++) if (set >> k & 1) {
        for (int j = 0; j < 66; j++) s[n][j] = (short)I[k].level;
        w[n] = (d_wave){ 16, 44100, s[n], 132, { 1, 60, 0, 0, 1, 32, 32 } }; r[n] = (d_rgn){ .khi = 127, .vhi = 127, .wave = n }; in[n] = (d_ins){ .bank = I[k].bank, .prog = I[k].prog, .r = &r[n], .nr = 1, .art = ART, .nart = NART }; n++;
    }
    dls_build(&b[0], in, n, w, n);
    sut_init(); sut_dry(); sut_dls(NULL, &b[0]); H = midi();
    for (int m = 0; m < 5; m++) for (int l = 0; l < 3; l++) for (int p = 0; p < 4; p++) {
        u32 d = ch == 9 ? 0x80000000 : 0; u32 msb = MSB[m], bk; int e;
        sut_w3(H, 0xb0 | ch, 0, d ? 0x78 : 0x79); sut_w2(H, 0xc0 | ch, 0);     /* the kind of channel */
        if (msb == 0x78 || msb == 0x79) d = msb == 0x78 ? 0x80000000 : 0;
        bk = msb << 8 | LSB[l];
        /* the instrument of that bank; the bank without the GM2 marker; then the default bank of that kind, for drums the default kit */
        e = present(set, d | bk, PRG[p]);
        if (!e && (msb == 0x78 || msb == 0x79)) e = present(set, d | LSB[l], PRG[p]);
        if (!e) e = present(set, d | (d ? 0x7800 : 0x7900), PRG[p]);
        if (!e) e = present(set, d, PRG[p]);
        if (!e && d) { e = present(set, d | 0x7800, 0); if (!e) e = present(set, d, 0); }
        sut_w3(H, 0xb0 | ch, 0, (int)msb); sut_w3(H, 0xb0 | ch, 32, LSB[l]); sut_w2(H, 0xc0 | ch, PRG[p]);
        sut_w3(H, 0x90 | ch, 60, 100); sut_render(); sut_render();
        if (e && fabs(sut_last(0) - expect(e)) > 4 + expect(e) * 0.02) mc_fail("bank", "bank %d/%d, program %d: level %d, expected %.0f", (int)msb, LSB[l], PRG[p], sut_last(0), expect(e));
        if (!e) { int flat = 1; for (int k = 2; k < FRAME * 2; k++) flat &= PCM[k] == PCM[k - 2]; if (flat) mc_fail("bank-builtin", "bank %d/%d, program %d: no instrument of the collection fits, but the built-in one does not sound", (int)msb, LSB[l], PRG[p]); }
        sut_w3(H, 0xb0 | ch, 120, 0); for (int k = 0; k < 3; k++) sut_render();
    }
}
static void banks_describe(u64 i, char *o, size_t nz) { int n = (int)nz; int at = snprintf(o, n, "%s channel, instruments", i >> NI ? "drum" : "melody"); for (int k = 0; k < NI; k++) if (i >> k & 1) at += snprintf(o + at, n - at, " %08x/%d", I[k].bank, (int)I[k].prog); }
/* ---- gain ---- */
static void gain(u64 i) {
    int where = (int)(i % 3), step = (int)(i / 3);      /* tenths of dB */
    static short s[66]; for (int j = 0; j < 66; j++) s[j] = 30000;
    int g = -(step - 20) * 65536;      /* up to +2 dB: positive gains count as 0 */
    if (step - 20 < 0) g = (20 - step) * 65536;
    d_wave w = { 16, 44100, s, 132, { 1, 60, 0, where != 1 ? g : 0, 1, 32, 32 } }; d_rgn r = { .khi = 127, .vhi = 127 };
    if (where == 1) r.w = (d_wsmp){ 1, 60, 0, g, 1, 32, 32 };
    if (where == 2) r.w = (d_wsmp){ 1, 60, 0, -100 * 65536, 1, 32, 32 };       /* the region's replaces the wave's */
    d_ins in = { .bank = 0, .prog = 3, .r = &r, .nr = 1, .art = ART, .nart = NART };
    bytes b = { 0 }; dls_build(&b, &in, 1, &w, 1);
    sut_init(); sut_dry(); sut_dls(NULL, &b); H = midi(); sut_w2(H, 0xc0, 3); sut_w3(H, 0x90, 60, 127); sut_render(); sut_render();
    double dB = where == 2 ? -10 : step < 20 ? 0 : -(step - 20) / 10.0, e = expect(30000) * pow(10, dB / 20);
    if (sut_last(0) > e * 1.065 + 3 || sut_last(0) < e * 0.97 - 6)       /* the power of two is interpolated linearly between octaves: up to 6% */
        mc_fail("gain", "level %d, %.1f dB give %.0f", sut_last(0), dB, e);
    by_free(&b);
}
static void gain_describe(u64 i, char *o, size_t nz) { int n = (int)nz; static const char *W[] = { "of the wave", "of the region", "of the wave, region at -10 dB" }; snprintf(o, n, "gain %.1f dB %s", (20.0 - (double)(i / 3)) / 10, W[i % 3]); }
/* ---- waves: sample by sample ---- */
#define LMAX 12
static void wave(u64 i) {
    int from = (int)(i % 3); i /= 3;    /* what says how it loops: the wave, the region, the region overriding the wave */
    int n = (int)(i % LMAX) + 1, fmt = (int)(i / LMAX % 2), half = (int)(i / LMAX / 2 % 2), lp = (int)(i / LMAX / 4), ls = lp ? (lp - 1) % LMAX : 0, ll = lp ? (lp - 1) / LMAX + 1 : 0;
    if (lp && ls + ll > n) mc_skip(); if (!lp && from == 1) mc_skip(); if (from == 2 && n < 2) mc_skip();
    if (ll == 1) mc_skip();         /* see DESIGN.md */
    static const short V[LMAX] = { 20000, -24000, 8000, 15000, -5000, 12000, -20000, 3000, 24000, -9000, 18000, -16000 };
    short v[LMAX]; u8 raw[LMAX * 2]; for (int k = 0; k < n; k++) { int x = V[k] & ~255; v[k] = (short)x; if (fmt) { raw[2 * k] = (u8)x; raw[2 * k + 1] = (u8)(x >> 8); } else raw[k] = (u8)((x >> 8) + 128); }
    d_wave w = { fmt ? 16 : 8, half ? 22050 : 44100, raw, fmt ? 2 * n : n, { 1, 60, 0, 0, lp != 0, ls, ll } }; d_rgn r = { .khi = 127, .vhi = 127 };
    if (from) { r.w = w.w; w.w = from == 1 ? (d_wsmp){ 1, 47, 300, 0, 0, 0, 0 } : (d_wsmp){ 1, 71, -200, 0, 1, 0, n }; }
    d_ins in = { .bank = 0, .prog = 3, .r = &r, .nr = 1, .art = ART, .nart = NART };
    bytes b = { 0 }; dls_build(&b, &in, 1, &w, 1);
    sut_init(); sut_dry(); sut_dls(NULL, &b); H = midi(); sut_w2(H, 0xc0, 3); sut_w3(H, 0x90, 60, 127);
    for (int f = 0; f < (lp ? 3 : 2); f++) {
        sut_render();
        for (int k = 0; k < FRAME; k++) {
            int t = f * FRAME + k; double e, pos = half ? t / 2.0 : t; int a = (int)pos, c = a + 1;
            if (lp) { if (a >= ls + ll) a = ls + (a - ls) % ll; if (c >= ls + ll) c = ls + (c - ls) % ll; }
            else if (a >= n - 1) { /* the very last sample has no successor */ if (a >= n && PCM[2 * k]) mc_fail("wave-end", "sample %d is %d although the wave has ended", t, PCM[2 * k]); continue; }
            e = expect(v[a] + (v[c] - v[a]) * (pos - floor(pos)));
            if (fabs(PCM[2 * k] - e) > 8 + fabs(e) * 0.001) mc_fail("wave", "sample %d is %d, the wave has %.0f there", t, PCM[2 * k], e);
        }
    }
    by_free(&b);
}
static void wave_describe(u64 i, char *o, size_t nz) { int from = (int)(i % 3); i /= 3; int n = (int)nz; int lp = (int)(i / LMAX / 4); int at = snprintf(o, n, "%d samples, %d bits, %d Hz", (int)(i % LMAX) + 1, i / LMAX % 2 ? 16 : 8, i / LMAX / 2 % 2 ? 22050 : 44100); if (lp) snprintf(o + at, n - at, ", loop of %d from %d", (lp - 1) / LMAX + 1, (lp - 1) % LMAX); at = (int)strlen(o); snprintf(o + at, n - at, "%s", (const char *[]){ "", ", set by the region", ", set by the region against the wave" }[from]); }
/* ---- key groups ---- */
static const struct { int key, group, level; } KG[] = { { 40, 1, 70 }, { 41, 1, 210 }, { 42, 2, 630 }, { 43, 0, 1890 }, { 44, 15, 5670 }, { 45, 15, 17010 } };
#define NKG 6
static bytes kbank; static EAS_HANDLE H2; static int klim; static struct { u8 down[2][NKG], pedal; int last; } M;
static void kg_bank(void) {
    static short s[NKG][66]; static d_wave w[NKG]; static d_rgn r[NKG]; static d_ins in[2];
    for (int k = 0; k < NKG; k++) { for (int j = 0; j < 66; j++) s[k][j] = (short)KG[k].level; w[k] = (d_wave){ 16, 44100, s[k], 132, { 1, 60, 0, 0, 1, 32, 32 } }; r[k] = (d_rgn){ .klo = KG[k].key, .khi = KG[k].key, .vhi = 127, .group = KG[k].group, .wave = k }; }
    in[0] = (d_ins){ .bank = 0x80000000, .prog = 0, .r = r, .nr = NKG, .art = ART, .nart = NART }; in[1] = in[0]; in[1].bank = 0; in[1].prog = 0;
    dls_build(&kbank, in, 2, w, NKG);
}
static int kenabled(int o, int at) { (void)at; if (o < 12) return !M.down[o / 6][o % 6]; if (o < 24) return M.down[(o - 12) / 6][o % 6]; return 1; }
static const char *kname(int o) { static char b[60]; if (o < 24) snprintf(b, sizeof b, "%s %d%s", o < 12 ? "note on" : "note off", KG[o % 6].key, o % 12 >= 6 ? " on the other channel" : ""); else snprintf(b, sizeof b, "%s", o == 24 ? "render" : o == 25 ? "all sound off" : "note 40 on the other stream"); return b; }
static void kapply(int o) {
    if (o < 12) {
        int c = o / 6, k = o % 6; sut_w3(H, c ? 0x90 : 0x99, KG[k].key, 100);
        if (KG[k].group) for (int j = 0; j < NKG; j++) if (KG[j].group == KG[k].group) M.down[c][j] = 0;
        M.down[c][k] = 1; M.last = c * NKG + k;
    } else if (o < 24) { sut_w3(H, o >= 18 ? 0x80 : 0x89, KG[o % 6].key, 0); M.down[(o - 12) / 6][o % 6] = 0; }
    else if (o == 24) sut_render();
    else if (o == 25) { sut_w3(H, 0xb9, 120, 0); memset(M.down[0], 0, 6); }
    else { sut_w3(H2, 0x99, 40, 100); sut_w3(H2, 0x89, 40, 0); M.last = -1; }
}
static void kleaf(void) {
    double e = 0; for (int c = 0; c < 2; c++) for (int k = 0; k < NKG; k++) if (M.down[c][k]) e += KG[k].level;
    for (int i = 0; i < (klim ? 8 : 4); i++) sut_render();
    if (klim) {
        /* with fewer voices than notes: which gives way is not fixed, but what a group has ended stays ended and the newest note sounds */
        double left = sut_last(0); u8 t[NKG]; int n = 0;
        for (int k = NKG - 1; k >= 0; k--) { int c = 0; while (c < 2 && left > expect(KG[k].level - 35)) { left -= expect(KG[k].level); c++; } t[k] = (u8)c; n += c; MC_CHECK(c <= M.down[0][k] + M.down[1][k], "key-group", "level %d: key %d sounds %d times, it is down %d times", sut_last(0), KG[k].key, c, M.down[0][k] + M.down[1][k]); }
        MC_CHECK(n <= klim, "key-group", "%d notes sound on %d voices", n, klim);
        if (M.last >= 0 && M.down[M.last / NKG][M.last % NKG]) MC_CHECK(t[M.last % NKG], "key-group", "the newest note, key %d, does not sound", KG[M.last % NKG].key);
        return;
    }
    if (fabs(sut_last(0) - expect(e)) > 22 + expect(e) / 1000) mc_fail("key-group", "level %d, the notes down give %.0f", sut_last(0), expect(e));
}
static void ksetup(void) { memset(&M, 0, sizeof M); sut_init(); sut_dry(); sut_dls(NULL, &kbank); H = midi(); H2 = sut_midi(); M.last = -1; if (klim) { EAS_RESULT r = EAS_SetSynthPolyphony(E, 0, klim); MC_CHECK(r == EAS_SUCCESS, "polyphony", "EAS_SetSynthPolyphony returned %ld", (long)r); } }
/* key groups after any number of notes ended by other means */
static void many(u64 i) {
    int n = (int)(i / 4), how = (int)(i % 4); sut_init(); sut_dry(); sut_dls(NULL, &kbank); H = midi(); u8 gm[] = { 0xf0, 0x7e, 0x7f, 9, 1, 0xf7 };
    for (int k = 0; k < n; k++) { sut_w3(H, 0x99, 43, 100); sut_render(); switch (how) { case 0: sut_w3(H, 0x89, 43, 0); break; case 1: sut_w3(H, 0xb9, 123, 0); break; case 2: sut_w3(H, 0xb9, 120, 0); break; default: sut_write(H, gm, sizeof gm); } sut_render(); }
    for (int k = 0; k < 3; k++) sut_render();
    vol(H); sut_w3(H, 0x99, 40, 100); sut_render(); sut_w3(H, 0x99, 41, 100); for (int k = 0; k < 4; k++) sut_render();
    if (fabs(sut_last(0) - expect(210)) > 12) mc_fail("key-group-later", "after %d notes: level %d, expected only key 41: %.0f", n, sut_last(0), expect(210));
}
static void many_describe(u64 i, char *o, size_t nz) { int n = (int)nz; static const char *W[] = { "note-off", "all notes off", "all sound off", "GM system on" }; snprintf(o, n, "%d notes ended by %s, then keys 40 and 41 of one group", (int)(i / 4), W[i % 4]); }
/* ---- conditions ---- */
enum { T_CONST, T_QUERY, T_KNOWN, T_OP };
#define GUID(a) { a, 0x2f, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12 }
static const u8 G_GM[16] = GUID(0x24), G_DLS1[16] = GUID(0x27), G_RATE[16] = { 0x13, 0xf7, 0x91, 0x2a, 0xbf, 0xa4, 0xd2, 0x11, 0xbb, 0xdf, 0, 0x60, 8, 0x33, 0xdb, 0xd8 }, G_NONE[16] = GUID(0x77);
static const struct { int kind; u32 v; const u8 *g; const char *name; } TK[] = {
    { T_CONST, 1, 0, "1" }, { T_CONST, 2, 0, "2" }, { T_CONST, 0xffffffff, 0, "ffffffff" }, { T_CONST, 0, 0, "0" }, { T_CONST, 0x10003, 0, "10003" }, { T_CONST, 44100, 0, "44100" },
    { T_QUERY, 0xffffffff, G_GM, "query GM" }, { T_QUERY, 44100, G_RATE, "query rate" }, { T_QUERY, 0, G_NONE, "query unknown" },
    { T_KNOWN, 1, G_GM, "knows GM" }, { T_KNOWN, 1, G_DLS1, "knows DLS1" }, { T_KNOWN, 1, G_RATE, "knows rate" }, { T_KNOWN, 0, G_NONE, "knows unknown" },
    { T_OP, 1, 0, "and" }, { T_OP, 2, 0, "or" }, { T_OP, 3, 0, "xor" }, { T_OP, 4, 0, "+" }, { T_OP, 5, 0, "-" }, { T_OP, 6, 0, "*" }, { T_OP, 7, 0, "/" }, { T_OP, 8, 0, "&&" }, { T_OP, 9, 0, "||" },
    { T_OP, 10, 0, "<" }, { T_OP, 11, 0, "<=" }, { T_OP, 12, 0, ">" }, { T_OP, 13, 0, ">=" }, { T_OP, 14, 0, "==" }, { T_OP, 15, 0, "not" } };
#define NTK ((int)(sizeof TK / sizeof *TK))
#define NOPD 13
#define CDMAX 15
static bytes cprog, cbank; static d_conn cart[8];
/* 1, 0, or -1 when the condition says nothing sensible; the first operand is the one pushed last */
static int truth(const u8 *t, int n) {
    u32 st[CDMAX + 1]; int sp = 0;
    for (int k = 0; k < n; k++) {
        u32 v = TK[t[k]].v, x, y;
        if (TK[t[k]].kind != T_OP) { if (sp == 8) return -1; st[sp++] = v; continue; }
        if (v == 15) { if (sp < 1) return -1; st[sp - 1] = !st[sp - 1]; continue; }
        if (sp < 2) return -1; x = st[--sp]; y = st[--sp];
        switch (v) { case 1: x &= y; break; case 2: x |= y; break; case 3: x ^= y; break; case 4: x += y; break; case 5: x -= y; break; case 6: x *= y; break; case 7: if (!y) return -1; x /= y; break; case 8: x = x && y; break; case 9: x = x || y; break;
            case 10: x = x < y; break; case 11: x = x <= y; break; case 12: x = x > y; break; case 13: x = x >= y; break; default: x = x == y; }
        st[sp++] = x;
    }
    return sp == 1 ? st[0] != 0 : -1;
}
static int ctokens(u64 i, u8 *t) {      /* every text of up to 3 tokens; two operations on three constants; one operation on up to 8 constants; 8 operands */
    u64 n = 1; for (int l = 1; l <= 3; l++) { n *= NTK; if (i < n) { for (int k = 0; k < l; k++) { t[k] = (u8)(i % NTK); i /= NTK; } return l; } i -= n; }
    if (i < 5 * 5 * 5 * 15 * 15 * 2) { int o2 = (int)(i % 2); i /= 2; int a = (int)(i % 15); i /= 15; int b = (int)(i % 15); i /= 15; u8 c[3]; for (int k = 0; k < 3; k++) { c[k] = (u8)(i % 5); i /= 5; } t[0] = c[0]; t[1] = c[1]; if (o2) { t[2] = (u8)(NOPD + a); t[3] = c[2]; } else { t[2] = c[2]; t[3] = (u8)(NOPD + a); } t[4] = (u8)(NOPD + b); return 5; }
    i -= 5 * 5 * 5 * 15 * 15 * 2; int m = (int)(i % 8) + 1, op = (int)(i / 8), l = 0; for (int k = 0; k < m; k++) t[l++] = (u8)(k % 5); for (int k = 1; k < m; k++) t[l++] = (u8)(NOPD + op); return l;
}
#define NCOND ((u64)NTK + NTK * NTK + NTK * NTK * NTK + 5 * 5 * 5 * 15 * 15 * 2 + 8 * 14)
static const char *const WHERE[] = { "the collection", "a region beside another", "the only region", "the articulation of a region", "the articulation of an instrument" };
static u64 cshort(void) { return 5 * (u64)(NTK + NTK * NTK); }
static void condition(u64 i) {
    u8 t[CDMAX]; int where, n; u64 j;
    if (i < cshort()) { where = (int)(i % 5); j = i / 5; } else { where = 1; j = i - cshort() + NTK + NTK * NTK; }
    n = ctokens(j, t); int yes = truth(t, n); if (yes < 0) mc_skip();
    cprog.n = 0; for (int k = 0; k < n; k++) { by_le16(&cprog, TK[t[k]].kind == T_CONST ? 0x10 : TK[t[k]].kind == T_QUERY ? 0x11 : TK[t[k]].kind == T_KNOWN ? 0x12 : (int)TK[t[k]].v); if (TK[t[k]].kind == T_CONST) by_le32(&cprog, TK[t[k]].v); else if (TK[t[k]].g) by_put(&cprog, TK[t[k]].g, 16); }
    static short s[2][66]; d_wave w[2]; d_rgn r[2]; for (int q = 0; q < 2; q++) { for (int k = 0; k < 66; k++) s[q][k] = q ? 6000 : 2000; w[q] = (d_wave){ 16, 44100, s[q], 132, { 1, 60, 0, 0, 1, 32, 32 } }; r[q] = (d_rgn){ .khi = 127, .vhi = 127, .wave = q, .rgn2 = q == 0, .cdl = q == 0, .opts = 1 }; }
    memcpy(cart, ART, sizeof ART); cart[NART] = (d_conn){ 0, 0, 4, 0, 500 << 16 };      /* to the right */
    d_ins in = { .bank = 0, .prog = 3, .r = r, .nr = where == 1 ? 2 : 1, .art = ART, .nart = NART };
    if (where == 3) { r[0].art = cart; r[0].nart = NART + 1; }
    if (where == 4) { in.art = cart; in.nart = NART + 1; }
    /* another instrument: its articulation takes no condition */
    static d_rgn o; o = r[1]; o.art = ART; o.nart = NART; d_ins both[2] = { in, { .bank = 0, .prog = 4, .r = &o, .nr = 1 } };
    dls_cdl = &cprog; dls_cdl_at = (int[]){ CDL_COLLECTION, CDL_REGION, CDL_REGION, CDL_REGION_ART, CDL_INS_ART }[where]; dls_art2 = (int)(j & 3);
    dls_build(&cbank, both, 2, w, 2);
    sut_init(); sut_dry(); static EAS_FILE f; static mc_file m; EAS_RESULT res = EAS_LoadDLSCollection(E, NULL, sut_file(&f, &m, cbank.b, cbank.n));
    int none = !yes && (where == 0 || where == 2);
    MC_CHECK(res == EAS_SUCCESS || (where == 0 && !yes), "condition-load", "EAS_LoadDLSCollection returned %ld", (long)res); MC_CHECK(!(where == 0 && !yes) || res != EAS_SUCCESS, "condition-load", "a collection that is not meant for this player is loaded");
    H = midi(); sut_w2(H, 0xc0, 3); sut_w3(H, 0x90, 60, 100); sut_render(); sut_render(); sut_render();
    if (none) { int flat = 1; for (int k = 2; k < FRAME * 2; k++) flat &= PCM[k] == PCM[k - 2]; MC_CHECK(!flat, "condition", "the condition is false, but the built-in instrument does not sound"); return; }
    double l = expect(2000), rr = expect(2000), tol = 12;
    if (where == 1) { l = rr = expect(yes ? 8000 : 6000); }
    if (where >= 3 && yes) { l = 0; rr *= sqrt(2); tol = 60; }
    if (where == 4 && !yes) { if (abs(sut_last(0) - sut_last(1)) > 4 || sut_last(0) < 100) mc_fail("condition", "levels %d %d: the condition is false, but its articulation is used", sut_last(0), sut_last(1)); return; }
    if (fabs(sut_last(0) - l) > tol || fabs(sut_last(1) - rr) > tol) mc_fail("condition", "levels %d %d, expected %.0f %.0f: the condition is %s", sut_last(0), sut_last(1), l, rr, yes ? "true" : "false");
}
static void condition_describe(u64 i, char *o, size_t n) {
    u8 t[CDMAX]; int where; u64 j; if (i < cshort()) { where = (int)(i % 5); j = i / 5; } else { where = 1; j = i - cshort() + NTK + NTK * NTK; }
    int l = ctokens(j, t), at = snprintf(o, n, "condition of %s:", WHERE[where]); for (int k = 0; k < l; k++) at += snprintf(o + at, n - (size_t)at, " %s", TK[t[k]].name);
}
static void calibrate(void) {
    static short s[66]; for (int j = 0; j < 66; j++) s[j] = 16000;
    d_wave w = { 16, 44100, s, 132, { 1, 60, 0, 0, 1, 32, 32 } }; d_rgn r = { .khi = 127, .vhi = 127 }; d_ins in = { .bank = 0, .prog = 3, .r = &r, .nr = 1, .art = ART, .nart = NART };
    bytes b = { 0 }; dls_build(&b, &in, 1, &w, 1);
    double *out = mc_big(sizeof *out); mc_snap *sn = mc_save(NULL);
    sut_init(); sut_dry(); sut_dls(NULL, &b); H = midi(); sut_w2(H, 0xc0, 3); sut_w3(H, 0x90, 60, 100); sut_render(); sut_render(); *out = sut_last(0) / 16000.0;
    mc_restore(sn); mc_snap_free(sn); K = *out;
    MC_CHECK(K > 0.1 && K < 1, "level", "a constant wave sounds at %.3f of its level", K);
}
void mc_body(void) {
    calibrate(); regions_bank(); kg_bank();
    int d = mc_thorough ? 6 : 5, nm = mc_thorough ? 600 : 300;
    mc_bound("every key and velocity of a melody and a drum instrument of overlapping, layered and velocity-split regions; all %d collections of %d instruments, each with 60 bank and program selections; gains from +2 to -60 dB in 0.1 dB; all waves of up to %d samples of both formats and two rates without loop and with every loop, set by the wave, the region or both; key groups: every sequence of 27 operations up to depth %d, %d with 1, 2 and 3 voices, and 0 to %d notes before", (1 << NI) - 1, NI, LMAX, d, mc_thorough ? d + 1 : d, nm);
    mc_space a = { .name = "regions", .n = 2 * 128 * 127, .run = region, .describe = region_describe }; mc_enumerate(&a);
    mc_space b = { .name = "banks", .n = 2 << NI, .run = banks, .describe = banks_describe }; mc_enumerate(&b);
    mc_space c = { .name = "gain", .n = 3 * 621, .run = gain, .describe = gain_describe }; mc_enumerate(&c);
    mc_space w = { .name = "waves", .n = 3 * LMAX * 4 * (1 + LMAX * LMAX), .run = wave, .describe = wave_describe }; mc_enumerate(&w);
    { bytes *q[] = { &cprog, &cbank }; for (int k = 0; k < 2; k++) { for (int z = 0; z < 4096; z++) by_u8(q[k], 0); q[k]->n = 0; } }
    mc_bound("conditions: every text of one and two of %d operands, queries and operations on each of 5 things that may carry one, every text of three, every two operations on three of 5 constants, and every operation on up to 8 operands, on a region", NTK);
    mc_space cd = { .name = "conditions", .n = cshort() + NCOND - NTK - NTK * NTK, .run = condition, .describe = condition_describe }; mc_enumerate(&cd);
    mc_model x = { .name = "key groups", .nops = 27, .depth = d, .setup = ksetup, .enabled = kenabled, .apply = kapply, .leaf = kleaf, .opname = kname, .dedupe = 1 }; mc_explore(&x);
    x.depth = mc_thorough ? d + 1 : d; klim = 1; x.name = "key groups, 1 voice"; mc_explore(&x); klim = 2; x.name = "key groups, 2 voices"; mc_explore(&x); klim = 3; x.name = "key groups, 3 voices"; mc_explore(&x); klim = 0;
    mc_space m = { .name = "key groups later", .n = 4 * (nm + 1), .run = many, .describe = many_describe }; mc_enumerate(&m);
}
