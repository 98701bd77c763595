/* C15: loudness follows its controls: velocity, channel volume, expression, master volume message, stream volume, instance
 * volume and pan, whatever their values and the order in which they were set. */
#include "sut.h"
#include <math.h>
const char mc_property[] = "C15";
enum { VEL, CC7, CC11, SX, SV, MV, NC };
static const char *CN[] = { "velocity", "volume", "expression", "master volume message", "stream volume", "instance volume" };
static const int MAXV[NC] = { 127, 127, 127, 16383, 100, 100 }, STEPS[NC] = { 128, 128, 128, 256, 101, 101 };
static bytes bank, quiet; static EAS_DATA_HANDLE I[2]; static EAS_HANDLE F[2], H[2]; static EAS_FILE ff[2]; static mc_file fm[2];
static int full[2];
static int stepval(int c, int i) { return c == SX ? (i == 255 ? 16383 : i * 64 + i % 2 * 33) : i; }
static double law(int c, int v) {
    if (c == VEL || c == CC7 || c == CC11) return (v / 128.0) * (v / 128.0);
    if (c == SX) return (v / 16384.0) * (v / 16384.0);
    return v <= 10 ? 0 : pow(10, (v - 100) / 20.0);
}
static void setc(int i, int c, int v) {
    EAS_RESULT r; EAS_I32 g = -1; E = I[i];
    switch (c) {
    case CC7: sut_w3(H[i], 0xb0, 7, v); break; case CC11: sut_w3(H[i], 0xb0, 11, v); break;
    case SX: { u8 m[8] = { 0xf0, 0x7f, 0x7f, 4, 1, (u8)(v & 127), (u8)(v >> 7), 0xf7 }; sut_write(H[i], m, 8); break; }
    case SV: case MV:
        r = EAS_SetVolume(E, c == SV ? F[i] : NULL, v); MC_CHECK(r == EAS_SUCCESS, "set", "EAS_SetVolume(%d) returned %ld", v, (long)r);
        g = EAS_GetVolume(E, c == SV ? F[i] : NULL); MC_CHECK(g == v, "get", "%s set to %d, %ld reported", CN[c], v, (long)g); break;
    }
}
static void inst(int i) {
    sut_init(); sut_dry(); sut_dls(NULL, &bank); I[i] = E;
    F[i] = sut_open(sut_file(&ff[i], &fm[i], quiet.b, quiet.n)); EAS_RESULT r = EAS_OpenMIDIStream(E, &H[i], F[i]); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenMIDIStream on a file returned %ld", (long)r);
    sut_w2(H[i], 0xc0, 3); sut_render();
}
static void maxed(int i) { setc(i, CC7, 127); setc(i, CC11, 127); setc(i, SX, 16383); setc(i, SV, 100); setc(i, MV, 100); }
static int level[2];
static void measure(int vel) {
    E = I[0]; sut_w3(H[0], 0x90, 60, vel); sut_render(); sut_render(); level[0] = sut_last(0); level[1] = sut_last(1);
    sut_w3(H[0], 0x80, 60, 0); for (int i = 0; i < 3; i++) sut_render();
    MC_CHECK(pcm_silent(), "silence", "sound remains after note off");
}
/* ---- all pairs of values of two controls ---- */
static int pa, pb;
static void pair(u64 idx) {
    int prev[2][256][2];
    inst(0); maxed(0); setc(0, MV, 80); measure(127); setc(0, MV, 100); full[0] = level[0]; full[1] = level[1]; MC_CHECK(full[0] > 5000 && full[0] < 32700 && abs(full[0] - full[1]) <= 2, "harness", "full level %d %d", full[0], full[1]);
    if (pa != SV && pb != SV && pa != MV && pb != MV) setc(0, MV, 80);
    for (int row = 0; row < 2; row++) {
        int a = (int)idx + row; if (a >= STEPS[pa]) break;
        int va = stepval(pa, a), vel = pa == VEL ? va : 127; if (pa != VEL) setc(0, pa, va);
        for (int b = 0; b < STEPS[pb]; b++) {
            int vb = stepval(pb, b); if (pb == VEL) vel = vb; else setc(0, pb, vb);
            if (!vel) { prev[row][b][0] = prev[row][b][1] = 0; continue; }
            measure(vel);
            /* calibrated at instance volume 80; a unit of the 15-bit gain of a voice is worth about 23 at full instance volume */
            double mv = pa == MV ? law(MV, va) : pb == MV ? law(MV, vb) : pa == SV || pb == SV ? 1 : law(MV, 80), e = full[0] * law(pa, va) * law(pb, vb) / law(pa, MAXV[pa]) / law(pb, MAXV[pb]);
            if (pa == MV || pb == MV) e /= law(MV, 80); else e *= mv / law(MV, 80);
            if (e > 32767) e = 32767;
            for (int s = 0; s < 2; s++) {
                int l = prev[row][b][s] = level[s];
                if (fabs(l - e) > 3 + 50 * mv + e * 0.02 + (mv ? e * 0.00155 / mv : 0)) mc_fail("law", "%s %d, %s %d: level %d where %.1f was expected", CN[pa], va, CN[pb], vb, l, e);
                if (b && l < prev[row][b - 1][s]) mc_fail("monotone", "%s %d: raising %s to %d lowers the level from %d to %d", CN[pa], va, CN[pb], vb, prev[row][b - 1][s], l);
                if (row && l < prev[0][b][s]) mc_fail("monotone", "%s %d: raising %s to %d lowers the level from %d to %d", CN[pb], vb, CN[pa], va, prev[0][b][s], l);
                if (e == 0 && l) mc_fail("zero", "%s %d, %s %d: level %d", CN[pa], va, CN[pb], vb, l);
            }
        }
    }
}
static void pair_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%s %d and %d with every %s", CN[pa], stepval(pa, (int)i), stepval(pa, (int)i + 1 < STEPS[pa] ? (int)i + 1 : (int)i), CN[pb]); }
/* ---- pan ---- */
static void pan(u64 idx) {
    int v = (int)idx / 3, vol = (int[]){ 127, 90, 40 }[idx % 3]; inst(0); maxed(0); setc(0, MV, 80); setc(0, CC7, vol);
    sut_w3(H[0], 0xb0, 10, 64); measure(127); full[0] = level[0];
    int l[3][2]; for (int k = 0; k < 3; k++) { int x = k == 0 ? v : k == 1 ? v + 1 : 128 - v; if (x > 127) x = 127; sut_w3(H[0], 0xb0, 10, x); measure(127); l[k][0] = level[0]; l[k][1] = level[1]; }
    MC_CHECK(l[1][0] <= l[0][0], "monotone", "pan %d to %d makes the left side louder", v, v + 1); MC_CHECK(l[1][1] >= l[0][1], "monotone", "pan %d to %d makes the right side quieter", v, v + 1);
    if (v) MC_CHECK(abs(l[0][0] - l[2][1]) <= 1 + full[0] / 200 && abs(l[0][1] - l[2][0]) <= 1 + full[0] / 200, "symmetric", "pan %d: %d/%d, pan %d: %d/%d", v, l[0][0], l[0][1], 128 - v, l[2][0], l[2][1]);
    if (v == 64) MC_CHECK(l[0][0] == l[0][1], "centre", "pan 64: left %d, right %d", l[0][0], l[0][1]);
    if (v == 0 || v == 127) { int q = l[0][v == 127 ? 0 : 1], d = l[0][v == 127]; MC_CHECK(q <= d / 20, "side", "pan %d: the far side is at %d, the near one at %d", v, q, d); }
    double p = sqrt((double)l[0][0] * l[0][0] + (double)l[0][1] * l[0][1]), pc = full[0] * M_SQRT2;
    MC_CHECK(p > 0.9 * pc && p < 1.1 * pc, "power", "pan %d changes the power from %.0f to %.0f", v, pc, p);
}
static void pan_describe(u64 i, char *o, size_t n) { snprintf(o, n, "pan %d", (int)i / 3); }
/* ---- built-in instruments: louder controls never make them quieter ---- */
static double energy(int prog, int c, int v) {
    double e = 0; int ch = prog >= 128 ? 9 : 0, key = prog >= 128 ? prog - 128 + 30 : 60;
    maxed(0); if (c != MV) setc(0, MV, 80); if (ch) { sut_w3(H[0], 0xb9, 7, 127); sut_w3(H[0], 0xb9, 11, 127); } else sut_w2(H[0], 0xc0, prog);
    if (ch && (c == CC7 || c == CC11)) { sut_w3(H[0], 0xb9, c == CC7 ? 7 : 11, v); } else if (c != VEL) setc(0, c, v);
    sut_w3(H[0], 0x90 | ch, key, c == VEL ? v : 127);
    for (int f = 0; f < 5; f++) { sut_render(); for (int i = 0; i < FRAME * 2; i++) e += (double)PCM[i] * PCM[i]; }
    return sqrt(e);
}
static void builtin(u64 idx) {
    int prog = (int)(idx % 188), c = (int)(idx / 188); static const int V[6] = { 0, 1, 20, 60, 100, 127 }; double last = -1, first = 0, mid = 0;
    for (int k = 0; k < 6; k++) {
        int v = c == SX ? V[k] * 129 : c >= SV ? V[k] * 100 / 127 : V[k]; if (c == VEL && !v) continue;
        mc_snap *s = NULL; double *out = mc_big(sizeof *out); s = mc_save(NULL);
        sut_init(); sut_dry(); I[0] = E; F[0] = sut_open(sut_file(&ff[0], &fm[0], quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H[0], F[0]);
        *out = energy(prog, c, v); mc_restore(s); double e = *out; mc_snap_free(s);
        if (e < last * 0.999 - 40) mc_fail("monotone", "%s %d instead of %d lowers the energy from %.0f to %.0f", CN[c], v, V[k - 1], last, e);
        last = e; if (k == 0) first = e; if (k == 3) mid = e;
    }
    if (c != VEL && first != 0) mc_fail("zero", "%s 0 is not silent", CN[c]);
    if (last > 1000 && mid > 0.9 * last) mc_fail("effect", "%s hardly changes the level: %.0f at 60, %.0f at 127", CN[c], mid, last);
}
static void builtin_describe(u64 i, char *o, size_t n) { int p = (int)(i % 188); snprintf(o, n, "built-in %s %d, %s", p >= 128 ? "drum" : "program", p >= 128 ? p - 128 + 30 : p, CN[i / 188]); }
/* ---- histories: what was set last counts, whenever it was set ---- */
typedef struct { int c, v; const char *name; } hop;
static const hop OPS[] = { { CC7, 0, "volume 0" }, { CC7, 60, "volume 60" }, { CC7, 127, "volume 127" }, { CC11, 40, "expression 40" }, { CC11, 127, "expression 127" }, { SX, 0, "master volume message 0" }, { SX, 10000, "master volume message 10000" }, { SX, 16383, "master volume message 16383" },
    { SV, 0, "stream volume 0" }, { SV, 70, "stream volume 70" }, { SV, 100, "stream volume 100" }, { MV, 0, "instance volume 0" }, { MV, 80, "instance volume 80" }, { MV, 100, "instance volume 100" }, { 10, 0, "pan 0" }, { 10, 100, "pan 100" },
    { 20, 60, "note on, velocity 60" }, { 20, 127, "note on, velocity 127" }, { 21, 0, "note off" }, { 22, 0, "render" }, { 23, 0, "a bad volume" }, { 24, 0, "other channel's volume 0" }, { 25, 0, "reset controllers" } };
#define NOPS ((int)(sizeof OPS / sizeof *OPS))
static struct { int v[NC], pan, notepan, on, st[3]; } M;   /* st: notes started in the last frames: a third one of a key is taken over late and then panned as the channel is */
static const char *opname(int o) { return OPS[o].name; }
static int enabled(int o, int at) { (void)at; return OPS[o].c == 20 ? !M.on && M.st[0] + M.st[1] + M.st[2] < 2 : OPS[o].c == 21 ? M.on : 1; }
static void apply(int o) {
    const hop *p = &OPS[o]; E = I[0];
    if (p->c < NC) { setc(0, p->c, p->v); M.v[p->c] = p->v; }
    else if (p->c == 10) { sut_w3(H[0], 0xb0, 10, p->v); M.pan = p->v; }
    else if (p->c == 20) { sut_w3(H[0], 0x90, 60, p->v); M.on = 1; M.st[0]++; M.v[VEL] = p->v; M.notepan = M.pan; }
    else if (p->c == 21) { sut_w3(H[0], 0x80, 60, 0); M.on = 0; }
    else if (p->c == 22) { sut_render(); M.st[2] = M.st[1]; M.st[1] = M.st[0]; M.st[0] = 0; }
    else if (p->c == 23) { MC_CHECK(EAS_SetVolume(E, F[0], 101) != EAS_SUCCESS && EAS_SetVolume(E, NULL, -1) != EAS_SUCCESS && EAS_SetVolume(E, NULL, 356) != EAS_SUCCESS, "range", "a volume out of range was accepted"); MC_CHECK(EAS_GetVolume(E, F[0]) == M.v[SV] && EAS_GetVolume(E, NULL) == M.v[MV], "range", "a refused volume is reported"); }
    else if (p->c == 24) sut_w3(H[0], 0xb1, 7, 0);
    else { sut_w3(H[0], 0xb0, 121, 0); M.v[CC11] = 127; }
}
static void leaf(void) {
    int a[2], b[2]; E = I[0];
    if (!M.on) { for (int i = 0; i < 3; i++) sut_render(); sut_w3(H[0], 0x90, 60, 100); M.v[VEL] = 100; M.notepan = M.pan; }
    sut_render(); sut_render(); sut_render(); a[0] = sut_last(0); a[1] = sut_last(1);
    E = I[1]; sut_w3(H[1], 0xb0, 10, M.notepan); setc(1, MV, M.v[MV]); setc(1, SV, M.v[SV]); setc(1, SX, M.v[SX]);
    setc(1, CC11, M.v[CC11]); setc(1, CC7, M.v[CC7]); sut_w3(H[1], 0x90, 60, M.v[VEL]); sut_render(); sut_render(); sut_render(); b[0] = sut_last(0); b[1] = sut_last(1);
    if (a[0] != b[0] || a[1] != b[1]) mc_fail("history", "level %d/%d, with the same settings made directly %d/%d", a[0], a[1], b[0], b[1]);
}
static void setup(void) { memset(&M, 0, sizeof M); for (int i = 0; i < 2; i++) inst(i); M.v[CC7] = 100; M.v[CC11] = 127; M.v[SV] = 100; M.v[MV] = 90; M.pan = 64; setc(0, SX, M.v[SX] = 16383); }
void mc_body(void) {
    static const dc_note t[] = { { 0, 3, 0, 127, 30000 } }; dc_bank(&bank, t, 1, dls_flat, dls_nflat);
    smf_head(&quiet, 0, 1, 96); int m = smf_trk(&quiet); smf_eot(&quiet, 1000000); smf_endtrk(&quiet, m);
    int d = mc_thorough ? 7 : 6;
    mc_bound("all pairs of values of two of velocity, volume, expression, stream volume, instance volume (and 256 values of the master volume message), the others at maximum; all pan values at 3 volumes; all built-in programs and 60 drums at 6 values of each control; every sequence of %d operations up to depth %d", NOPS, d);
    for (pa = 0; pa < NC; pa++) for (pb = pa + 1; pb < NC; pb++) {
        char nm[80]; snprintf(nm, sizeof nm, "%s and %s", CN[pa], CN[pb]); mc_space s = { .name = nm, .n = STEPS[pa], .run = pair, .describe = pair_describe }; mc_enumerate(&s);
    }
    mc_space s = { .name = "pan", .n = 128 * 3, .run = pan, .describe = pan_describe }; mc_enumerate(&s);
    mc_space b = { .name = "built-in instruments", .n = 188 * NC, .run = builtin, .describe = builtin_describe }; mc_enumerate(&b);
    mc_model x = { .name = "histories", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    mc_explore(&x);
}
