/* C18: what a channel sounds like depends on its settings, not on how they came about.  A model holds the settings; in
 * every state a fresh instance gets the settings by the shortest canonical messages, and both must then sound alike. */
#include "sut.h"
const char mc_property[] = "C18";
static EAS_DATA_HANDLE I[2]; static EAS_HANDLE H[2]; static bytes bank; static int CH = 0;
typedef struct { u8 msb, lsb, drum, pmsb, plsb, prog, vol, expr, pan, mod, press, rev, cho, rpnm, rpnl, range, fine, coarse, bl, bh, pedal; } chan;
static chan C[2]; static u8 down[2];
typedef struct { u8 n, b[6]; const char *name; } op;
static const op OPS[] = {
    /* programs and banks */
    { 2, { 0xc0, 0 }, "program 0" }, { 2, { 0xc0, 1 }, "program 1" }, { 2, { 0xc0, 25 }, "program 25" }, { 2, { 0xc0, 127 }, "program 127" },
    { 3, { 0xb0, 0, 0x79 }, "bank MSB 121" }, { 3, { 0xb0, 0, 0x78 }, "bank MSB 120" }, { 3, { 0xb0, 0, 0 }, "bank MSB 0" }, { 3, { 0xb0, 0, 1 }, "bank MSB 1" }, { 3, { 0xb0, 32, 0 }, "bank LSB 0" }, { 3, { 0xb0, 32, 1 }, "bank LSB 1" },
    { 2, { 0xc1, 5 }, "other: program 5" }, { 3, { 0xb1, 0, 0x78 }, "other: bank MSB 120" }, { 3, { 0xb1, 32, 1 }, "other: bank LSB 1" },
    { 6, { 0xf0, 0x7e, 0x7f, 9, 1, 0xf7 }, "GM system on" }, { 3, { 0xb0, 121, 0 }, "reset controllers" }, { 3, { 0x90, 60, 100 }, "note on" }, { 3, { 0x80, 60, 0 }, "note off" }, { 0, { 0 }, "render" },
    /* registered parameters */
    { 3, { 0xb0, 101, 0 }, "RPN MSB 0" }, { 3, { 0xb0, 101, 1 }, "RPN MSB 1" }, { 3, { 0xb0, 101, 127 }, "RPN MSB 127" }, { 3, { 0xb0, 100, 0 }, "RPN LSB 0" }, { 3, { 0xb0, 100, 1 }, "RPN LSB 1" }, { 3, { 0xb0, 100, 2 }, "RPN LSB 2" }, { 3, { 0xb0, 100, 127 }, "RPN LSB 127" },
    { 3, { 0xb0, 98, 0 }, "NRPN LSB 0" }, { 3, { 0xb0, 99, 0 }, "NRPN MSB 0" }, { 3, { 0xb0, 6, 0 }, "data 0" }, { 3, { 0xb0, 6, 12 }, "data 12" }, { 3, { 0xb0, 6, 70 }, "data 70" }, { 3, { 0xb0, 38, 5 }, "data LSB 5" },
    { 3, { 0xe0, 0, 0 }, "bend down" }, { 3, { 0xe0, 1, 64 }, "bend 8193" }, { 3, { 0xe0, 127, 127 }, "bend up" },
    { 3, { 0xb1, 101, 0 }, "other: RPN MSB 0" }, { 3, { 0xb1, 100, 2 }, "other: RPN LSB 2" }, { 3, { 0xb1, 6, 30 }, "other: data 30" }, { 3, { 0xe1, 0, 0 }, "other: bend down" }, { 3, { 0xb1, 121, 0 }, "other: reset controllers" },
    /* controllers */
    { 3, { 0xb0, 7, 0 }, "volume 0" }, { 3, { 0xb0, 7, 50 }, "volume 50" }, { 3, { 0xb0, 7, 127 }, "volume 127" }, { 3, { 0xb0, 11, 20 }, "expression 20" }, { 3, { 0xb0, 11, 100 }, "expression 100" }, { 3, { 0xb0, 10, 0 }, "pan 0" }, { 3, { 0xb0, 10, 100 }, "pan 100" }, { 3, { 0xb0, 1, 127 }, "modulation 127" }, { 3, { 0xb0, 1, 20 }, "modulation 20" },
    { 2, { 0xd0, 127 }, "pressure 127" }, { 3, { 0xb0, 91, 100 }, "reverb send" }, { 3, { 0xb0, 93, 90 }, "chorus send" }, { 3, { 0xb0, 64, 127 }, "pedal down" }, { 3, { 0xb0, 64, 63 }, "pedal up" }, { 3, { 0xb0, 120, 0 }, "all sound off" }, { 3, { 0xb0, 123, 0 }, "all notes off" },
    { 3, { 0xa0, 60, 100 }, "key pressure" }, { 3, { 0xb0, 3, 99 }, "undefined controller 3" }, { 3, { 0xb0, 39, 99 }, "volume LSB" }, { 3, { 0xb0, 102, 99 }, "undefined controller 102" }, { 3, { 0xb0, 65, 127 }, "portamento" }, { 3, { 0xb0, 96, 1 }, "data increment" }, { 3, { 0xb1, 7, 10 }, "other: volume 10" }, { 3, { 0xb1, 10, 5 }, "other: pan 5" }, { 3, { 0xb1, 11, 7 }, "other: expression 7" }, { 3, { 0xb1, 1, 99 }, "other: modulation 99" },
};
#define NOPS ((int)(sizeof OPS / sizeof *OPS))
static u8 set[128]; static int nset;
static void use(int i) { E = I[i]; }
static void put(int i, const u8 *b, int n) { u8 m[8]; memcpy(m, b, n); if (m[0] < 0xf0) m[0] = (u8)((m[0] & 0xf0) | ((m[0] & 15) ? (CH ? 0 : 1) : CH)); use(i); sut_write(H[i], m, n); }
static void p3(int i, int other, int a, int x, int y) { u8 m[3] = { (u8)(a | other), (u8)x, (u8)y }; put(i, m, (a & 0xe0) == 0xc0 ? 2 : 3); }
static int realch(int other) { return other ? (CH ? 0 : 1) : CH; }
static void defaults(chan *c, int ch) { memset(c, 0, sizeof *c); c->msb = c->pmsb = ch == 9 ? 0x78 : 0x79; c->drum = ch == 9; c->vol = 100; c->expr = 127; c->pan = 64; c->rev = 40; c->rpnm = c->rpnl = 127; c->range = 2; c->fine = c->coarse = 64; c->bh = 64; }
static void model(const u8 *b, int n) {
    if (b[0] == 0xf0) { for (int i = 0; i < 2; i++) defaults(&C[i], realch(i)); down[0] = down[1] = 0; return; }
    chan *c = &C[b[0] & 1];
    switch (b[0] & 0xf0) {
    case 0xc0: if (c->msb == 0x78) c->drum = 1; if (c->msb == 0x79) c->drum = 0; c->pmsb = c->msb; c->plsb = c->lsb; c->prog = b[1]; break;
    case 0xd0: c->press = b[1]; break;
    case 0xe0: c->bl = b[1]; c->bh = b[2]; break;
    case 0xb0:
        switch (b[1]) {
        case 0: c->msb = b[2]; c->lsb = 0; break; case 32: c->lsb = b[2]; break;
        case 7: c->vol = b[2]; break; case 11: c->expr = b[2]; break; case 10: c->pan = b[2]; break; case 1: c->mod = b[2]; break; case 91: c->rev = b[2]; break; case 93: c->cho = b[2]; break;
        case 64: c->pedal = b[2] >= 64; break;
        case 101: c->rpnm = b[2]; break; case 100: c->rpnl = b[2]; break; case 98: case 99: c->rpnm = c->rpnl = 127; break;
        case 6: if (!c->rpnm) { if (c->rpnl == 0) c->range = b[2]; if (c->rpnl == 1) c->fine = b[2]; if (c->rpnl == 2) c->coarse = b[2]; } break;
        case 121: c->mod = 0; c->expr = 127; c->pedal = 0; c->bl = 0; c->bh = 64; c->press = 0; c->rpnm = c->rpnl = 127; c->range = 2; c->fine = c->coarse = 64; break;
        }
    }
    (void)n;
}
/* the settings in canonical order */
static void canon(int o) {
    const chan *c = &C[o]; int i = 1;
    p3(i, o, 0xb0, 0, c->drum ? 0x78 : 0x79); p3(i, o, 0xc0, 0, 0);
    p3(i, o, 0xb0, 0, c->pmsb); p3(i, o, 0xb0, 32, c->plsb); p3(i, o, 0xc0, c->prog, 0);
    p3(i, o, 0xb0, 0, c->msb); p3(i, o, 0xb0, 32, c->lsb);
    static const u8 P[3] = { 0, 1, 2 }; const u8 v[3] = { c->range, c->fine, c->coarse };
    for (int k = 2; k >= 0; k--) if (v[k] != (k ? 64 : 2)) { p3(i, o, 0xb0, 100, P[k]); p3(i, o, 0xb0, 101, 0); p3(i, o, 0xb0, 6, v[k]); }
    p3(i, o, 0xb0, 101, c->rpnm); p3(i, o, 0xb0, 100, c->rpnl);
    p3(i, o, 0xe0, c->bl, c->bh); p3(i, o, 0xb0, 7, c->vol); p3(i, o, 0xb0, 11, c->expr); p3(i, o, 0xb0, 10, c->pan); p3(i, o, 0xb0, 1, c->mod); p3(i, o, 0xd0, c->press, 0); p3(i, o, 0xb0, 91, c->rev); p3(i, o, 0xb0, 93, c->cho);
    if (c->pedal) p3(i, o, 0xb0, 64, 127);
}
static void same(const char *what, int n) { for (int f = 0; f < n; f++) { use(0); u64 a = sut_render_hash(1); use(1); u64 b = sut_render_hash(1); if (a != b) mc_fail(what, "%s: frame %d does not sound as with the same settings made directly", what, f); } }
static int enabled(int o, int at) { (void)at; o = set[o]; const op *p = &OPS[o]; if (p->b[0] == 0x90) return !down[0]; if (p->b[0] == 0x80) return down[0]; return 1; }
static const char *opname(int o) { return OPS[set[o]].name; }
static void apply(int o) {
    const op *p = &OPS[set[o]];
    if (!p->n) { use(0); sut_render(); return; }
    u8 m[8]; memcpy(m, p->b, p->n); if (m[0] == 0x90 && m[0] != 0xf0) down[0] = 1; if (m[0] == 0x80) down[0] = 0;
    put(0, m, p->n); model(m, p->n);
}
static void leaf(void) {
    /* silence, with the settings left as they are */
    p3(0, 0, 0xb0, 120, 0); p3(0, 1, 0xb0, 120, 0); use(0); for (int i = 0; i < 3; i++) sut_render();
    MC_CHECK(pcm_silent(), "silence", "sound remains after all sound off");
    canon(0); canon(1); use(1); sut_render();
    for (int o = 0; o < 2; o++) {
        for (int i = 0; i < 2; i++) p3(i, o, 0x90, 60, 100);
        same("note", 3);
        for (int i = 0; i < 2; i++) { p3(i, o, 0x90, 67, 60); p3(i, o, 0x80, 60, 0); }
        same("release", 2);
    }
    for (int i = 0; i < 2; i++) { p3(i, 0, 0xb0, 6, 50); p3(i, 0, 0xc0, 1, 0); p3(i, 0, 0x90, 64, 90); }
    same("next data entry and program", 2);
    for (int i = 0; i < 2; i++) { p3(i, 0, 0xb0, 32, 1); p3(i, 0, 0xc0, 1, 0); p3(i, 0, 0xb0, 64, 0); p3(i, 0, 0x90, 65, 90); }
    same("next bank select", 2);
}
static void setup(void) {
    memset(down, 0, sizeof down);
    for (int i = 0; i < 2; i++) { sut_init(); sut_dry(); sut_dls(NULL, &bank); I[i] = E; H[i] = sut_midi(); defaults(&C[i], realch(i)); }
}
void mc_body(void) {
    static short tri[64], saw[64]; for (int i = 0; i < 64; i++) { tri[i] = (short)(i < 32 ? i * 300 : (64 - i) * 300); saw[i] = (short)(i * 150 - 4000); }
    static d_wave w[4]; static d_rgn r[5]; static d_ins in[5];
    for (int k = 0; k < 4; k++) { w[k] = (d_wave){ 16, 22050 << (k & 1), k < 2 ? tri : saw, 128, { 1, 60 + k, 0, 0, 1, 0, 64 } }; }
    for (int k = 0; k < 5; k++) { r[k] = (d_rgn){ .klo = 0, .khi = 127, .vlo = 0, .vhi = 127, .wave = k & 3 }; in[k] = (d_ins){ .r = &r[k], .nr = 1, .art = dls_flat, .nart = dls_nflat }; }
    in[0].bank = 0; in[0].prog = 1; in[1].bank = 1; in[1].prog = 1; in[2].bank = 0x100; in[2].prog = 1; in[3].bank = 0x80000000; in[3].prog = 25; in[4].bank = 0x80000000; in[4].prog = 1;
    dls_build(&bank, in, 5, w, 4);
    static const struct { const char *name; int from, to, dq, dt; } M[] = { { "banks and programs", 0, 18, 4, 6 }, { "registered parameters", 13, 39, 4, 5 }, { "controllers", 13, 68, 3, 4 }, { "all", 0, 68, 2, 3 } };
    mc_bound("every sequence of bank and program messages (18 operations, depth %d), registered parameters and bends (26, depth %d), controllers (54, depth %d), all %d operations (depth %d), on a melody and on the drum channel, with interference on another channel", M[0].dq + 2 * mc_thorough, M[1].dq + mc_thorough, M[2].dq + mc_thorough, NOPS, M[3].dq + mc_thorough);
    for (CH = 0; CH < 10; CH += 9) for (int k = 0; k < 4; k++) {
        nset = 0; for (int o = M[k].from; o < M[k].to && o < NOPS; o++) set[nset++] = (u8)o;
        char name[60]; snprintf(name, sizeof name, "%s, channel %d", M[k].name, CH + 1);
        mc_model x = { .name = name, .nops = nset, .depth = mc_thorough ? M[k].dt : M[k].dq, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
        mc_explore(&x);
    }
}
