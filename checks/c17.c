/* C17: which notes sound, for every sequence of note and pedal events.
 * Model: a set of notes per channel and key; the implementation is observed only through the rendered audio. */
#include "sut.h"
const char mc_property[] = "C17";

#define NCH 2
#define NKEY 2
#define MAXV 2                       /* simultaneous notes of one key the synthesiser promises */
static const int CH[NCH] = { 0, 5 }; static const int KEY[NKEY] = { 48, 62 };
static bytes bank; static int level[NCH][NKEY][2];    /* calibrated contribution of one note, left/right */

/* model */
typedef struct { u8 on, fresh, held, off, dying, ph; } note;   /* fresh: not rendered yet; held: by the pedal; off: to be released after its first frame */
static note N[NCH][NKEY][MAXV]; static u8 pedal[NCH];
#define RMAX 24
static int rl, rel[NCH][NKEY][RMAX][2]; static bytes *use, slow;   /* a released note dies away over rl frames, with these levels */
static EAS_HANDLE H; static int other;

enum { OP_ON, OP_ON_END = OP_ON + NCH * NKEY - 1, OP_OFF, OP_OFF_END = OP_OFF + NCH * NKEY - 1, OP_PED1, OP_PED1_END = OP_PED1 + NCH - 1, OP_PED0, OP_PED0_END = OP_PED0 + NCH - 1,
       OP_RENDER, OP_ANO, OP_ASO = OP_ANO + NCH, OP_RST = OP_ASO + NCH, OP_OFFV = OP_RST + NCH, OP_OMNI = OP_OFFV + 1, OP_PEDLOW, NOPS };
static const char *opname(int o) {
    static char b[64];
    if (o <= OP_ON_END) snprintf(b, sizeof b, "note on ch%d key%d", CH[o / NKEY], KEY[o % NKEY]);
    else if (o <= OP_OFF_END) { o -= OP_OFF; snprintf(b, sizeof b, "note off ch%d key%d", CH[o / NKEY], KEY[o % NKEY]); }
    else if (o <= OP_PED1_END) snprintf(b, sizeof b, "pedal down ch%d", CH[o - OP_PED1]);
    else if (o <= OP_PED0_END) snprintf(b, sizeof b, "pedal up ch%d", CH[o - OP_PED0]);
    else if (o == OP_RENDER) snprintf(b, sizeof b, "render");
    else if (o < OP_ASO) snprintf(b, sizeof b, "all notes off ch%d", CH[o - OP_ANO]);
    else if (o < OP_RST) snprintf(b, sizeof b, "all sound off ch%d", CH[o - OP_ASO]);
    else if (o < OP_OFFV) snprintf(b, sizeof b, "reset controllers ch%d", CH[o - OP_RST]);
    else if (o == OP_OFFV) snprintf(b, sizeof b, "note on velocity 0 ch%d key%d", CH[0], KEY[0]);
    else if (o == OP_OMNI) snprintf(b, sizeof b, "omni on ch%d", CH[0]);
    else snprintf(b, sizeof b, "pedal value 63 ch%d", CH[0]);
    return b;
}
static void model_release(note *n) { n->dying = 1; n->held = 0; }
static void model_off(int c, int k) {
    for (int v = 0; v < MAXV; v++) {
        note *n = &N[c][k][v]; if (!n->on || n->dying == 2 || n->ph) continue;
        if (pedal[c]) { n->held = 1; continue; }
        if (n->fresh && !n->dying) n->off = 1;          /* a note that was never heard still sounds for a frame */
        else model_release(n);
    }
}
static void model_pedal(int c, int down) {
    if (down && !pedal[c]) for (int k = 0; k < NKEY; k++) for (int v = 0; v < MAXV; v++) { note *n = &N[c][k][v]; if (n->on && n->dying == 1 && !n->ph) { n->dying = 0; n->held = 1; } }
    if (!down && pedal[c]) for (int k = 0; k < NKEY; k++) for (int v = 0; v < MAXV; v++) { note *n = &N[c][k][v]; if (n->on && n->held) { if (n->dying != 2) n->dying = 1; n->held = 0; } }
    pedal[c] = (u8)down;
}
static void model_mute(int c) { for (int k = 0; k < NKEY; k++) for (int v = 0; v < MAXV; v++) { note *n = &N[c][k][v]; if (n->on) { n->dying = 2; n->off = n->held = 0; } } }
static int enabled(int o, int at) {
    (void)at;
    if (o <= OP_ON_END) { int s = 0; for (int v = 0; v < MAXV; v++) s += N[o / NKEY][o % NKEY][v].on; return s < MAXV; }
    return 1;
}
static void check_frame(void) {
    for (int side = 0; side < 2; side++) {
        int want = 0, n = 0;
        for (int c = 0; c < NCH; c++) for (int k = 0; k < NKEY; k++) for (int v = 0; v < MAXV; v++) if (N[c][k][v].on && !N[c][k][v].dying) { want += level[c][k][side]; n++; }
        for (int c = 0; c < NCH; c++) for (int k = 0; k < NKEY; k++) for (int v = 0; v < MAXV; v++) if (N[c][k][v].on && N[c][k][v].dying == 1 && N[c][k][v].ph < rl) { want += rel[c][k][N[c][k][v].ph][side]; n++; }
        int got = sut_last(side), d = got - want; if (d < 0) d = -d;
        if (d > 24) {
            char b[300]; int o = 0; b[0] = 0;
            for (int c = 0; c < NCH; c++) for (int k = 0; k < NKEY; k++) for (int v = 0; v < MAXV; v++) if (N[c][k][v].on && !N[c][k][v].dying) o += snprintf(b + o, sizeof b - (size_t)o, " ch%d/key%d", CH[c], KEY[k]);
            mc_fail("sounding-set", "sounding notes should be {%s } (output %d), the synthesiser puts out %d; one note of ch%d/key%d is %d, ch%d/key%d %d, ch%d/key%d %d, ch%d/key%d %d", b, want, got,
                CH[0], KEY[0], level[0][0][side], CH[0], KEY[1], level[0][1][side], CH[1], KEY[0], level[1][0][side], CH[1], KEY[1], level[1][1][side]);
        }
        if (!n && d) mc_count("residual", 1);
    }
    for (int c = 0; c < NCH; c++) for (int k = 0; k < NKEY; k++) for (int v = 0; v < MAXV; v++) {
        note *n = &N[c][k][v]; if (!n->on) continue;
        if (n->dying == 1 && n->ph < rl) { n->ph++; continue; }
        if (n->dying) { memset(n, 0, sizeof *n); continue; }
        n->fresh = 0;
        if (n->off) { n->off = 0; if (pedal[c]) n->held = 1; else n->dying = 1; }
    }
}
static void apply(int o) {
    if (o <= OP_ON_END) {
        int c = o / NKEY, k = o % NKEY; sut_w3(H, 0x90 | CH[c], KEY[k], 127);
        for (int v = 0; v < MAXV; v++) if (!N[c][k][v].on) { N[c][k][v] = (note){ 1, 1, 0, 0, 0 }; break; }
    } else if (o <= OP_OFF_END) { o -= OP_OFF; int c = o / NKEY, k = o % NKEY; sut_w3(H, 0x80 | CH[c], KEY[k], 64); model_off(c, k); }
    else if (o <= OP_PED1_END) { int c = o - OP_PED1; sut_w3(H, 0xb0 | CH[c], 64, 127); model_pedal(c, 1); }
    else if (o <= OP_PED0_END) { int c = o - OP_PED0; sut_w3(H, 0xb0 | CH[c], 64, 0); model_pedal(c, 0); }
    else if (o == OP_RENDER) { sut_render(); check_frame(); }
    else if (o < OP_ASO) { int c = o - OP_ANO; sut_w3(H, 0xb0 | CH[c], 123, 0); model_mute(c); }
    else if (o < OP_RST) { int c = o - OP_ASO; sut_w3(H, 0xb0 | CH[c], 120, 0); model_mute(c); }
    else if (o < OP_OFFV) { int c = o - OP_RST; sut_w3(H, 0xb0 | CH[c], 121, 0); model_pedal(c, 0); }
    else if (o == OP_OFFV) { sut_w3(H, 0x90 | CH[0], KEY[0], 0); model_off(0, 0); }
    else if (o == OP_OMNI) { sut_w3(H, 0xb0 | CH[0], 125, 0); model_mute(0); }
    else { sut_w3(H, 0xb0 | CH[0], 64, 63); model_pedal(0, 0); }
}
/* whatever the history, two more frames and then silence once every key is up and the pedals are released */
static void leaf(void) {
    for (int i = 0; i < 2; i++) { sut_render(); check_frame(); }
    for (int c = 0; c < NCH; c++) { sut_w3(H, 0xb0 | CH[c], 64, 0); model_pedal(c, 0); for (int k = 0; k < NKEY; k++) { sut_w3(H, 0x80 | CH[c], KEY[k], 0); model_off(c, k); } }
    sut_render(); check_frame(); for (int i = 0; i < rl; i++) { sut_render(); check_frame(); } sut_render(); sut_render();
    MC_CHECK(pcm_silent(), "stuck-note", "sound remains after every key and pedal was released");
}
static void setup(void) {
    sut_init(); sut_dry(); sut_dls(NULL, use);
    EAS_HANDLE o = NULL; if (other) o = sut_midi();
    H = sut_midi();
    for (int c = 0; c < NCH; c++) sut_w2(H, 0xc0 | CH[c], c);
    if (other) { sut_w2(o, 0xc0 | CH[0], 1); }
    memset(N, 0, sizeof N); memset(pedal, 0, sizeof pedal);
    sut_render();
}
static void setup_other(void) { other = 1; setup(); }
static void calibrate(u64 i) {
    (void)i;
    other = 0; setup();
    for (int c = 0; c < NCH; c++) for (int k = 0; k < NKEY; k++) {
        sut_w3(H, 0x90 | CH[c], KEY[k], 127); sut_render(); sut_render();
        level[c][k][0] = sut_last(0); level[c][k][1] = sut_last(1);
        sut_w3(H, 0x80 | CH[c], KEY[k], 0); for (int f = 0; f < rl; f++) { sut_render(); rel[c][k][f][0] = sut_last(0); rel[c][k][f][1] = sut_last(1); } sut_render(); sut_render();
        MC_CHECK(pcm_silent(), "note-off", "a released note with an instantaneous release goes on sounding");
    }
}
/* ---- more notes than voices: which note gives way is not fixed, but notes end only by their own note-off or for a new note ---- */
#define FN 6
static const u8 FC[FN] = { 0, 0, 0, 5, 5, 5 }, FK[FN] = { 48, 60, 62, 48, 60, 62 };
static bytes fbank; static int flev[FN], flim;
/* off: its note-off came since the last settling; twin: struck again right after one, so the pedal may hold the earlier voice instead */
static struct { u8 down[FN], req[FN], alw[FN], off[FN], twin[FN], ped[2]; int busy, last; } P;
enum { FOFF = FN, FPD = 2 * FN, FPU = FPD + 2, FREND = FPU + 2, FSETTLE, FANO, FSLOW, FOPS };
static const char *fname(int o) { static char b[40]; if (o >= FREND) return (const char *[]){ "render", "settle", "all notes off ch 0", "note off of a key never pressed" }[o - FREND]; if (o >= FPD) snprintf(b, sizeof b, "pedal %s ch %d", o < FPU ? "down" : "up", CH[(o - FPD) % 2]); else snprintf(b, sizeof b, "note %s ch %d key %d", o < FN ? "on" : "off", FC[o % FN], FK[o % FN]); return b; }
static int fvel(int i) { return i & 1 ? 90 : 127; }        /* a voice that changes hands must not keep the velocity of the old note */
static int fch(int i) { return FC[i] == CH[1]; }
static int fenabled(int o, int at) { (void)at; return o < FN ? !P.down[o] && !(P.ped[fch(o)] && P.alw[o]) : o < FPD ? P.down[o - FN] : o < FPU ? !P.ped[o - FPD] : o < FREND ? P.ped[o - FPU] : 1; }
static void fsettle(void) {
    for (int i = 0; i < 4; i++) sut_render();
    int v = sut_last(0), n = 0, want = 0; u8 t[FN]; char b[100], w[100]; int ob = 0, ow = 0; b[0] = w[0] = 0;
    for (int i = FN - 1; i >= 0; i--) { t[i] = 0; while (t[i] < 2 && v > flev[i] - flev[0] / 2) { v -= flev[i]; n++; t[i]++; } if (t[i]) { ob += snprintf(b + ob, sizeof b - (size_t)ob, " ch%d/%d", FC[i], FK[i]); } if (P.req[i]) { want++; ow += snprintf(w + ow, sizeof w - (size_t)ow, " ch%d/%d", FC[i], FK[i]); } }
    MC_CHECK(v > -flev[0] / 2 && v < flev[0] / 2, "level", "the output is not a sum of notes");
    for (int i = 0; i < FN; i++) { int ok = P.down[i] || (P.alw[i] && P.ped[fch(i)]); MC_CHECK(!t[i] || ok, "extra", "sounding {%s }: ch%d/%d was released", b, FC[i], FK[i]); }
    int lost = P.busy > flim ? P.busy - flim : 0, kept = 0; for (int i = 0; i < FN; i++) kept += t[i] && P.req[i];
    MC_CHECK(kept >= want - lost, "lost", "only {%s } of {%s } sound, with %d voices at most %d can have given way", b, w, flim, lost);
    if (P.last >= 0) MC_CHECK(t[P.last], "newest", "the note started last, ch%d/%d, does not sound", FC[P.last], FK[P.last]);
    P.busy = 0; for (int i = 0; i < FN; i++) { P.off[i] = 0; P.alw[i] = P.req[i] = t[i] > 0; P.busy += t[i]; }
    if (P.last >= 0 && !t[P.last]) P.last = -1;
}
static void fapply(int o) {
    if (o < FN) { sut_w3(H, 0x90 | FC[o], FK[o], fvel(o)); P.down[o] = P.req[o] = P.alw[o] = 1; P.twin[o] = P.off[o]; P.busy++; P.last = o; }
    else if (o < FPD) { o -= FN; sut_w3(H, 0x80 | FC[o], FK[o], 0); P.down[o] = 0; P.off[o] = 1; if (!P.ped[fch(o)]) { P.req[o] = 0; if (P.last == o) P.last = -1; } }
    else if (o < FREND) { int c = (o - FPD) % 2, d = o < FPU; sut_w3(H, 0xb0 | CH[c], 64, d ? 127 : 0); P.ped[c] = (u8)d; if (!d) for (int i = 0; i < FN; i++) if (fch(i) == c && (!P.down[i] || P.twin[i])) { P.req[i] = 0; if (P.last == i) P.last = -1; } }
    else if (o == FREND) sut_render(); else if (o == FSETTLE) fsettle();
    else if (o == FSLOW) sut_w3(H, 0x80, 61, 0);
    else { sut_w3(H, 0xb0, 123, 0); for (int i = 0; i < FN; i++) if (!fch(i)) { P.off[i] = 1; P.down[i] = P.req[i] = P.alw[i] = 0; if (P.last == i) P.last = -1; } }
}
static void fleaf(void) {
    fsettle();
    for (int c = 0; c < 2; c++) sut_w3(H, 0xb0 | CH[c], 64, 0);
    for (int i = 0; i < FN; i++) sut_w3(H, 0x80 | FC[i], FK[i], 0);
    for (int i = 0; i < 4; i++) sut_render();
    MC_CHECK(pcm_silent(), "stuck-note", "sound remains after every key and pedal was released");
}
static void fsetup(void) {
    memset(&P, 0, sizeof P); P.last = -1; sut_init(); sut_dry(); sut_dls(NULL, &fbank); H = sut_midi(); sut_w2(H, 0xc5, 1);
    if (flim) { EAS_RESULT r = EAS_SetSynthPolyphony(E, 0, flim); MC_CHECK(r == EAS_SUCCESS, "polyphony", "EAS_SetSynthPolyphony returned %ld", (long)r); }
    sut_render();
}
void mc_body(void) {
    use = &bank;
    static const dc_note t[] = { { 0, 0, 48, 48, 100 }, { 0, 0, 62, 62, 300 }, { 0, 1, 48, 48, 900 }, { 0, 1, 62, 62, 2700 } };
    dc_bank(&bank, t, 4, dls_flat, dls_nflat);
    mc_snap *s = mc_save(NULL); int lv[NCH][NKEY][2]; calibrate(0); memcpy(lv, level, sizeof lv); mc_restore(s); memcpy(level, lv, sizeof lv);
    for (int sd = 0; sd < 2; sd++) { int *p = &level[0][0][0]; for (int i = 0; i < 4; i++) if (p[2 * i + sd] < 90 || (i && p[2 * i + sd] < p[2 * i - 2 + sd] * 5 / 2)) { static char why[200]; snprintf(why, sizeof why, "levels %d %d %d %d", p[sd], p[2 + sd], p[4 + sd], p[6 + sd]); mc_assume("calibration failed"); fprintf(stderr, "c17: %s\n", why); } }
    mc_bound("operation sequences over note on/off (2 channels x 2 keys, up to 2 notes per key), sustain pedal, all notes/sound off, reset controllers, omni, velocity 0, render: depth %d, all interleavings, duplicates of states merged; the same with releases of %d frames, and with 1, 2 and 3 voices for 6 notes", mc_thorough ? 8 : 6, RMAX);
    mc_model m = { .name = "events", .nops = NOPS, .depth = mc_thorough ? 8 : 6, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1, .leaf_only_final = 0, .cpu_limit = 20 };
    mc_explore(&m);
    m.name = "second stream"; m.setup = setup_other; m.depth = mc_thorough ? 7 : 5; mc_explore(&m);
    /* the same with notes that die away slowly */
    static d_conn wc[16]; memcpy(wc, dls_flat, (size_t)dls_nflat * sizeof *wc); for (int i = 0; i < dls_nflat; i++) if (wc[i].dst == 0x209) wc[i].scale = -5000 * 65536;
    dc_bank(&slow, t, 4, wc, dls_nflat); use = &slow; rl = RMAX;
    s = mc_save(NULL); int *q = mc_big(sizeof level + sizeof rel); calibrate(0); memcpy(q, level, sizeof level); memcpy((char *)q + sizeof level, rel, sizeof rel); mc_restore(s); memcpy(level, q, sizeof level); memcpy(rel, (char *)q + sizeof level, sizeof rel); mc_snap_free(s);
    while (rl > 1) { int any = 0; for (int c = 0; c < NCH; c++) for (int k = 0; k < NKEY; k++) any |= rel[c][k][rl - 1][0] || rel[c][k][rl - 1][1]; if (any) break; rl--; }
    mc_count("frames a slow release takes", rl);
    m.name = "slow release"; m.setup = setup; other = 0; m.depth = mc_thorough ? 8 : 6; mc_explore(&m);
    /* and with fewer voices than notes */
    static dc_note ft[FN]; for (int i = 0, l = 40; i < FN; i++, l *= 3) ft[i] = (dc_note){ 0, fch(i), FK[i], FK[i], l << (i & 1), 0, 0 };
    dc_bank(&fbank, ft, FN, dls_flat, dls_nflat); flim = 0; use = &bank; rl = 0;
    s = mc_save(NULL); fsetup(); for (int i = 0; i < FN; i++) { sut_w3(H, 0x90 | FC[i], FK[i], fvel(i)); sut_render(); sut_render(); q[i] = sut_last(0); sut_w3(H, 0x80 | FC[i], FK[i], 0); for (int j = 0; j < 3; j++) sut_render(); } mc_restore(s); memcpy(flev, q, sizeof flev); mc_snap_free(s);
    mc_model f = { .nops = FOPS, .setup = fsetup, .enabled = fenabled, .apply = fapply, .leaf = fleaf, .opname = fname, .dedupe = 1, .cpu_limit = 20 };
    static const char *const nm[] = { "1 voice", "2 voices", "3 voices" };
    for (flim = 1; flim <= 3; flim++) { f.name = nm[flim - 1]; f.depth = mc_thorough ? 7 + (flim == 2) : 6; mc_explore(&f); }
}
