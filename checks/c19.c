/* C19: system exclusive messages: GM System On, Master Volume, SP-MIDI (MIP). */
#include "sut.h"
const char mc_property[] = "C19";
#define NC 4
static bytes bank, quiet; static EAS_FILE ff[2]; static mc_file fm[2]; static EAS_HANDLE F, H, F2, H2;
static const int CH[NC] = { 0, 1, 9, 15 }; static const u8 KEY[NC] = { 60, 61, 62, 63 };
static int level[NC], other_level; static double volf;
/* ---- model ---- */
static struct { u8 sp, mip[16], on[NC], dead[NC]; int mv, vol, poly, glob, dying, other, atstart; } M;
static int limit(void) { return M.poly && M.poly < M.glob ? M.poly : M.glob; }
static int plays(int ch) { return !M.sp || (M.mip[ch] && M.mip[ch] <= limit()); }
static void settle_mute(void) { for (int c = 0; c < NC; c++) if (M.on[c] && !plays(CH[c])) { M.on[c] = 0; M.dying++; } }
static int count(void) { int n = 0; for (int c = 0; c < NC; c++) n += M.on[c]; return n; }
typedef struct { const char *n; int len; u8 b[48]; } msg;
#define MS(n, ...) { n, (int)sizeof (u8[]){ __VA_ARGS__ }, { __VA_ARGS__ } }
static const msg MSG[] = {
    MS("MIP 0:1 1:2 9:3 15:4", 0xf0,0x7f,0x7f,0x0b,1, 0,1, 1,2, 9,3, 15,4, 0xf7),
    MS("MIP 15:1 9:2", 0xf0,0x7f,0x7f,0x0b,1, 15,1, 9,2, 0xf7),
    MS("MIP 1:2 0:2 9:4", 0xf0,0x7f,0x7f,0x0b,1, 1,2, 0,2, 9,4, 0xf7),
    MS("MIP of 16 channels", 0xf0,0x7f,0x7f,0x0b,1, 3,1, 0,1, 1,1, 2,2, 4,2, 5,2, 6,2, 7,2, 8,2, 9,2, 10,3, 11,3, 12,3, 13,3, 14,3, 15,70, 0xf7),
    MS("MIP 9:1 0:2 in the middle of clock bytes", 0xf0,0x7f,0xf8,0x7f,0x0b,1, 9,0xfe,1, 0,2, 0xf8, 0xf7),
    MS("MIP with channel 0x45", 0xf0,0x7f,0x7f,0x0b,1, 0,1, 0x45,2, 0xf7),
    MS("MIP of another device", 0xf0,0x7f,0x05,0x0b,1, 0,1, 1,2, 0xf7),
    MS("other SP-MIDI message", 0xf0,0x7f,0x7f,0x0b,2, 0,1, 1,2, 0xf7),
    MS("GM on", 0xf0,0x7e,0x7f,9,1,0xf7), MS("GM2 on", 0xf0,0x7e,0x7f,9,3,0xf7), MS("GM off", 0xf0,0x7e,0x7f,9,2,0xf7),
    MS("volume full", 0xf0,0x7f,0x7f,4,1,0x7f,0x7f,0xf7), MS("volume half", 0xf0,0x7f,0x7f,4,1,0,0x40,0xf7), MS("volume 0x2855", 0xf0,0x7f,0x7f,4,1,0x55,0x50,0xf7), MS("volume 0", 0xf0,0x7f,0x7f,4,1,0,0,0xf7),
    MS("volume of another device", 0xf0,0x7f,0x01,4,1,0,0x20,0xf7), MS("balance", 0xf0,0x7f,0x7f,4,2,0,0,0xf7), MS("volume cut short", 0xf0,0x7f,0x7f,4,1,0,0xf7), MS("identity request", 0xf0,0x7e,0x7f,6,1,0xf7), MS("roland reset", 0xf0,0x41,0x10,0x42,0x12,0x40,0,0x7f,0,0x41,0xf7),
};
#define NM ((int)(sizeof MSG / sizeof *MSG))
static const int POLY[] = { 0, 1, 2, 3, 64 }, GLOB[] = { 1, 2, 3, 64 };
enum { ON = NM, OFF = ON + NC, PL = OFF + NC, GL = PL + 5, V100 = GL + 4, V60, RESTART, OTHER, REND, NOPS };
static const char *opname(int o) {
    static char b[64];
    if (o < NM) return MSG[o].n;
    if (o < OFF) snprintf(b, sizeof b, "note on ch %d", CH[o - ON]); else if (o < PL) snprintf(b, sizeof b, "note off ch %d", CH[o - OFF]);
    else if (o < GL) snprintf(b, sizeof b, "polyphony of the stream %d", POLY[o - PL]); else if (o < V100) snprintf(b, sizeof b, "voice limit %d", GLOB[o - GL]);
    else return (const char *[]){ "stream volume 100", "stream volume 60", "restart of the file", "note of another stream", "render" }[o - V100];
    return b;
}
static int alive(void) { return count() + M.dying + M.other; }
static int enabled(int o, int at) {
    (void)at;
    if (o >= ON && o < OFF) return !M.on[o - ON] && (!plays(CH[o - ON]) || (alive() < M.glob && count() + M.dying < limit()));
    if (o >= PL && o < GL) { int p = M.poly, ok; M.poly = POLY[o - PL] > 63 ? 0 : POLY[o - PL]; int n = 0; for (int c = 0; c < NC; c++) n += M.on[c] && plays(CH[c]); ok = n + M.dying <= limit(); M.poly = p; return ok; }
    if (o >= GL && o < V100) { int p = M.glob, ok; M.glob = GLOB[o - GL]; int n = 0; for (int c = 0; c < NC; c++) n += M.on[c] && plays(CH[c]); ok = n + M.other + M.dying <= M.glob; M.glob = p; return ok; }
    if (o == RESTART) return !M.atstart;
    if (o == OTHER) return !M.other && alive() < M.glob;
    return 1;
}
static void fresh(void) { M.sp = 0; memset(M.mip, 0, sizeof M.mip); M.dying += count(); memset(M.on, 0, sizeof M.on); M.mv = 16383; }
static void table(const u8 *p, int n) { M.sp = 1; memset(M.mip, 0, sizeof M.mip); for (int i = 0; i < n; i++) M.mip[p[2 * i]] = p[2 * i + 1]; settle_mute(); }
static void check(void) {
    for (int i = 0; i < 4; i++) sut_render();
    double g = (double)M.mv / 16383; g *= g * (M.vol == 60 ? volf : 1);
    double want = 0; for (int c = 0; c < NC; c++) if (M.on[c]) want += level[c] * g;
    want += M.other ? other_level : 0;
    for (int s = 0; s < 2; s++) {
        double d = sut_last(s) - want; if (d < 0) d = -d;
        if (d > 14 + want * 0.004) { char b[80]; int o = 0; b[0] = 0; for (int c = 0; c < NC; c++) if (M.on[c]) o += snprintf(b + o, sizeof b - (size_t)o, " ch%d", CH[c]); mc_fail("sound", "the notes that should sound are {%s%s } at gain %.3f: %.0f, the output is %d", b, M.other ? " other" : "", g, want, sut_last(s)); }
    }
    M.dying = 0; M.atstart = 0;
}
static void apply(int o) {
    EAS_RESULT r = EAS_SUCCESS;
    if (o < NM) {
        sut_write(H, MSG[o].b, MSG[o].len);
        switch (o) {
        case 0: table((const u8[]){ 0,1, 1,2, 9,3, 15,4 }, 4); break; case 1: table((const u8[]){ 15,1, 9,2 }, 2); break; case 2: table((const u8[]){ 1,2, 0,2, 9,4 }, 3); break;
        case 3: table(MSG[3].b + 5, 16); break; case 4: table((const u8[]){ 9,1, 0,2 }, 2); break;
        case 5: M.sp = 0; break;                        /* a message that is not understood leaves no table in force */
        case 8: case 9: fresh(); break;
        case 11: M.mv = 16383; break; case 12: M.mv = 8192; break; case 13: M.mv = 0x2855; break; case 14: M.mv = 0; break;
        }
        return;
    }
    if (o < OFF) { int c = o - ON; sut_w3(H, 0x90 | CH[c], KEY[c], 127); if (plays(CH[c])) M.on[c] = 1; return; }
    if (o < PL) { int c = o - OFF; sut_w3(H, 0x80 | CH[c], KEY[c], 0); if (M.on[c]) { M.on[c] = 0; M.dying++; } return; }
    if (o < GL) { r = EAS_SetPolyphony(E, F, POLY[o - PL]); M.poly = POLY[o - PL] > 63 ? 0 : POLY[o - PL]; settle_mute(); }
    else if (o < V100) { r = EAS_SetSynthPolyphony(E, 0, GLOB[o - GL]); M.glob = GLOB[o - GL]; settle_mute(); }
    else if (o == V100 || o == V60) { M.vol = o == V100 ? 100 : 60; r = EAS_SetVolume(E, F, M.vol); }
    else if (o == RESTART) { r = EAS_Locate(E, F, 0, EAS_FALSE); fresh(); M.dying = 0; M.atstart = 1; }
    else if (o == OTHER) { sut_w3(H2, 0x90, 60, 127); M.other = 1; }
    else check();
    MC_CHECK(r == EAS_SUCCESS, "call", "%s returned %ld", opname(o), (long)r);
}
static void leaf(void) {
    check();
    /* afterwards every channel can play or not, as it should */
    for (int c = 0; c < NC; c++) if (enabled(ON + c, 0)) { apply(ON + c); check(); apply(OFF + c); check(); }
}
static void setup(void) {
    memset(&M, 0, sizeof M); sut_init(); sut_dry(); sut_dls(NULL, &bank);
    F = sut_open(sut_file(&ff[0], &fm[0], quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H, F);
    F2 = sut_open(sut_file(&ff[1], &fm[1], quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H2, F2);
    sut_render(); M.mv = 16383; M.vol = 100; M.glob = 64;
}
static void calibrate(void) {
    mc_snap *s = mc_save(NULL); int *k = mc_big(64); double *v = mc_big(64);
    setup();
    for (int c = 0; c < NC; c++) { sut_w3(H, 0x90 | CH[c], KEY[c], 127); for (int i = 0; i < 3; i++) sut_render(); k[c] = sut_last(0); if (c == NC - 1) { EAS_SetVolume(E, F, 60); for (int i = 0; i < 3; i++) sut_render(); v[0] = (double)sut_last(0) / k[c]; } sut_w3(H, 0x80 | CH[c], KEY[c], 0); sut_render(); sut_render(); }
    sut_w3(H2, 0x90, 60, 127); sut_render(); sut_render(); k[NC] = sut_last(0);
    mc_restore(s); memcpy(level, k, sizeof level); other_level = k[NC]; volf = v[0]; mc_snap_free(s);
}

/* ---- the guarantee: a group of channels that keeps within its share loses nothing, whatever the others do ---- */
#define GK 7
static const u8 GC[GK] = { 0, 0, 0, 1, 1, 1, 2 }, GKEY[GK] = { 60, 61, 62, 63, 64, 65, 66 };
static int glev[GK], gslot; static bytes gbank; static int scen;
static struct { const char *n; u8 b[24]; int len, ng; u8 grp[3], share[3], lim; } const SC[] = {
    { "0:2 1:4, limit 4", { 0xf0,0x7f,0x7f,0x0b,1, 0,2, 1,4, 0xf7 }, 10, 2, { 0, 1, 9 }, { 2, 2, 0 }, 4 },
    { "1:1 0:3 2:4, limit 4", { 0xf0,0x7f,0x7f,0x0b,1, 1,1, 0,3, 2,4, 0xf7 }, 12, 3, { 1, 0, 2 }, { 1, 2, 1 }, 4 },
    { "0:2 1:2 2:3, limit 3", { 0xf0,0x7f,0x7f,0x0b,1, 0,2, 1,2, 2,3, 0xf7 }, 12, 2, { 0, 0, 1 }, { 2, 1, 0 }, 3 },
    { "2:1 1:1 0:3, limit 3", { 0xf0,0x7f,0x7f,0x0b,1, 2,1, 1,1, 0,3, 0xf7 }, 12, 2, { 1, 0, 0 }, { 1, 2, 0 }, 3 },
};
static struct { u8 snd[GK], fresh[GK], over[3], dying[3]; } G;
static int glast;
static void gcount(void) { int n[3] = { 0, 0, 0 }; for (int i = 0; i < GK; i++) { int g = SC[scen].grp[GC[i]]; if (g < 3 && G.snd[i]) n[g]++; } for (int g = 0; g < SC[scen].ng; g++) if (n[g] + G.dying[g] > SC[scen].share[g]) G.over[g] = 1; }
static const char *gname(int o) { static char b[40]; if (o >= 2 * GK) return (const char *[]){ "render", "the table again", "all notes off ch 0", "all sound off ch 1", "pause and resume", "all the notes" }[o - 2 * GK]; snprintf(b, sizeof b, "note %s ch %d key %d", o < GK ? "on" : "off", GC[o % GK], GKEY[o % GK]); return b; }
static int genabled(int o, int at) { (void)at; return o >= 2 * GK || (o < GK ? !G.snd[o] && SC[scen].grp[GC[o]] < 3 : G.snd[o - GK]); }
static void gcheck(void) {
    for (int i = 0; i < 4; i++) sut_render();
    int v = sut_last(0), n = 0; u8 t[GK]; for (int i = GK - 1; i >= 0; i--) { t[i] = v > glev[i] - glev[0] / 2; if (t[i]) v -= glev[i], n++; }
    MC_CHECK(v > -glev[0] / 2 && v < glev[0] / 2, "level", "the output is not a sum of notes");
    char b[100]; int o = 0; b[0] = 0; for (int i = 0; i < GK; i++) if (t[i]) o += snprintf(b + o, sizeof b - (size_t)o, " ch%d/%d", GC[i], GKEY[i]);
    char w[100]; o = 0; w[0] = 0; for (int i = 0; i < GK; i++) if (G.snd[i]) o += snprintf(w + o, sizeof w - (size_t)o, " ch%d/%d", GC[i], GKEY[i]);
    MC_CHECK(n <= SC[scen].lim, "limit", "%d notes sound, the limit is %d", n, SC[scen].lim);
    for (int i = 0; i < GK; i++) {
        MC_CHECK(!t[i] || G.snd[i], "extra", "sounding {%s } of {%s }", b, w);
        int g = SC[scen].grp[GC[i]]; if (g < 3 && !G.over[g]) MC_CHECK(t[i] == G.snd[i], "share", "MIP %s: only {%s } of {%s } sound, although the channels of ch%d/%d have kept within their share of %d", SC[scen].n, b, w, GC[i], GKEY[i], SC[scen].share[g]);
    }
    memcpy(G.snd, t, GK); memset(G.over, 0, 3); memset(G.dying, 0, 3); gcount();
}
static void gapply(int o) {
    if (o == 2 * GK) { gcheck(); return; }
    if (o == 2 * GK + 1) { sut_write(H, SC[scen].b, SC[scen].len); return; }
    if (o == 2 * GK + 5) { for (int i = 0; i < GK; i++) if (!G.snd[i] && SC[scen].grp[GC[i]] < 3) { sut_w3(H, 0x90 | GC[i], GKEY[i], 127); G.snd[i] = 1; gcount(); } return; }
    if (o == 2 * GK + 4) { EAS_RESULT r = EAS_Pause(E, F); MC_CHECK(r == EAS_SUCCESS, "pause", "EAS_Pause returned %ld", (long)r); memset(G.snd, 0, GK); memset(G.over, 0, 3); memset(G.dying, 0, 3); for (int i = 0; i < 4; i++) sut_render(); MC_CHECK(pcm_silent(), "pause", "a paused stream sounds"); EAS_Resume(E, F); sut_render(); return; }
    if (o > 2 * GK) { int c = o - 2 * GK - 2; sut_w3(H, 0xb0 | c, c ? 120 : 123, 0); for (int i = 0; i < GK; i++) if (GC[i] == c && G.snd[i]) { G.snd[i] = 0; G.dying[SC[scen].grp[c]]++; } gcount(); return; }
    int i = o % GK;
    if (o < GK) { sut_w3(H, 0x90 | GC[i], GKEY[i], 127); G.snd[i] = 1; } else { sut_w3(H, 0x80 | GC[i], GKEY[i], 0); G.snd[i] = 0; G.dying[SC[scen].grp[GC[i]]]++; }
    gcount();
}
static void gsetup(void) {
    memset(&G, 0, sizeof G); sut_init(); sut_dry(); sut_dls(NULL, &gbank);
    if (gslot) sut_midi();
    F = sut_open(sut_file(&ff[0], &fm[0], quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H, F); sut_render();
    if (scen >= 0) { EAS_SetPolyphony(E, F, SC[scen].lim); sut_write(H, SC[scen].b, SC[scen].len); }
}
/* ---- a note is played although the voice it gets belonged to a channel that the table has muted since ---- */
#define WK 4
static const u8 WS[WK] = { 0, 0, 1, 1 }, WC[WK] = { 0, 1, 0, 9 }, WKEY[WK] = { 60, 61, 63, 62 };
static const char *const WT[] = { "table 0:1 1:2", "table 1:1 0:9", "table 0:1 1:9", "GM on" };
static bytes wbank; static int wlev[WK];
static struct { u8 down[WK], may[WK]; int last, tab; } W;
enum { WOFF = WK, WTAB = 2 * WK, WREND = WTAB + 4, WSETTLE, WLIM, WOPS = WLIM + 2 };
static const char *wname(int o) { static char b[50]; if (o >= WREND) return (const char *[]){ "render", "settle", "voice limit 2", "voice limit 3" }[o - WREND]; if (o >= WTAB) return WT[o - WTAB]; snprintf(b, sizeof b, "note %s stream %d ch %d", o < WK ? "on" : "off", WS[o % WK], WC[o % WK]); return b; }
static int wplays(int i) { return WS[i] || !(W.tab == 1 ? WC[i] == 0 : W.tab == 2 ? WC[i] == 1 : 0); }
static int wenabled(int o, int at) { (void)at; return o < WK ? !W.down[o] : o < WTAB ? W.down[o - WK] : 1; }
static void wcheck(void) {
    for (int i = 0; i < 70; i++) sut_render();
    int v = sut_last(0); u8 t[WK]; for (int i = WK - 1; i >= 0; i--) { t[i] = v > wlev[i] - wlev[0] / 2; if (t[i]) v -= wlev[i]; }
    MC_CHECK(v > -wlev[0] / 2 && v < wlev[0] / 2, "level", "the output is not a sum of notes: %d left", v);
    for (int i = 0; i < WK; i++) MC_CHECK(!t[i] || W.may[i], "extra", "stream %d ch %d sounds", WS[i], WC[i]);
    if (W.last >= 0) MC_CHECK(t[W.last], "newest", "the note started last, stream %d ch %d, does not sound", WS[W.last], WC[W.last]);
    memcpy(W.may, t, WK);
}
static void wapply(int o) {
    if (o < WK) { sut_w3(WS[o] ? H2 : H, 0x90 | WC[o], WKEY[o], 127); W.down[o] = 1; if (wplays(o)) { W.may[o] = 1; W.last = o; } }
    else if (o < WTAB) { o -= WK; sut_w3(WS[o] ? H2 : H, 0x80 | WC[o], WKEY[o], 0); W.down[o] = W.may[o] = 0; if (W.last == o) W.last = -1; }
    else if (o < WREND) {
        static const u8 T[4][12] = { { 0xf0,0x7f,0x7f,0x0b,1, 0,1, 1,2, 0xf7 }, { 0xf0,0x7f,0x7f,0x0b,1, 1,1, 0,9, 0xf7 }, { 0xf0,0x7f,0x7f,0x0b,1, 0,1, 1,9, 0xf7 }, { 0xf0,0x7e,0x7f,9,1,0xf7 } };
        sut_write(H, T[o - WTAB], o == WTAB + 3 ? 6 : 10); W.tab = o - WTAB;
        for (int i = 0; i < WK; i++) if (!WS[i] && (W.tab == 3 || !wplays(i))) { W.may[i] = 0; if (W.last == i) W.last = -1; }
    } else if (o == WREND) sut_render(); else if (o == WSETTLE) wcheck();
    else { EAS_RESULT r = EAS_SetSynthPolyphony(E, 0, 2 + o - WLIM); MC_CHECK(r == EAS_SUCCESS, "call", "EAS_SetSynthPolyphony returned %ld", (long)r); if (o == WLIM) W.last = -1; }
}
static void wsetup(void) {
    memset(&W, 0, sizeof W); W.last = -1; sut_init(); sut_dry(); sut_dls(NULL, &wbank);
    F = sut_open(sut_file(&ff[0], &fm[0], quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H, F);
    F2 = sut_open(sut_file(&ff[1], &fm[1], quiet.b, quiet.n)); EAS_OpenMIDIStream(E, &H2, F2);
    sut_render(); EAS_SetSynthPolyphony(E, 0, 2);
}
void mc_body(void) {
    smf_head(&quiet, 0, 1, 96); int m = smf_trk(&quiet); smf_eot(&quiet, 1000000); smf_endtrk(&quiet, m);
    static const dc_note t[] = { { 0, 0, 60, 60, 500 }, { 0, 0, 61, 61, 1100 }, { 0, 0, 63, 63, 4700 }, { 0x80000000u, 0, 62, 62, 2300 } };
    dc_bank(&bank, t, 4, dls_flat, dls_nflat);
    static dc_note gt[GK]; for (int i = 0; i < GK; i++) gt[i] = (dc_note){ 0, 0, GKEY[i], GKEY[i], 80 << i, 0, 0 };
    dc_bank(&gbank, gt, GK, dls_flat, dls_nflat);
    calibrate();
    { mc_snap *s = mc_save(NULL); int *k = mc_big(sizeof glev); scen = -1; gsetup(); for (int i = 0; i < GK; i++) { sut_w3(H, 0x90 | GC[i], GKEY[i], 127); sut_render(); sut_render(); k[i] = sut_last(0); sut_w3(H, 0x80 | GC[i], GKEY[i], 0); sut_render(); sut_render(); } mc_restore(s); memcpy(glev, k, sizeof glev); mc_snap_free(s); }
    static d_conn wc[16]; memcpy(wc, dls_flat, (size_t)dls_nflat * sizeof *wc); for (int i = 0; i < dls_nflat; i++) if (wc[i].dst == 0x209) wc[i].scale = -3700 * 65536;
    static dc_note wt[WK]; for (int i = 0; i < WK; i++) wt[i] = (dc_note){ WC[i] == 9 ? 0x80000000u : 0, 0, WKEY[i], WKEY[i], 200 * (1 << 2 * i), 0, 0 };
    dc_bank(&wbank, wt, WK, wc, dls_nflat);
    { mc_snap *s = mc_save(NULL); int *k = mc_big(sizeof wlev); wsetup(); for (int i = 0; i < WK; i++) { sut_w3(WS[i] ? H2 : H, 0x90 | WC[i], WKEY[i], 127); sut_render(); sut_render(); k[i] = sut_last(0); sut_w3(WS[i] ? H2 : H, 0x80 | WC[i], WKEY[i], 0); for (int j = 0; j < 70; j++) sut_render(); MC_CHECK(pcm_silent() && k[i] > 50, "calibration", "level %d, %d left", k[i], sut_last(0)); } mc_restore(s); memcpy(wlev, k, sizeof wlev); mc_snap_free(s); }
    int d = mc_thorough ? 6 : 5, gd = mc_thorough ? 8 : 6;
    mc_bound("every sequence of %d messages, notes on 4 channels, 5 polyphonies, 4 voice limits, stream volumes, restart, another stream up to depth %d; 4 SP-MIDI tables x every sequence of 7 notes on and off, all notes or sound off, the table repeated, pauses, all notes at once up to depth %d, in the first and second synthesizer", NM, d, gd);
    mc_assume("notes are only started while the limits leave room for them, except where shares of channels are checked");
    mc_model x = { .name = "messages", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    mc_explore(&x);
    mc_model y = { .nops = 2 * GK + 6, .depth = gd, .setup = gsetup, .enabled = genabled, .apply = gapply, .leaf = gcheck, .opname = gname, .dedupe = 1 };
    for (scen = 0; scen < 4; scen++) { y.name = SC[scen].n; gslot = scen & 1; mc_explore(&y); }
    mc_model z = { .name = "released notes", .nops = WOPS, .depth = mc_thorough ? 8 : 6, .setup = wsetup, .enabled = wenabled, .apply = wapply, .leaf = wcheck, .opname = wname, .dedupe = 1 };
    mc_explore(&z);
}
