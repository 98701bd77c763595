/* C14: settings. Every setting keeps the value it was last given, for its own stream only, whatever else happens; a value
 * that is refused, or given when it cannot be, changes nothing at all; asking changes nothing either. */
#include "sut.h"
const char mc_property[] = "C14";
static bytes song[2], bank; static EAS_FILE ef[2], eb; static mc_file mf[2], mb; static EAS_HANDLE S[2], L;
static struct { int ready, paused; i64 vol, poly, prio, rep, type; } st[2];
static struct { i64 vol, synth, fx[2][5]; u64 frames; } g;
static int clean;   /* the last operation was a refused one */

enum { VOL, POLY, PRIO, REP, TRN, RATE, MVOL, SYN, FX, PCMS, MODE, PREP, PAUSE, RESUME, SEEK0, SEEK1, REND, REND9, META, DLS, MSG, LVOL, NKIND };
typedef struct { int k, s; i64 v, w, x; } op;
static op ops[400]; static int nops;
static void add(int k, int s, i64 v, i64 w, i64 x) { ops[nops++] = (op){ k, s, v, w, x }; }
static const char *KN[] = { "volume", "polyphony", "priority", "repeat", "transposition", "rate", "master volume", "synth polyphony", "effect", "PCM streams", "play mode", "prepare", "pause", "resume", "seek to 0", "seek to 50", "render 1", "render 9", "metadata", "load DLS", "GM reset message", "volume of the live stream" };
static const char *opname(int o) {
    static char b[80]; const op *q = &ops[o];
    if (q->k == FX) snprintf(b, sizeof b, "effect %lld param %lld = %lld", (long long)q->w, (long long)q->x, (long long)q->v);
    else if (q->k == SYN) snprintf(b, sizeof b, "synth %lld polyphony = %lld", (long long)q->w, (long long)q->v);
    else if (q->k <= RATE || q->k == PCMS || q->k == MODE) snprintf(b, sizeof b, "%s of %c = %lld", KN[q->k], 'A' + q->s, (long long)q->v);
    else if (q->k == MVOL || q->k == LVOL) snprintf(b, sizeof b, "%s = %lld", KN[q->k], (long long)q->v);
    else snprintf(b, sizeof b, "%s %c", KN[q->k], 'A' + q->s);
    return b;
}
static const struct { int mod, par; i64 lo, hi; const char *n; } FXP[] = {
    { EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, 0, 1, "reverb bypass" }, { EAS_MODULE_REVERB, EAS_PARAM_REVERB_PRESET, 0, 3, "reverb preset" },
    { EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, 0, 32767, "reverb wet level" }, { EAS_MODULE_REVERB, EAS_PARAM_REVERB_DRY, 0, 32767, "reverb dry level" },
    { EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_BYPASS, 0, 1, "chorus bypass" }, { EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_PRESET, 0, 3, "chorus preset" },
    { EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_RATE, 10, 50, "chorus rate" }, { EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_DEPTH, 15, 60, "chorus depth" }, { EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_LEVEL, 0, 32767, "chorus level" } };
#define NFX ((int)(sizeof FXP / sizeof *FXP))
static i64 fxget(int i) {
    EAS_I32 v = -77; EAS_RESULT r = EAS_GetParameter(E, FXP[i].mod, FXP[i].par, &v);
    MC_CHECK(r == EAS_SUCCESS, "effect-get", "EAS_GetParameter(%s) returned %ld", FXP[i].n, (long)r); return v;
}
static i64 *fxm(int i) { return i < 4 ? &g.fx[0][i] : &g.fx[1][i - 4]; }
static void look(const char *after) {
    EAS_I32 v; EAS_RESULT r;
    for (int s = 0; s < 2; s++) {
        int ok = st[s].ready;
#define GET(F, want, key) do { v = -77; r = F(E, S[s], &v); \
        if (ok) MC_CHECK(r == EAS_SUCCESS && (i64)v == (want), key, "after %s: " #F " of stream %c reports %ld (result %ld), set is %lld", after, 'A' + s, (long)v, (long)r, (long long)(want)); \
        else MC_CHECK(r != EAS_SUCCESS, key, "after %s: " #F " of stream %c, which is not prepared, succeeded", after, 'A' + s); } while (0)
        GET(EAS_GetPolyphony, st[s].poly, "polyphony"); GET(EAS_GetPriority, st[s].prio, "priority"); GET(EAS_GetFileType, st[s].type, "type");
        i64 vol = EAS_GetVolume(E, S[s]);
        if (ok) MC_CHECK(vol == st[s].vol, "volume", "after %s: EAS_GetVolume of stream %c reports %lld, set is %lld", after, 'A' + s, (long long)vol, (long long)st[s].vol);
        else MC_CHECK(vol < 0, "volume", "after %s: EAS_GetVolume of stream %c, which is not prepared, returned %lld", after, 'A' + s, (long long)vol);
        v = -77; r = EAS_GetRepeat(E, S[s], &v);
        MC_CHECK(r == EAS_SUCCESS && v == st[s].rep, "repeat", "after %s: EAS_GetRepeat of stream %c reports %ld, set is %lld", after, 'A' + s, (long)v, (long long)st[s].rep);
    }
    i64 mv = EAS_GetVolume(E, NULL); MC_CHECK(mv == g.vol, "master", "after %s: the master volume reported is %lld, set is %lld", after, (long long)mv, (long long)g.vol);
    v = -77; r = EAS_GetSynthPolyphony(E, 0, &v); MC_CHECK(r == EAS_SUCCESS && v == g.synth, "synth", "after %s: the synthesizer polyphony reported is %ld, set is %lld", after, (long)v, (long long)g.synth);
    r = EAS_GetSynthPolyphony(E, 1, &v); MC_CHECK(r != EAS_SUCCESS, "synth", "EAS_GetSynthPolyphony(1) succeeded"); r = EAS_GetSynthPolyphony(E, -1, &v); MC_CHECK(r != EAS_SUCCESS, "synth", "EAS_GetSynthPolyphony(-1) succeeded");
    for (int i = 0; i < NFX; i++) { i64 x = fxget(i); MC_CHECK(x == *fxm(i), "effect", "after %s: %s reported is %lld, set is %lld", after, FXP[i].n, (long long)x, (long long)*fxm(i)); }
    v = -77; r = EAS_GetRenderTime(E, &v); double want = (double)g.frames * FRAME * 1000.0 / (double)EAS_Config()->sampleRate;
    MC_CHECK(r == EAS_SUCCESS && (double)v <= want + 0.5 && (double)v >= want - 1.5 - 0.002 * (double)g.frames, "render-time", "after %s: render time %ld, rendered %.1f ms", after, (long)v, want);
}
static void apply(int o) {
    const op *q = &ops[o]; int s = q->s; EAS_RESULT r = EAS_SUCCESS; int ok = st[s].ready, want = 1, judge = 1; u64 h = mc_hash_impl(); const char *nm = opname(o); char n[80]; snprintf(n, sizeof n, "%s", nm);
    switch (q->k) {
    case VOL: r = EAS_SetVolume(E, S[s], (EAS_I32)q->v); want = ok && q->v >= 0 && q->v <= 100; if (want) st[s].vol = q->v; break;
    case POLY: r = EAS_SetPolyphony(E, S[s], (EAS_I32)q->v); want = ok && q->v >= 0; if (want) st[s].poly = q->v > 64 ? 0 : q->v; break;
    case PRIO: r = EAS_SetPriority(E, S[s], (EAS_I32)q->v); want = ok; if (want) st[s].prio = q->v; break;
    case REP: r = EAS_SetRepeat(E, S[s], (EAS_I32)q->v); st[s].rep = q->v; break;
    case TRN: r = EAS_SetTransposition(E, S[s], (EAS_I32)q->v); want = ok && q->v >= -12 && q->v <= 12; break;
    case RATE: r = EAS_SetPlaybackRate(E, S[s], (EAS_U32)q->v); want = q->v >= 1 << 27 && q->v <= 1 << 29; break;
    case MVOL: r = EAS_SetVolume(E, NULL, (EAS_I32)q->v); want = q->v >= 0 && q->v <= 100; if (want) g.vol = q->v; break;
    case SYN: r = EAS_SetSynthPolyphony(E, (EAS_I32)q->w, (EAS_I32)q->v); want = q->w == 0; if (want) g.synth = q->v < 1 ? 1 : q->v > 64 ? 64 : q->v; break;
    case FX: {
        r = EAS_SetParameter(E, (EAS_I32)q->w, (EAS_I32)q->x, (EAS_I32)q->v); want = 0;
        for (int i = 0; i < NFX; i++) if (FXP[i].mod == q->w && FXP[i].par == q->x && q->v >= FXP[i].lo && q->v <= FXP[i].hi) {
            want = 1; *fxm(i) = q->v;
            /* a preset brings its own levels */
            if (i == 1) { g.fx[0][2] = fxget(2); g.fx[0][3] = fxget(3); }
            if (i == 5) for (int k = 2; k < 5; k++) g.fx[1][k] = fxget(4 + k);
        }
        break; }
    case PCMS: r = EAS_SetMaxPCMStreams(E, S[s], (EAS_I32)q->v); want = 0; break;
    case MODE: r = EAS_SetPlayMode(E, S[s], (EAS_I32)q->v); want = 0; break;
    case LVOL: r = EAS_SetVolume(E, L, (EAS_I32)q->v); want = 0; break;
    case PREP: r = EAS_Prepare(E, S[s]); want = !ok; if (want) { st[s].ready = 1; st[s].vol = 100; st[s].prio = 5; st[s].poly = 0; } break;
    case PAUSE: r = EAS_Pause(E, S[s]); judge = 0; break;
    case RESUME: r = EAS_Resume(E, S[s]); judge = 0; break;
    case SEEK0: r = EAS_Locate(E, S[s], 0, EAS_FALSE); judge = 0; break;
    case SEEK1: r = EAS_Locate(E, S[s], 50, EAS_FALSE); judge = 0; break;
    case REND: case REND9: for (int i = q->k == REND ? 1 : 9; i; i--) { sut_render(); g.frames++; } break;
    case META: { EAS_I32 d; r = EAS_ParseMetaData(E, S[s], &d); judge = 0; break; }
    case DLS: r = EAS_LoadDLSCollection(E, S[s], sut_file(&eb, &mb, bank.b, bank.n)); judge = 0; break;
    case MSG: { static const u8 gm[] = { 0xf0, 0x7e, 0x7f, 9, 1, 0xf7, 0x90, 60, 100 }; sut_write(L, gm, sizeof gm); break; }
    }
    if (judge && want) MC_CHECK(r == EAS_SUCCESS, "refused", "%s: refused with %ld", n, (long)r);
    if (judge && !want) {
        MC_CHECK(r != EAS_SUCCESS, "accepted", "%s: accepted%s", n, ok ? "" : " (the stream is not prepared)");
        MC_CHECK(h == mc_hash_impl(), "side-effect", "%s: refused with %ld, but the state of the library has changed", n, (long)r);
    }
    for (int i = 0; i < 2; i++) if (q->k >= REND && q->k <= REND9 && st[i].rep) { EAS_I32 v = 0; EAS_GetRepeat(E, S[i], &v); MC_CHECK(st[i].rep < 0 ? v == st[i].rep : v >= 0 && v <= st[i].rep, "repeat", "%s: repeat count of stream %c went from %lld to %ld", n, 'A' + i, (long long)st[i].rep, (long)v); st[i].rep = v; }
    look(n); u64 h2 = mc_hash_impl(); look(n);    /* (asking may bring a pending state change to light, once) */
    MC_CHECK(h2 == mc_hash_impl(), "asking", "after %s: asking for settings changed the state of the library", n);
}
static int enabled(int o, int at) { (void)at; return ops[o].k != PREP || !st[ops[o].s].ready; }
static void setup(void) {
    memset(st, 0, sizeof st); memset(&g, 0, sizeof g); sut_init(); g.vol = 90;
    for (int s = 0; s < 2; s++) { st[s].type = s ? EAS_FILE_SMF1 : EAS_FILE_SMF0; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef[s], &mf[s], song[s].b, song[s].n), &S[s]); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenFile returned %ld", (long)r); }
    L = sut_midi(); g.synth = 64; for (int i = 0; i < NFX; i++) *fxm(i) = fxget(i);
    MC_CHECK(EAS_GetVolume(E, NULL) == 90, "default", "harness: default master volume");
    EAS_I32 v; EAS_GetSynthPolyphony(E, 0, &v); g.synth = v; MC_CHECK(v > 0, "default", "harness: default polyphony");
}
static void setup2(void) { setup(); for (int o = 0; o < nops; o++) if (ops[o].k == PREP) apply(o); }
static void setup3(void) { setup2(); for (int i = 0; i < 30; i++) { sut_render(); g.frames++; } }
void mc_body(void) {
    for (int s = 0; s < 2; s++) {
        smf_head(&song[s], s, s + 1, 96); int m = smf_trk(&song[s]); smf_ev3(&song[s], 0, 0x90, 60, 100); smf_ev3(&song[s], 24, 0x80, 60, 0); smf_eot(&song[s], 0); smf_endtrk(&song[s], m);
        if (s) { m = smf_trk(&song[s]); smf_ev3(&song[s], 3, 0x99, 40, 100); smf_eot(&song[s], 10); smf_endtrk(&song[s], m); }
    }
    static const dc_note dn[] = { { 0, 0, 60, 60, 1000, 0, 0 } }; dc_bank(&bank, dn, 1, dls_flat, dls_nflat);
    static const i64 vv[] = { -1, 0, 10, 55, 100, 101, 300, 256 }, pv[] = { -1, 0, 1, 7, 64, 65, 70000 }, rv[] = { 0, 1, 50, 255 }, qv[] = { 0, 1, 3, -1 }, tv[] = { -13, -12, 5, 12, 13, 256 },
        av[] = { 0, (1 << 27) - 1, 1 << 27, 300000000, 1 << 29, (1 << 29) + 1 }, sv[] = { -3, 0, 1, 9, 64, 65 };
#define N(a) ((int)(sizeof a / sizeof *a))
    for (int s = 0; s < 2; s++) {
        for (int i = 0; i < N(vv); i++) add(VOL, s, vv[i], 0, 0);
        for (int i = 0; i < N(pv); i++) add(POLY, s, pv[i], 0, 0);
        for (int i = 0; i < N(rv); i++) add(PRIO, s, rv[i], 0, 0);
        for (int i = 0; i < N(qv); i++) add(REP, s, qv[i], 0, 0);
        for (int i = 0; i < N(tv); i++) add(TRN, s, tv[i], 0, 0);
        for (int i = 0; i < N(av); i++) add(RATE, s, av[i], 0, 0);
        add(PCMS, s, 1, 0, 0); add(MODE, s, 1, 0, 0);
        for (int k = PREP; k <= DLS; k++) if (k != REND && k != REND9) add(k, s, 0, 0, 0);
    }
    for (int i = 0; i < N(vv); i++) add(MVOL, 0, vv[i], 0, 0);
    for (int i = 0; i < N(sv); i++) add(SYN, 0, sv[i], 0, 0);
    add(SYN, 0, 5, 1, 0); add(SYN, 0, 5, -1, 0); add(LVOL, 0, 50, 0, 0); add(REND, 0, 0, 0, 0); add(REND9, 0, 0, 0, 0); add(MSG, 0, 0, 0, 0);
    for (int i = 0; i < NFX; i++) { add(FX, 0, FXP[i].lo, FXP[i].mod, FXP[i].par); add(FX, 0, FXP[i].hi, FXP[i].mod, FXP[i].par); if (FXP[i].hi > 1) { add(FX, 0, (FXP[i].lo + FXP[i].hi) / 2, FXP[i].mod, FXP[i].par); add(FX, 0, FXP[i].lo - 1, FXP[i].mod, FXP[i].par); add(FX, 0, FXP[i].hi + 1, FXP[i].mod, FXP[i].par); } }
    add(FX, 0, 1, -1, 0); add(FX, 0, 1, 0, 0); add(FX, 0, 1, 4, 0); add(FX, 0, 1, 1000000, 0); add(FX, 0, 1, EAS_MODULE_REVERB, 99); add(FX, 0, 1, EAS_MODULE_CHORUS, -1);
    int d = 3;
    mc_bound("every sequence of up to %d out of %d operations (all settings with values at, inside and outside their borders, for two files and the whole instance, 9 effect parameters; prepare, pause, resume, seek, measure, load DLS, render, GM reset) from fresh files, and up to %d from prepared files and files played to their end", d, nops, mc_thorough ? 3 : 2);
    mc_model m = { .name = "fresh files", .nops = nops, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .opname = opname, .dedupe = 1 };
    mc_explore(&m);
    if (!mc_thorough) m.depth = 2;
    m.name = "prepared files"; m.setup = setup2; mc_explore(&m);
    m.name = "played files"; m.setup = setup3; mc_explore(&m);
}
