/* C08: the life cycle of streams. Every sequence of opening, preparing, using and closing file and live streams. */
#include "sut.h"
const char mc_property[] = "C08";
#define NS 4                        /* streams an instance promises */
enum { FREE, OPENED, READY, LIVE, BROKEN };    /* BROKEN: preparing failed for lack of memory, the stream can only be closed */
typedef struct { u8 kind, syn, note, fresh; EAS_HANDLE h; } slot;   /* fresh: the note began in this frame and plays at least one */
#define MK(k, s, h) (slot){ k, s, 0, 0, h }
      /* syn: index of the synthesiser it uses, +1 */
static slot S[NS]; static u8 users[NS + 1], fnote[NS + 1], started[NS];
static bytes bank, song, junk, hdr; static int level[2][NS], flevel;      /* level: on a synthesiser of its own, on a file's */
static u8 filesyn[NS + 1];
/* C03 builds on this file: during an operation the F-th allocation may be made to fail */
static int F;
static int arm(void) { mc_alloc_reset(); mc_fail_at(F); return 1; }
static int failed(EAS_RESULT r) { int t = F && mc_alloc_calls() >= F; mc_fail_at(0); F = 0; if (t) MC_CHECK(r != EAS_SUCCESS, "failure-ignored", "an allocation failed, the call reports success"); return t; }
#ifndef C03
#define F_RESTART() 0
#endif
static EAS_FILE files[8]; static mc_file mems[8]; static int nf;
enum { OPEN, OPENJUNK, OPENHDR, LIVE_, LIVEON0, PREP0 = LIVEON0 + NS, CLOSE0 = PREP0 + NS, NOTE0 = CLOSE0 + NS, WRONG = NOTE0 + NS, RENDER, RESTART, NOPS };
static const char *opname(int o) {
    static char b[48];
    switch (o) { case OPEN: return "open file"; case OPENJUNK: return "open something else"; case OPENHDR: return "open a bare header"; case LIVE_: return "open live stream"; case WRONG: return "calls that do not fit the state"; case RENDER: return "render"; case RESTART: return "shut down and start again"; }
    if (o < PREP0) snprintf(b, sizeof b, "open live stream on stream %d", o - LIVEON0); else if (o < CLOSE0) snprintf(b, sizeof b, "prepare %d", o - PREP0);
    else if (o < NOTE0) snprintf(b, sizeof b, "close %d", o - CLOSE0); else snprintf(b, sizeof b, "note on/off %d", o - NOTE0);
    return b;
}
static int freeslot(void) { for (int i = 0; i < NS; i++) if (S[i].kind == FREE) return i; return -1; }
static int newsyn(void) { for (int i = 1; i <= NS; i++) if (!users[i]) { fnote[i] = filesyn[i] = 0; return i; } mc_fail("harness", "synths"); }
static void start(void) { sut_init(); sut_dry(); sut_dls(NULL, &bank); }
static void setup(void) { memset(S, 0, sizeof S); memset(users, 0, sizeof users); memset(fnote, 0, sizeof fnote); memset(filesyn, 0, sizeof filesyn); memset(started, 0, sizeof started); start(); }
static int enabled(int o, int at) {
    (void)at;
    if (o >= LIVEON0 && o < PREP0) return S[o - LIVEON0].kind == READY || S[o - LIVEON0].kind == OPENED;
    if (o >= PREP0 && o < CLOSE0) return S[o - PREP0].kind == OPENED || S[o - PREP0].kind == READY;
    if (o >= CLOSE0 && o < NOTE0) return S[o - CLOSE0].kind != FREE && !(users[S[o - CLOSE0].syn] > 1 && (S[o - CLOSE0].note || S[o - CLOSE0].fresh));   /* what happens to held notes on a shared synthesiser is not stated */
    if (o >= NOTE0 && o < WRONG) return S[o - NOTE0].kind == LIVE && !S[o - NOTE0].fresh;
    return 1;
}
static EAS_RESULT open_(const bytes *b, EAS_HANDLE *h) {
    int k = nf++ % 8; *h = (EAS_HANDLE)8; return EAS_OpenFile(E, sut_file(&files[k], &mems[k], b->b, b->n), h);
}
static void leave(int k) { int s = S[k].syn; if (s && --users[s] == 0) { for (int i = 0; i < NS; i++) if (S[i].syn == s) S[i].note = 0; fnote[s] = 0; } memset(&S[k], 0, sizeof S[k]); started[k] = 0; }
static void full(EAS_RESULT r) { MC_CHECK(r != EAS_SUCCESS, "max-streams", "more streams than the instance has could be opened"); }
static void states(void) {
    for (int i = 0; i < NS; i++) {
        if (S[i].kind == FREE) continue;
        EAS_STATE st = -7; EAS_RESULT r = EAS_State(E, S[i].h, &st);
        if (S[i].kind == LIVE) { MC_CHECK(r != EAS_SUCCESS, "live-state", "EAS_State of a live stream succeeded"); continue; }
        MC_CHECK(r == EAS_SUCCESS, "state", "EAS_State of stream %d returned %ld", i, (long)r);
        if (S[i].kind == BROKEN) MC_CHECK(st == EAS_STATE_ERROR, "state", "stream %d could not be prepared, its state is %ld", i, (long)st);
        else if (S[i].kind == OPENED) MC_CHECK(st == EAS_STATE_OPEN, "state", "stream %d is open, its state is %ld", i, (long)st);
        else MC_CHECK(st == (started[i] ? EAS_STATE_PLAY : EAS_STATE_READY), "state", "stream %d is %s, its state is %ld", i, started[i] ? "playing" : "prepared", (long)st);
        for (int j = 0; j < i; j++) MC_CHECK(S[j].kind == FREE || S[j].h != S[i].h, "handles", "two open streams have the same handle");
    }
}
static void apply(int o) {
    EAS_RESULT r; EAS_HANDLE h = NULL; int k = freeslot();
    if (o == OPEN) { arm(); r = open_(&song, &h); if (failed(r)) { states(); return; } if (k < 0) { full(r); return; } MC_CHECK(r == EAS_SUCCESS && h, "open", "EAS_OpenFile with %d streams open returned %ld", NS - (k < 0 ? 0 : NS - k), (long)r); S[k] = MK(OPENED, 0, h); }
    else if (o == OPENJUNK) { arm(); r = open_(&junk, &h); failed(r); MC_CHECK(r != EAS_SUCCESS, "open-junk", "EAS_OpenFile of something else than music succeeded"); }
    else if (o == OPENHDR) { arm(); r = open_(&hdr, &h); failed(r); if (r == EAS_SUCCESS) { EAS_RESULT p = EAS_Prepare(E, h); MC_CHECK(p != EAS_SUCCESS || k >= 0, "prepare-header", "preparing returned %ld", (long)p); p = EAS_CloseFile(E, h); MC_CHECK(p == EAS_SUCCESS, "close", "EAS_CloseFile returned %ld", (long)p); } }
    else if (o == LIVE_) { arm(); r = EAS_OpenMIDIStream(E, &h, NULL); if (failed(r)) { states(); return; } if (k < 0) { full(r); return; } MC_CHECK(r == EAS_SUCCESS && h, "open-live", "EAS_OpenMIDIStream returned %ld", (long)r); int s = newsyn(); users[s] = 1; S[k] = MK(LIVE, (u8)s, h); }
    else if (o >= LIVEON0 && o < PREP0) {
        slot *f = &S[o - LIVEON0]; arm(); r = EAS_OpenMIDIStream(E, &h, f->h); if (failed(r)) { states(); return; }
        if (k < 0) { full(r); return; }
        if (f->kind == OPENED) { MC_CHECK(r != EAS_SUCCESS, "open-on-unprepared", "a live stream on a file that is not prepared was opened"); return; }
        MC_CHECK(r == EAS_SUCCESS && h, "open-on", "EAS_OpenMIDIStream on a prepared file returned %ld", (long)r); users[f->syn]++; S[k] = MK(LIVE, f->syn, h);
    }
    else if (o >= PREP0 && o < CLOSE0) { slot *f = &S[o - PREP0]; arm(); r = EAS_Prepare(E, f->h); if (failed(r)) { EAS_STATE st = -1; EAS_State(E, f->h, &st); if (f->kind == OPENED && st == EAS_STATE_ERROR) f->kind = BROKEN; states(); return; } if (f->kind == READY) MC_CHECK(r != EAS_SUCCESS, "prepare-twice", "a file could be prepared twice"); else { MC_CHECK(r == EAS_SUCCESS, "prepare", "EAS_Prepare returned %ld", (long)r); int s = newsyn(); users[s] = filesyn[s] = 1; f->syn = (u8)s; f->kind = READY; } }
    else if (o >= CLOSE0 && o < NOTE0) { slot *f = &S[o - CLOSE0]; r = f->kind == LIVE ? EAS_CloseMIDIStream(E, f->h) : EAS_CloseFile(E, f->h); MC_CHECK(r == EAS_SUCCESS, "close", "closing stream %d returned %ld", o - CLOSE0, (long)r); leave(o - CLOSE0); }
    else if (o >= NOTE0 && o < WRONG) { int i = o - NOTE0; u8 m[5] = { (u8)(0xc0 | i), (u8)i, (u8)(0x90 | i), 60, (u8)(S[i].note ? 0 : 127) }; sut_write(S[i].h, m, 5); S[i].note ^= 1; S[i].fresh = S[i].note; }
    else if (o == WRONG) {
        EAS_I32 v; 
        for (int i = 0; i < NS; i++) if (S[i].kind == OPENED || S[i].kind == LIVE || S[i].kind == BROKEN) {
            h = S[i].h; const char *w = S[i].kind == LIVE ? "a live stream" : "a file that is not prepared";
            r = EAS_Locate(E, h, 50, EAS_FALSE); MC_CHECK(r != EAS_SUCCESS, "wrong-locate", "EAS_Locate of %s succeeded", w);
            r = EAS_GetLocation(E, h, &v); MC_CHECK(r != EAS_SUCCESS, "wrong-location", "EAS_GetLocation of %s succeeded", w);
            r = EAS_Pause(E, h); MC_CHECK(r != EAS_SUCCESS, "wrong-pause", "EAS_Pause of %s succeeded", w);
            r = EAS_Resume(E, h); MC_CHECK(r != EAS_SUCCESS, "wrong-resume", "EAS_Resume of %s succeeded", w);
            r = EAS_SetVolume(E, h, 10); MC_CHECK(r != EAS_SUCCESS, "wrong-volume", "EAS_SetVolume of %s succeeded", w);
            r = EAS_SetTransposition(E, h, 3); MC_CHECK(r != EAS_SUCCESS, "wrong-transposition", "EAS_SetTransposition of %s succeeded", w);
            r = EAS_SetPolyphony(E, h, 3); MC_CHECK(r != EAS_SUCCESS, "wrong-polyphony", "EAS_SetPolyphony of %s succeeded", w);
            r = EAS_SetPriority(E, h, 3); MC_CHECK(r != EAS_SUCCESS, "wrong-priority", "EAS_SetPriority of %s succeeded", w);
            r = EAS_ParseMetaData(E, h, &v); MC_CHECK(r != EAS_SUCCESS, "wrong-metadata", "EAS_ParseMetaData of %s succeeded", w);
            r = EAS_GetNoteCount(E, h, &v); MC_CHECK(r != EAS_SUCCESS, "wrong-notecount", "EAS_GetNoteCount of %s succeeded", w);
            if (S[i].kind == LIVE) { r = EAS_Prepare(E, h); MC_CHECK(r != EAS_SUCCESS, "wrong-prepare", "EAS_Prepare of a live stream succeeded"); r = EAS_CloseFile(E, h); MC_CHECK(r != EAS_SUCCESS, "wrong-close", "EAS_CloseFile of a live stream succeeded"); r = EAS_WriteMIDIStream(E, h, (EAS_U8 *)"", 0); MC_CHECK(r != EAS_SUCCESS, "wrong-write", "an empty write succeeded"); }
        } else if (S[i].kind == READY) { r = EAS_SetVolume(E, S[i].h, 101); MC_CHECK(r != EAS_SUCCESS, "wrong-value", "volume 101 accepted"); r = EAS_SetVolume(E, S[i].h, -1); MC_CHECK(r != EAS_SUCCESS, "wrong-value", "volume -1 accepted"); r = EAS_SetTransposition(E, S[i].h, 13); MC_CHECK(r != EAS_SUCCESS, "wrong-value", "transposition 13 accepted"); }
    }
    else if (o == RENDER) {
        sut_render(); int want = 0;
        for (int i = 0; i < NS; i++) { S[i].fresh = 0; if (S[i].kind == LIVE && S[i].note) want += level[filesyn[S[i].syn]][i]; if (S[i].kind == READY && !started[i]) { started[i] = 1; fnote[S[i].syn]++; } }
        for (int s = 1; s <= NS; s++) if (users[s] && fnote[s]) want += flevel;
        for (int side = 0; side < 2; side++) { int d = sut_last(side) - want; if (d < 0) d = -d; MC_CHECK(d <= 24, "sounding", "the open streams' notes add up to %d, the output is %d", want, sut_last(side)); }
    }
    else if (o == RESTART) { r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "EAS_Shutdown returned %ld", (long)r); MC_CHECK(mc_live() == 0, "leak", "%ld blocks are still allocated after EAS_Shutdown", mc_live()); if (F_RESTART()) return; setup(); }
    states();
}
/* closing everything leaves an instance that is as good as new */
static void leaf(void) {
    EAS_RESULT r; EAS_HANDLE h[NS];
    for (int i = NS - 1; i >= 0; i--) if (S[i].kind) { r = S[i].kind == LIVE ? EAS_CloseMIDIStream(E, S[i].h) : EAS_CloseFile(E, S[i].h); MC_CHECK(r == EAS_SUCCESS, "close", "closing stream %d returned %ld", i, (long)r); S[i].kind = FREE; }
    sut_render(); sut_render(); MC_CHECK(pcm_silent(), "sound-after-close", "sound remains after every stream was closed");
    for (int i = 0; i < NS; i++) { r = EAS_OpenMIDIStream(E, &h[i], NULL); MC_CHECK(r == EAS_SUCCESS, "reopen", "after closing everything only %d streams could be opened", i); sut_w2(h[i], 0xc0, i); sut_w3(h[i], 0x90, 60, 127); }
    sut_render(); sut_render(); int want = 0; for (int i = 0; i < NS; i++) want += level[0][i];
    int d = sut_last(0) - want; if (d < 0) d = -d; MC_CHECK(d <= 24, "reopen-sound", "four new streams should put out %d, the output is %d", want, sut_last(0));
    r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "EAS_Shutdown returned %ld", (long)r); MC_CHECK(mc_live() == 0, "leak", "%ld blocks are still allocated after EAS_Shutdown", mc_live());
}
static void prepare8(void) {
    static const dc_note t[] = { { 0, 0, 60, 60, 120 }, { 0, 1, 60, 60, 330 }, { 0, 2, 60, 60, 770 }, { 0, 3, 60, 60, 1700 }, { 0, 4, 60, 60, 3600 } };
    dc_bank(&bank, t, 5, dls_flat, dls_nflat);
    smf_head(&song, 0, 1, 96); int m = smf_trk(&song); smf_ev2(&song, 0, 0xcf, 4); smf_ev3(&song, 0, 0x9f, 60, 127); smf_eot(&song, 100000); smf_endtrk(&song, m);
    by_put(&junk, "This is not music at all, just some text that is long enough.", 60); smf_head(&hdr, 0, 1, 96);
    mc_snap *s = mc_save(NULL); int *lv = mc_big(sizeof(int) * 16);
    for (int k = 0; k < 2; k++) {   /* what each note puts out, alone, on either kind of synthesiser */
        start(); EAS_HANDLE f = NULL, h = NULL;
        if (k) { EAS_RESULT r = open_(&song, &f); MC_CHECK(!r && !EAS_Prepare(E, f), "harness", "prepare"); sut_render(); sut_render(); lv[8] = sut_last(0); }
        MC_CHECK(!EAS_OpenMIDIStream(E, &h, f), "harness", "live");
        for (int i = 0; i < NS; i++) { sut_w2(h, 0xc0, i); sut_w3(h, 0x90, 60, 127); sut_render(); sut_render(); lv[k * 4 + i] = sut_last(0) - (k ? lv[8] : 0); sut_w3(h, 0x80, 60, 0); sut_render(); sut_render(); }
        mc_restore(s);
    }
    for (int i = 0; i < NS; i++) level[0][i] = lv[i], level[1][i] = lv[4 + i]; flevel = lv[8];
}
void mc_body(void) {
    prepare8();
    int d = mc_thorough ? 9 : 8;
    mc_bound("every sequence of opening files, other data and bare headers, opening live streams alone or on a file, preparing, playing notes, closing, ill-placed calls, rendering and restarting up to depth %d with at most %d streams at a time", d, NS);
    mc_model x = { .name = "life", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    mc_explore(&x);
}
