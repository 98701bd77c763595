/* Model of the file player, observed through constant-level instruments: which notes sound at which frame, the
 * reported position and the reported state, under any sequence of render, seek, pause, resume, rate and repeat. */
#ifndef PLAYER_H
#define PLAYER_H
#include "sut.h"
typedef struct { double ms; u8 on, off, ch, key, kind; int a; } pev;      /* kind: 'n' note on, 'f' note off, 'p' program, 'v' volume, 's' sustain, 'e' end */
typedef struct { pev e[40]; int n; double end; bytes file; int division; } psong;
#define P_CH 3
#define P_PROG 3
static const int P_VOL[3] = { 100, 60, 127 };
static int plevel[P_PROG][3];                  /* calibrated output of one note */
static bytes pbank; static psong PS[4]; static int npsong;
static double FR;
/* building: ticks, tempo map given by the song writer */
typedef struct { double ms, pt; u32 tick, last; } pclk;
static void ps_note(psong *s, double ms, int ch, int key, int on) { s->e[s->n++] = (pev){ .ms = ms, .ch = (u8)ch, .key = (u8)key, .kind = on ? 'n' : 'f' }; }

typedef struct { int t; u32 tick; int a, b, c; } raw;       /* t track; a == 0x51: tempo b */
static int rawcmp(const raw *x, const raw *y) { return x->tick != y->tick ? (x->tick < y->tick ? -1 : 1) : x->t - y->t; }
static void ps_make(psong *s, int division, int ntrk, raw *r, int n, u32 endtick) {
    s->n = 0; s->division = division;
    smf_head(&s->file, 1, ntrk, division);
    for (int t = 0; t < ntrk; t++) {
        int m = smf_trk(&s->file); u32 last = 0;
        for (int i = 0; i < n; i++) if (r[i].t == t) {
            u32 d = r[i].tick - last; last = r[i].tick;
            if (r[i].a == 0x51) smf_tempo(&s->file, d, (u32)r[i].b);
            else if (r[i].a == 0x58) smf_meta(&s->file, d, 0x58, "\4\2\30\10", 4);
            else if (r[i].a == 0xf0) { by_vlq(&s->file, d); by_put(&s->file, "\xf0\5\x7e\x7f\11\1\xf7", 7); }
            else if ((r[i].a & 0xe0) == 0xc0) smf_ev2(&s->file, d, r[i].a, r[i].b); else smf_ev3(&s->file, d, r[i].a, r[i].b, r[i].c);
        }
        smf_eot(&s->file, (t == 0 ? endtick : (last < endtick - 1 ? endtick - 1 : last)) - last); smf_endtrk(&s->file, m);
    }
    /* time order, tracks in order at the same tick */
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && rawcmp(&r[j - 1], &r[j]) > 0; j--) { raw x = r[j]; r[j] = r[j - 1]; r[j - 1] = x; }
    double ms = 0, pt = 500.0 / division; u32 at = 0; int bar = 0;
    for (int i = 0; i < n; i++) {
        if (bar != 7) ms += (r[i].tick - at) * pt; at = r[i].tick;
        /* tempo, time signature and GM system on at the very start: a setup bar, which takes no time; the first note ends it */
        if (!ms && bar < 8) { if (r[i].a == 0x51) bar |= 1; if (r[i].a == 0x58) bar |= 2; if (r[i].a == 0xf0) bar |= 4; if (bar == 7 && (r[i].a & 0xf0) == 0x90 && r[i].c) bar = 8; }
        if (r[i].a == 0x58 || r[i].a == 0xf0) continue;
        if (r[i].a == 0x51) { pt = r[i].b / 1000.0 / division; continue; }
        int k = r[i].a & 0xf0, ch = r[i].a & 15; pev *e = &s->e[s->n++]; *e = (pev){ .ms = ms, .ch = (u8)ch };
        if (k == 0x90 && r[i].c) { e->kind = 'n'; e->key = (u8)r[i].b; } else if (k == 0x90 || k == 0x80) { e->kind = 'f'; e->key = (u8)r[i].b; }
        else if (k == 0xc0) { e->kind = 'p'; e->a = r[i].b; } else if (k == 0xb0 && r[i].b == 7) { e->kind = 'v'; for (int v = 0; v < 3; v++) if (P_VOL[v] == r[i].c) e->a = v; }
        else if (k == 0xb0 && r[i].b == 64) { e->kind = 's'; e->a = r[i].c >= 64; }
    }
    s->end = ms + (endtick - at) * pt;
}
static void player_songs(void) {
    /* tempo change in the middle, program and volume changes between the notes, two channels */
    raw a[] = { { 0, 0, 0x51, 600000 }, { 1, 0, 0xc0, 0 }, { 1, 4, 0x90, 60, 100 }, { 2, 20, 0xb1, 7, 60 }, { 1, 24, 0x80, 60, 0 }, { 0, 32, 0x51, 300000 }, { 1, 40, 0xc0, 1 }, { 1, 48, 0x90, 60, 100 },
        { 2, 56, 0x91, 62, 90 }, { 1, 80, 0x90, 60, 0 }, { 2, 100, 0x81, 62, 0 } };
    ps_make(&PS[0], 96, 3, a, sizeof a / sizeof *a, 120);
    /* late first note, everything in one track, sustain pedal, default tempo */
    raw b[] = { { 0, 100, 0xb0, 64, 127 }, { 0, 110, 0x90, 60, 100 }, { 0, 130, 0x80, 60, 0 }, { 0, 190, 0xb0, 64, 0 }, { 0, 200, 0xc0, 2 }, { 0, 215, 0x90, 60, 100 }, { 0, 230, 0xb0, 7, 127 }, { 0, 260, 0x90, 60, 0 } };
    ps_make(&PS[1], 480, 1, b, sizeof b / sizeof *b, 300);
    /* a song of one short note whose last track event is the note */
    raw c[] = { { 0, 10, 0x90, 60, 100 }, { 0, 40, 0x80, 60, 0 } };
    ps_make(&PS[2], 480, 1, c, 2, 60);
    /* a setup bar */
    raw d[] = { { 0, 0, 0xf0 }, { 1, 0, 0x58 }, { 1, 0, 0x51, 400000 }, { 1, 10, 0xc0, 1 }, { 2, 60, 0xb1, 7, 127 }, { 1, 96, 0x90, 60, 100 }, { 2, 110, 0x91, 62, 100 }, { 1, 120, 0x80, 60, 0 }, { 1, 127, 0xc0, 2 }, { 1, 129, 0x90, 61, 100 }, { 2, 150, 0x81, 62, 0 }, { 1, 156, 0x80, 61, 0 } };
    ps_make(&PS[3], 96, 3, d, sizeof d / sizeof *d, 170);
    npsong = 4;
    static const dc_note t[] = { { 0, 0, 60, 62, 300 }, { 0, 1, 60, 62, 1100 }, { 0, 2, 60, 62, 2600 } };
    dc_bank(&pbank, t, 3, dls_flat, dls_nflat);
    const S_EAS_LIB_CONFIG *cf = EAS_Config(); FR = 1000.0 * (double)cf->mixBufferSize / (double)cf->sampleRate;
}

/* ---- state of the model ---- */
static struct {
    EAS_HANDLE h; int song; double pos, rate, err; int started, paused, ended, since_end, cut, repeat; u8 prog[P_CH], vol[P_CH], ped[P_CH];
    struct { u8 on, ch, prog, held; } nt[12]; int pc; int grace, lag, unsure;
} M_;
#define SG (&PS[M_.song])
static EAS_FILE pfile; static mc_file pmem;
static void m_reset_channels(void) { memset(M_.prog, 0, sizeof M_.prog); memset(M_.vol, 0, sizeof M_.vol); memset(M_.ped, 0, sizeof M_.ped); memset(M_.nt, 0, sizeof M_.nt); }
static void player_start(int song) {
    sut_init(); sut_dry(); sut_dls(NULL, &pbank);
    memset(&M_, 0, sizeof M_); M_.song = song; M_.rate = 1;
    M_.h = sut_open(sut_file(&pfile, &pmem, PS[song].file.b, PS[song].file.n));
}
static void m_event(const pev *e, int notes) {
    switch (e->kind) {
    case 'p': M_.prog[e->ch] = (u8)e->a; break;
    case 'v': M_.vol[e->ch] = (u8)e->a; break;
    case 's': if (M_.ped[e->ch] && !e->a) for (int i = 0; i < 12; i++) if (M_.nt[i].on && M_.nt[i].ch == e->ch && M_.nt[i].held) M_.nt[i].on = 0;
        M_.ped[e->ch] = (u8)e->a; break;
    case 'n': if (notes) for (int i = 0; i < 12; i++) if (!M_.nt[i].on) { M_.nt[i].on = e->key; M_.nt[i].ch = e->ch; M_.nt[i].prog = M_.prog[e->ch]; M_.nt[i].held = 0; break; } break;
    case 'f': for (int i = 0; i < 12; i++) if (M_.nt[i].on == e->key && M_.nt[i].ch == e->ch) { if (M_.ped[e->ch]) M_.nt[i].held = 1; else M_.nt[i].on = 0; } break;
    }
}
static int m_level(void) { int v = 0; for (int i = 0; i < 12; i++) if (M_.nt[i].on) v += plevel[M_.nt[i].prog][M_.vol[M_.nt[i].ch]]; return v; }
/* a frame: returns 1 when its level can be checked (no event close to the end of the window) */
#define GUARD_ 1.3
#define GUARD_ 1.3
static void check_location(void) {
    EAS_I32 t = -1; EAS_RESULT r = EAS_GetLocation(E, M_.h, &t);
    MC_CHECK(r == EAS_SUCCESS, "location", "EAS_GetLocation returned %ld", (long)r);
    double want = M_.pos; double d = 1.5 + M_.err;
    if (!M_.ended && SG->end - M_.pos > GUARD_ + M_.err) MC_CHECK(t <= want + d && t >= want - d, "location", "the reported location is %ld ms, the position is %.1f ms", (long)t, want);
}
static void check_state(const char *when) {
    EAS_STATE st = -1; EAS_RESULT r = EAS_State(E, M_.h, &st);
    MC_CHECK(r == EAS_SUCCESS, "state", "EAS_State returned %ld", (long)r);
    if (M_.paused) MC_CHECK(st == EAS_STATE_PAUSED || (st == EAS_STATE_PAUSING && M_.grace), "state-paused", "%s: a paused stream reports state %ld", when, (long)st);
    else if (M_.ended && !M_.repeat) MC_CHECK(st == EAS_STATE_STOPPED || (st == EAS_STATE_STOPPING && M_.since_end < 3), "state-end", "%s: a stream that has ended reports state %ld after %d more frames", when, (long)st, M_.since_end);
    else if (M_.ended) MC_CHECK(st == EAS_STATE_PLAY || st == EAS_STATE_STOPPING || st == EAS_STATE_READY, "state-repeat", "%s: a repeating stream reports state %ld", when, (long)st);
    else MC_CHECK(st == EAS_STATE_PLAY || st == EAS_STATE_READY || (SG->end - M_.pos < GUARD_ + M_.err && (st == EAS_STATE_STOPPING || st == EAS_STATE_STOPPED)), "state-play", "%s: a playing stream reports state %ld at %.1f of %.1f ms", when, (long)st, M_.pos, SG->end);
}
static void check_level(int want) {
    for (int side = 0; side < 2; side++) { int d = sut_last(side) - want; if (d < 0) d = -d; if (d > 24) mc_fail("sounding", "at %.1f ms the notes of the file add up to %d, the output is %d", M_.pos, want, sut_last(side)); }
}
/* a repeating stream that has ended goes back to the start at the end of some frame */
static int restarted(void) {
    EAS_I32 t = -1; EAS_GetLocation(E, M_.h, &t);
    if (t != 0) return 0;
    if (M_.repeat > 0) M_.repeat--;
    EAS_I32 g = -99; EAS_GetRepeat(E, M_.h, &g); MC_CHECK(g == M_.repeat, "repeat-count", "after a repeat the count is %ld instead of %d", (long)g, M_.repeat);
    M_.ended = 0; M_.pc = 0; M_.err = 0; m_reset_channels(); M_.pos = 0; M_.since_end = 0; M_.lag = 1;
    if (M_.unsure) { EAS_STATE st = -1; EAS_State(E, M_.h, &st); M_.paused = st == EAS_STATE_PAUSED || st == EAS_STATE_PAUSING; M_.unsure = 0; }
    return 1;
}
static void player_frame(void) {
    sut_render(); M_.grace = 0;
    if (M_.paused) { M_.lag = 0; memset(M_.nt, 0, sizeof M_.nt); check_level(0); check_location(); check_state("render"); return; }
    if (M_.ended) {
        M_.since_end++;
        if (M_.repeat && restarted()) { check_level(0); check_state("repeat"); return; }
        if (M_.repeat) MC_CHECK(M_.since_end < 6, "repeat", "%d frames after the end a repeating stream has not started again", M_.since_end);
        if (M_.since_end > 2) check_level(0);
        check_state("render"); return;
    }
    if (M_.lag) {           /* the frame after a seek may still belong to the seek: the position then has not moved */
        EAS_I32 t = -1; EAS_GetLocation(E, M_.h, &t); M_.lag = 0;
        if (t < M_.pos + FR * M_.rate * 0.5) { check_level(m_level()); check_location(); check_state("render"); return; }
    }
window:;
    double e = M_.pos + FR * M_.rate; int sure = 1;
    M_.started = 1;
    while (M_.pc < SG->n && SG->e[M_.pc].ms < e - GUARD_ - M_.err) m_event(&SG->e[M_.pc++], 1);
    if (M_.pc < SG->n && SG->e[M_.pc].ms < e + GUARD_ + M_.err) sure = 0;
    if (M_.pc >= SG->n && SG->end < e - GUARD_ - M_.err) { M_.ended = 1; M_.since_end = 0; memset(M_.nt, 0, sizeof M_.nt); sure = 0; }
    else if (SG->end < e + GUARD_ + M_.err) sure = 0;
    M_.pos = e; M_.err += 0.004 * M_.rate;
    if ((M_.ended || SG->end < e + GUARD_ + M_.err) && M_.repeat && restarted()) { check_state("repeat"); return; }
    if (sure) check_level(m_level());
    check_location(); check_state("render");
}
static void player_locate(double ms, int offset, double off) {
    EAS_RESULT r; double target = offset ? M_.pos + off : ms; if (target < 0) target = 0;
    if (offset && (M_.ended || SG->end - M_.pos < GUARD_ + M_.err)) { EAS_I32 t; EAS_GetLocation(E, M_.h, &t); target = t + off; if (target < 0) target = 0; }
    for (int i = 0; offset && i < SG->n; i++) { double d = SG->e[i].ms - target; if (d < 0) d = -d; if (d < 2 + M_.err) mc_skip(); }     /* an event right at the target: either side is fine */
    { double d = SG->end - target; if (offset && d > -2 - M_.err && d < 2 + M_.err) mc_skip(); }
    r = EAS_Locate(E, M_.h, offset ? (EAS_I32)off : (EAS_I32)ms, offset ? EAS_TRUE : EAS_FALSE);
    MC_CHECK(r == EAS_SUCCESS, "locate", "EAS_Locate(%.1f) returned %ld", target, (long)r);
    EAS_I32 t; EAS_GetLocation(E, M_.h, &t);
    double d = target - M_.pos; if (d < 0) d = -d;
    if (d < 1.5 && !M_.ended) mc_skip();                        /* a seek to where it is: may be ignored */
    m_reset_channels(); M_.pc = 0; M_.grace = 0;
    while (M_.pc < SG->n && SG->e[M_.pc].ms < target) m_event(&SG->e[M_.pc++], 0);
    if (!offset) M_.err = 0; else M_.err += 1;
    M_.pos = target; M_.ended = 0; M_.since_end = 0; M_.lag = 1;
    /* a paused stream sought beyond its end has ended; whether the pause survives that is left open */
    if (M_.unsure && target < SG->end) { EAS_STATE st = -1; EAS_State(E, M_.h, &st); M_.paused = st == EAS_STATE_PAUSED || st == EAS_STATE_PAUSING; M_.unsure = 0; }
    if (target >= SG->end) { M_.ended = 1; if (M_.paused) { M_.paused = 0; M_.unsure = 1; } }
    check_location(); if (!M_.ended) check_state("locate");
}
static void player_pause(void) {
    /* whether an event right here has been played already is not known */
    for (int i = 0; !M_.ended && !M_.paused && i < SG->n; i++) { double d = SG->e[i].ms - M_.pos; if (d < 0) d = -d; if (d < GUARD_ + M_.err) mc_skip(); }
    EAS_RESULT r = EAS_Pause(E, M_.h);
    if (M_.unsure) return;
    if (M_.ended) { MC_CHECK(r != EAS_SUCCESS || M_.repeat, "pause-ended", "EAS_Pause of a stream that has ended succeeded"); if (M_.repeat) mc_skip(); return; }
    if (M_.paused) { if (r == EAS_SUCCESS) M_.grace = 1; check_state("pause while paused"); return; }
    if (SG->end - M_.pos < GUARD_ + M_.err && r != EAS_SUCCESS) mc_skip();
    MC_CHECK(r == EAS_SUCCESS, "pause", "EAS_Pause of a playing stream returned %ld", (long)r);
    M_.paused = 1; M_.grace = 1; check_state("pause");
}
static void player_resume(void) {
    EAS_RESULT r = EAS_Resume(E, M_.h);
    if (M_.unsure) { M_.unsure = 0; return; }
    if (!M_.paused) { if (M_.ended) MC_CHECK(r != EAS_SUCCESS || M_.repeat, "resume-ended", "EAS_Resume of a stream that has ended succeeded"); return; }
    MC_CHECK(r == EAS_SUCCESS, "resume", "EAS_Resume of a paused stream returned %ld", (long)r);
    M_.paused = 0; M_.grace = 0; memset(M_.nt, 0, sizeof M_.nt); check_state("resume");
}
static void player_rate(double f) {
    EAS_RESULT r = EAS_SetPlaybackRate(E, M_.h, (EAS_U32)(f * (1 << 28)));
    MC_CHECK(r == EAS_SUCCESS, "rate", "EAS_SetPlaybackRate(%.2f) returned %ld", f, (long)r); M_.rate = f;
}
static void player_repeat(int n) {
    EAS_RESULT r = EAS_SetRepeat(E, M_.h, n); EAS_I32 g = -99; MC_CHECK(r == EAS_SUCCESS, "set-repeat", "EAS_SetRepeat returned %ld", (long)r);
    EAS_GetRepeat(E, M_.h, &g); MC_CHECK(g == n, "get-repeat", "repeat count %d set, %ld reported", n, (long)g); M_.repeat = n;
}
/* from any state: let it play to the end of the song, checking every frame */
static void player_finish(void) {
    if (M_.paused) player_resume();
    int max = (int)(SG->end / FR / M_.rate) * (M_.repeat > 0 ? M_.repeat + 1 : 1) + 12 + 8 * (M_.repeat > 0 ? M_.repeat : 0);
    if (M_.repeat < 0) player_repeat(0);
    for (int i = 0; i < max; i++) player_frame();
    MC_CHECK(M_.ended, "end", "harness: the song should have ended"); EAS_STATE st; EAS_State(E, M_.h, &st);
    MC_CHECK(st == EAS_STATE_STOPPED, "end", "after the end of the song the state is %ld", (long)st); MC_CHECK(pcm_silent(), "end", "sound after the end of the song");
}
static void player_calibrate(void) {
    mc_snap *s = mc_save(NULL); static int lv[P_PROG][3]; static int *keep; keep = mc_big(sizeof lv); int *k = keep;
    /* a quiet file lends its level to the live notes */
    static bytes q; smf_head(&q, 0, 1, 96); int m = smf_trk(&q); smf_eot(&q, 100000); smf_endtrk(&q, m);
    sut_init(); sut_dry(); sut_dls(NULL, &pbank); EAS_HANDLE f = sut_open(sut_file(&pfile, &pmem, q.b, q.n)), h = NULL; EAS_OpenMIDIStream(E, &h, f);
    for (int p = 0; p < P_PROG; p++) for (int v = 0; v < 3; v++) {
        sut_w2(h, 0xc0, p); sut_w3(h, 0xb0, 7, P_VOL[v]); sut_w3(h, 0x90, 60, 100); sut_render(); sut_render(); k[p * 3 + v] = sut_last(0);
        sut_w3(h, 0x80, 60, 0); sut_render(); sut_render();
    }
    mc_restore(s); memcpy(plevel, k, sizeof plevel);
}
#endif
