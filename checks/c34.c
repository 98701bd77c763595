/* C34: JET plays its queue of segments as its manual says (built with JET_INTERFACE).
 *
 * One tick of the segments lasts one frame. The notes are constants whose levels tell collection and key, so that every frame's output can be
 * compared with what the queue should be playing; borders of notes have a slack of two frames, a pass is timed from its first note. */
#include "sut.h"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "jet.h"
#include "eas_parser.h"
#include "jet_data.h"
const char mc_property[] = "C34";
enum { K0 = 58, NK = 12, SL = 2 };
static bytes W[3], bank[5], seg[6]; static EAS_FILE ef[3]; static mc_file em[3];
static int (*LV)[NK];
typedef struct { int t0, t1, key, trk; } nt; typedef struct { int t, ctl, val; } evt;
static const struct { nt n[4]; int nn, loop, end; evt e; } SEG[2] = {
    { { { 0, 14, 60, 1 }, { 16, 30, 62, 3 }, { 8, 24, 64, 2 } }, 3, 36, 36, { 10, 80, 5 } },
    { { { 0, 12, 62, 1 }, { 20, 42, 60, 3 }, { 6, 26, 66, 2 }, { 36, 44, 65, 1 } }, 4, 31, 50, { 16, 81, 9 } } };      /* goes on behind its end marker */
static const struct { int seg, lib, rep, tr, mute, uid; } QV[] = { { 0, -1, 0, 0, 0, 11 }, { 0, 0, 1, 2, 4, 200 }, { 1, 1, 0, 0, 0, 33 }, { 1, 0, 2, -1, 0, 0 }, { 0, 1, -1, 0, 0, 255 } };
enum { NQ = 5 };
/* ---- files ---- */
typedef struct { int t, ord; u8 b[3]; } tev;
static int cmp(const void *a, const void *b) { const tev *x = a, *y = b; return x->t != y->t ? x->t - y->t : x->ord - y->ord; }
static void track(bytes *o, tev *v, int n, int end) { int m = smf_trk(o), t = 0; qsort(v, (size_t)n, sizeof *v, cmp); for (int i = 0; i < n; i++) { smf_ev3(o, v[i].t - t, v[i].b[0], v[i].b[1], v[i].b[2]); t = v[i].t; } smf_eot(o, end - t); smf_endtrk(o, m); }
static void segments(void) {
    for (int s = 0; s < 2; s++) {
        bytes *o = &seg[s]; smf_head(o, 1, 4, 96); int m = smf_trk(o); smf_tempo(o, 0, 557279); smf_eot(o, 0); smf_endtrk(o, m);
        for (int k = 1; k < 4; k++) {
            tev v[20]; int n = 0; for (int i = 0; i < SEG[s].nn; i++) if (SEG[s].n[i].trk == k) { const nt *x = &SEG[s].n[i]; v[n++] = (tev){ x->t0, 2, { (u8)(0x90 | k), (u8)x->key, 127 } }; v[n++] = (tev){ x->t1, 1, { (u8)(0x80 | k), (u8)x->key, 0 } }; }
            if (k == 1) { v[n++] = (tev){ SEG[s].e.t, 0, { 0xb3, (u8)SEG[s].e.ctl, (u8)SEG[s].e.val } }; v[n++] = (tev){ SEG[s].e.t, 0, { 0xb3, 84, 1 } }; if (SEG[s].loop < SEG[s].end) v[n++] = (tev){ SEG[s].loop, 0, { 0xb0, 102, 0 } }; else v[n++] = (tev){ 20, 0, { 0xb0, 102, 1 } }; }
            track(o, v, n, SEG[s].end);
        }
    }
    /* a melody and a clip on a track of its own, twice */
    for (int c = 0; c < 3; c++) {
        bytes *o = &seg[2 + c]; smf_head(o, 1, 3, 96); int m = smf_trk(o); smf_tempo(o, 0, 557279); smf_eot(o, 0); smf_endtrk(o, m); int id = (int[]){ 1, 63, 0 }[c];
        tev v[4] = { { 0, 0, { 0x91, 60, 127 } }, { 60, 0, { 0x81, 60, 0 } } }; track(o, v, 2, 64);
        tev w[12] = { { 10, 0, { 0xb2, 103, (u8)(0x40 | id) } }, { 12, 0, { 0x92, 64, 127 } }, { 20, 0, { 0x82, 64, 0 } }, { 24, 0, { 0xb2, 103, (u8)id } }, { 40, 0, { 0xb2, 103, (u8)(0x40 | id) } }, { 42, 0, { 0x92, 64, 127 } }, { 50, 0, { 0x82, 64, 0 } }, { 54, 0, { 0xb2, 103, (u8)id } } }; track(o, w, 8, 64);
    }
}
/* programs, drums, controllers, a change of tempo, and a note that is never released */
static void rich(bytes *o) {
    smf_head(o, 1, 4, 96); int m = smf_trk(o); smf_tempo(o, 0, 557279); smf_tempo(o, 20, 700000); smf_eot(o, 0); smf_endtrk(o, m);
    tev a[] = { { 0, 0, { 0x90, 60, 100 } }, { 5, 0, { 0xb0, 7, 90 } }, { 9, 0, { 0xb0, 64, 127 } }, { 10, 0, { 0x80, 60, 0 } }, { 14, 0, { 0x90, 67, 80 } }, { 22, 0, { 0x80, 67, 0 } }, { 28, 0, { 0xb0, 64, 0 } }, { 30, 0, { 0xb0, 81, 4 } }, { 34, 0, { 0x90, 72, 127 } } }; track(o, a, 9, 40);
    m = smf_trk(o); smf_ev2(o, 0, 0xc1, 1); smf_ev3(o, 1, 0xb1, 10, 20); smf_ev3(o, 1, 0x91, 55, 110); smf_ev3(o, 6, 0xe1, 0, 0x50); smf_ev2(o, 4, 0xc1, 2); smf_ev3(o, 2, 0x91, 76, 90); smf_ev3(o, 8, 0x81, 55, 0); smf_ev3(o, 12, 0x81, 76, 0); smf_eot(o, 3); smf_endtrk(o, m);
    tev d[] = { { 3, 0, { 0x99, 38, 127 } }, { 5, 0, { 0x89, 38, 0 } }, { 12, 0, { 0x99, 42, 70 } }, { 18, 0, { 0x89, 42, 0 } }, { 39, 0, { 0x99, 49, 127 } } }; track(o, d, 5, 41);
}
static void chunk(bytes *o, const char *tag, const bytes *d) { by_put(o, tag, 4); by_le32(o, (u32)d->n); by_put(o, d->b, d->n); }
static void pair(bytes *o, const char *tag, u32 v) { by_put(o, tag, 4); by_le32(o, v); }
static void jetfile(bytes *o, int order, const bytes *dls, int all) {      /* the same content, chunks in two orders, at odd offsets or with others in between */
    o->n = 0; by_put(o, "JET ", 4); by_le32(o, 0); bytes i = {0}; pair(&i, "JVER", 0x01000000); pair(&i, "SMF#", all ? 6 : 5); pair(&i, "DLS#", 2); if (order) pair(&i, "XXXX", 7); chunk(o, "JINF", &i);
    bytes a = {0}; by_put(&a, "app data", order ? 7 : 8); chunk(o, "JAPP", &a); if (order) chunk(o, "JDLS", &dls[0]);
    chunk(o, "JSMF", &seg[0]); chunk(o, "JSMF", &seg[1]); if (order) chunk(o, "what", &a); if (!order) chunk(o, "JDLS", &dls[0]); chunk(o, "JDLS", &dls[1]); chunk(o, "JSMF", &seg[2]); chunk(o, "JSMF", &seg[3]); chunk(o, "JSMF", &seg[4]); if (all) chunk(o, "JSMF", &seg[5]); if (!order) chunk(o, "JCOP", &a);
    u32 n = (u32)o->n; for (int k = 0; k < 4; k++) o->b[4 + k] = (u8)(n >> 8 * k); by_free(&i); by_free(&a);
}
/* ---- model ---- */
typedef int8_t i8; typedef int16_t i16;
typedef struct { u8 st, qv, now, next, wait, hurt; i8 rep; i16 f; u8 no[4], ev; int old[4]; } pl;     /* st 1 queued 2 current 3 tail; no: 0 to come 1 plays 2 may play 3 does not */
static pl Q[3]; static int nq, playing, paused, settle, wfile;
enum { OQ, OPLAY = NQ, OPAUSE, OR2, OR7, OR40, OMUTE, OUNMUTE, OMUTE3, OSMUTE, OSUNMUTE, OCLEAR, OREOPEN, OBAD, NOPS };
static const char *opname(int o) { static char b[60]; if (o < NQ) { snprintf(b, sizeof b, "queue segment %d, library %d, repeat %d, transposition %d, mute %d, ID %d", QV[o].seg, QV[o].lib, QV[o].rep, QV[o].tr, QV[o].mute, QV[o].uid); return b; } return (const char *[]){ "play", "pause", "2 frames", "7 frames", "40 frames", "mute only track 2", "unmute track 2", "mute track 3", "mute track 2 at the repeat", "unmute all at the repeat", "clear", "close and open the file", "queue what is not there" }[o - NQ]; }
static pl *cur(void) { for (int i = 0; i < nq; i++) if (Q[i].st == 2) return &Q[i]; return NULL; }
static pl *head(void) { for (int i = 0; i < nq; i++) if (Q[i].st < 3) return &Q[i]; return NULL; }
static void drop(int i) { for (nq--; i < nq; i++) Q[i] = Q[i + 1]; memset(&Q[nq], 0, sizeof *Q); }
static void begin(pl *p) { p->st = 2; p->wait = 1; p->f = 0; p->ev = 0; memset(p->no, 0, sizeof p->no); }
static int lev(const pl *p, int n) { return LV[QV[p->qv].lib + 1][SEG[QV[p->qv].seg].n[n].key + QV[p->qv].tr - K0]; }
static int muted(const pl *p, int n) { return p->now >> SEG[QV[p->qv].seg].n[n].trk & 1; }
/* what should and may sound: a player in the frame f of its pass */
static int must, opt[24], nopt;
static void may(int v) { if (v) { if (nopt == 24) mc_fail("harness", "too many notes"); opt[nopt++] = v; } }
static void contrib(pl *p, int f) {
    int s = QV[p->qv].seg;
    for (int n = 0; n < SEG[s].nn; n++) {
        const nt *x = &SEG[s].n[n]; if (f < x->t0 - SL || f > x->t1 + SL) continue; if (p->no[n] == 3) continue;
        if (p->no[n] == 0 && muted(p, n) == 1) continue;
        if (f >= x->t0 + SL && f <= x->t1 - SL && p->no[n] == 1) must += lev(p, n); else may(lev(p, n));
    }
}
static int near(int v, int lo, int hi) { return v >= lo - 4 - lo / 100 && v <= hi + 4 + hi / 100; }
static int some(int v, int base, int i) { return near(v, base, base) || (i < nopt && (some(v, base + opt[i], i + 1) || some(v, base, i + 1))); }
static void started(pl *p) { int s = QV[p->qv].seg; for (int n = 0; n < SEG[s].nn; n++) if (p->no[n] == 0 && p->f >= SEG[s].n[n].t0) { int m = muted(p, n); p->no[n] = m ? 3 : 1; if (p->hurt) p->no[n] = m == 1 ? 3 : 2; } }
/* a change of the mute flags: notes about to start or just started may or may not be heard; 2: undecided */
static void mutenow(int mask, int v) {
    pl *p = head(); if (!p) return; int s = QV[p->qv].seg, w = (p->next & ~mask) | v, d = p->now ^ w;
    if (p->st == 2 && !p->wait) for (int n = 0; n < SEG[s].nn; n++) if (d >> SEG[s].n[n].trk & 1 && p->f >= SEG[s].n[n].t0 - SL && p->f <= SEG[s].n[n].t0 + SL) p->no[n] = 2;
    p->now = p->next = (u8)w;
}
static const char *what(void) { static char b[200]; int o = 0; b[0] = 0; for (int i = 0; i < nq; i++) o += snprintf(b + o, sizeof b - (size_t)o, " [%s segment %d ID %d, tick %d%s]", (const char *[]){ "", "queued", paused ? "paused" : "playing", "ending" }[Q[i].st], QV[Q[i].qv].seg, QV[Q[i].qv].uid, Q[i].f, Q[i].wait ? ", about to start" : ""); return b; }
static void events(void) {
    EAS_U32 raw; S_JET_EVENT e, e2; while (JET_GetEvent(E, &raw, &e)) {
        JET_ParseEvent(raw, &e2); MC_CHECK(!memcmp(&e, &e2, sizeof e), "event", "JET_ParseEvent does not agree with JET_GetEvent"); int ok = 0;
        for (int i = 0; i < nq && !ok; i++) { const evt *v = &SEG[QV[Q[i].qv].seg].e; if (Q[i].st >= 2 && QV[Q[i].qv].uid == e.segment && v->ctl == e.controller && v->val == e.value && !Q[i].ev && Q[i].f >= v->t - SL - 1) { MC_CHECK(e.channel == 3 && e.track == 1, "event", "an event of track 1, channel 3 is reported for track %d, channel %d", e.track, e.channel); Q[i].ev = 1; ok = 1; } }
        MC_CHECK(ok, "event", "an event is reported that did not happen: ID %d controller %d value %d;%s", e.segment, e.controller, e.value, what());
    }
}
static void leave(pl *p) { const evt *v = &SEG[QV[p->qv].seg].e; MC_CHECK(p->ev || p->f < v->t + SL, "event", "the event at tick %d of segment %d was not reported", v->t, QV[p->qv].seg); }
static int sure(void) { for (int i = 0; i < nq; i++) { if (Q[i].wait && (Q[i].rep != QV[Q[i].qv].rep || i)) return 0; int s = QV[Q[i].qv].seg; if (Q[i].st == 2 && Q[i].f >= SEG[s].loop - SL - 1) return 0; if (Q[i].st == 3 && Q[i].f >= SEG[s].end - SL) return 0; } return !settle; }
static void status(void) {
    S_JET_STATUS s; memset(&s, 0x55, sizeof s); EAS_I32 none = s.location; EAS_RESULT r = JET_Status(E, &s); MC_CHECK(r == EAS_SUCCESS, "status", "JET_Status returned %ld", (long)r);
    if (!sure()) { if (!cur()) playing = !s.paused; if (!head()) return; return; }
    pl *h = head(); MC_CHECK(s.numQueuedSegments == nq, "queued", "%d segments are said to be queued, not %d;%s", s.numQueuedSegments, nq, what());
    MC_CHECK((s.paused == 0) == playing, "paused", "said to be %s;%s", s.paused ? "paused" : "playing", what());
    MC_CHECK(s.currentUserID == (h ? QV[h->qv].uid : -1), "current", "the current segment is said to be the one of ID %d;%s", s.currentUserID, what());
    if (h) MC_CHECK(s.segmentRepeatCount == h->rep, "repeats", "%d repeats are said to be left, not %d;%s", s.segmentRepeatCount, h->rep, what());
    if (h && h->st == 2 && !h->wait && (s.location != none || h->f > 3)) { double at = h->f * 5.80499; MC_CHECK(s.location > at - 30 && s.location < at + 30, "location", "position %ld ms in tick %d of a segment", (long)s.location, h->f); }
}
static void frame(void) {
    sut_render(); int v = sut_last(0); pl *c = paused ? NULL : cur(); if (settle) settle--;
    must = nopt = 0; for (int i = 0; i < nq; i++) if (Q[i].st == 3) contrib(&Q[i], Q[i].f);
    if (c && c->wait) {
        int first = lev(c, 0); for (int n = 0; n < 4; n++) may(c->old[n]);
        int a = some(v, must + first, 0);
        MC_CHECK(a || some(v, must, 0) || settle, "between", "the output is %d, should be %d, or %d with the new pass;%s", v, must, must + first, what());
        if (a) { c->wait = 0; memset(c->old, 0, sizeof c->old); c->f = 0; started(c); } else { c->wait++; MC_CHECK(c->wait < 10, "start", "a segment does not start;%s", what()); }
    } else {
        if (c) contrib(c, c->f);
        MC_CHECK(some(v, must, 0) || settle, "sound", "the output is %d, should be %d and %d open notes;%s", v, must, nopt, what());
    }
    events();
    for (int i = nq - 1; i >= 0; i--) {
        pl *p = &Q[i]; int s = QV[p->qv].seg; if (p->st == 3) { p->f++; started(p); if (p->f > SEG[s].end + 10) drop(i); continue; }
        if (p != c || p->wait) continue;
        p->f++; started(p); if (p->f < SEG[s].loop - SL) continue;
        /* the end of the pass may come in any of the next frames */
        int go = 0; { int nx = -1; for (int k = i + 1; k < nq; k++) if (Q[k].st == 1) { nx = k; break; } go = p->f >= SEG[s].loop + 1; (void)nx; }
        if (!go) continue;
        leave(p);
        if (p->rep) { for (int n = 0; n < SEG[s].nn; n++) p->old[n] = p->no[n] != 3 && p->no[n] && p->f <= SEG[s].n[n].t1 + SL ? lev(p, n) : 0; if (p->rep > 0) p->rep--; p->now = p->next; begin(p); p->hurt = 0; }
        else { p->st = 3; for (int k = i + 1; k < nq; k++) if (Q[k].st == 1) { begin(&Q[k]); break; } }
    }
    /* a queue that has run dry stops for good when its last segment has died away */
    if (playing && !cur()) { S_JET_STATUS s; JET_Status(E, &s); if (s.paused) { int tails = 0; for (int i = 0; i < nq; i++) if (Q[i].f < SEG[QV[Q[i].qv].seg].end - SL) tails++; MC_CHECK(!tails && !head(), "stopped", "playing stops before the last segment ends;%s", what()); playing = 0; nq = 0; memset(Q, 0, sizeof Q); } }
}
static int enabled(int o, int at) {
    pl *h = head(); (void)at;
    switch (o) { case OMUTE: case OUNMUTE: case OMUTE3: return 1; case OSMUTE: case OSUNMUTE: return h && h->st == 2 && h->rep && sure(); case OPAUSE: { pl *c = cur(); return !c || !c->wait || (c == Q && c->wait == 1 && c->rep == QV[c->qv].rep); } case OBAD: case OREOPEN: return nq < 3; default: return 1; }
}
static void open(void) { wfile ^= 1; EAS_RESULT r = JET_OpenFile(E, sut_file(&ef[wfile], &em[wfile], W[wfile].b, W[wfile].n)); MC_CHECK(r == EAS_SUCCESS, "open", "JET_OpenFile returned %ld", (long)r); }
static void gone(void) { settle = 2; nq = 0; memset(Q, 0, sizeof Q); playing = paused = 0; }
static void apply(int o) {
    EAS_RESULT r; pl *h = head(), *c = cur();
    if (o < NQ) {
        int full = nq == 3, may = 0; for (int i = 0; i < nq; i++) if (Q[i].st == 3 && Q[i].f >= SEG[QV[Q[i].qv].seg].end - SL) may = 1;
        r = JET_QueueSegment(E, QV[o].seg, QV[o].lib, QV[o].rep, QV[o].tr, (EAS_U32)QV[o].mute, (EAS_U8)QV[o].uid);
        if (r == EAS_ERROR_QUEUE_IS_FULL && (full || may)) return; MC_CHECK(r == EAS_SUCCESS && (!full || may), "queue", "JET_QueueSegment returned %ld;%s", (long)r, what());
        if (nq == 3) { int i; for (i = 0; i < nq; i++) if (Q[i].st == 3) break; drop(i); }
        pl *p = &Q[nq++]; memset(p, 0, sizeof *p); p->st = 1; p->qv = (u8)o; p->rep = (i8)QV[o].rep; p->now = p->next = (u8)QV[o].mute; if (playing && !c) begin(p);
    } else switch (o) {
    case OPLAY: r = JET_Play(E); if (playing) { MC_CHECK(r == EAS_ERROR_NOT_VALID_IN_THIS_STATE, "play", "JET_Play while playing returned %ld", (long)r); break; }
        if (!h) { MC_CHECK(r == EAS_ERROR_QUEUE_IS_EMPTY, "play", "JET_Play without a segment returned %ld", (long)r); break; }
        MC_CHECK(r == EAS_SUCCESS, "play", "JET_Play returned %ld;%s", (long)r, what()); playing = 1; settle = 2; if (paused) { paused = 0; } else begin(h); break;
    case OPAUSE: r = JET_Pause(E); if (!playing) { MC_CHECK(r == EAS_ERROR_NOT_VALID_IN_THIS_STATE, "pause", "JET_Pause while not playing returned %ld", (long)r); break; }
        if (!c) { MC_CHECK(r == EAS_ERROR_QUEUE_IS_EMPTY, "pause", "JET_Pause without a segment returned %ld", (long)r); break; }
        MC_CHECK(r == EAS_SUCCESS, "pause", "JET_Pause returned %ld;%s", (long)r, what()); playing = 0; paused = 1; settle = 3;
        for (int n = 0; n < SEG[QV[c->qv].seg].nn; n++) { if (c->no[n] == 1) c->no[n] = 2; if (c->no[n] == 0 && c->f > SEG[QV[c->qv].seg].n[n].t0 - SL && c->st == 2 && !c->wait) c->no[n] = 2; } break;
    case OR2: case OR7: case OR40: { int n = (int[]){ 2, 7, 40 }[o - OR2]; for (int k = 0; k < n; k++) frame(); break; }
    case OMUTE: case OUNMUTE: case OMUTE3: r = o == OMUTE ? JET_SetMuteFlags(E, 4, EAS_FALSE) : o == OUNMUTE ? JET_SetMuteFlag(E, 2, EAS_FALSE, EAS_FALSE) : JET_SetMuteFlag(E, 3, EAS_TRUE, EAS_FALSE); if (sure()) MC_CHECK(r == (h ? EAS_SUCCESS : EAS_ERROR_QUEUE_IS_EMPTY), "mute", "muting returned %ld;%s", (long)r, what()); if (o == OMUTE) mutenow(255, 4); else mutenow(o == OUNMUTE ? 4 : 8, o == OUNMUTE ? 0 : 8); break;
    case OSMUTE: case OSUNMUTE: r = o == OSMUTE ? JET_SetMuteFlag(E, 2, EAS_TRUE, EAS_TRUE) : h->rep & 1 ? JET_SetMuteFlag(E, 2, EAS_FALSE, EAS_TRUE) : JET_SetMuteFlags(E, 0, EAS_TRUE); MC_CHECK(r == EAS_SUCCESS, "mute", "muting at the repeat returned %ld;%s", (long)r, what()); h->next = (u8)(o == OSMUTE ? h->next | 4 : h->rep & 1 ? h->next & ~4 : 0); break;
    case OCLEAR: r = JET_Clear_Queue(E); MC_CHECK(r == EAS_SUCCESS, "clear", "JET_Clear_Queue returned %ld", (long)r); gone(); break;
    case OREOPEN: r = JET_CloseFile(E); MC_CHECK(r == EAS_SUCCESS, "close", "JET_CloseFile returned %ld", (long)r); gone(); open(); break;
    case OBAD: { static const int b[][2] = { { 5, 0 }, { -1, 0 }, { 0, 2 }, { 31, -1 } }; for (int k = 0; k < 4; k++) { r = JET_QueueSegment(E, b[k][0], b[k][1], 0, 0, 0, 77); MC_CHECK(r == EAS_ERROR_PARAMETER_RANGE, "range", "queueing segment %d, library %d returned %ld", b[k][0], b[k][1], (long)r); } r = JET_SetMuteFlag(E, 32, EAS_TRUE, EAS_FALSE); MC_CHECK(r == EAS_ERROR_PARAMETER_RANGE, "range", "muting track 32 returned %ld", (long)r); r = JET_OpenFile(E, sut_file(&ef[2], &em[2], W[0].b, W[0].n)); MC_CHECK(r == EAS_ERROR_FILE_ALREADY_OPEN, "range", "opening a second file returned %ld", (long)r); break; }
    }
    status();
}
static int mode_;
static void leaf(void) {
    EAS_RESULT r; for (int k = 0; k < 3; k++) frame();
    r = nq & 1 ? JET_CloseFile(E) : EAS_SUCCESS; MC_CHECK(r == EAS_SUCCESS, "close", "JET_CloseFile returned %ld", (long)r);
    r = JET_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "JET_Shutdown returned %ld", (long)r);
    for (int k = 0; k < 3; k++) sut_render(); MC_CHECK(pcm_silent(), "silence", "sound after JET_Shutdown");
    r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "leak", "%ld blocks are left", (long)mc_live());
}
static void setup(void) {
    memset(Q, 0, sizeof Q); nq = playing = paused = settle = 0; wfile = 1; sut_init(); sut_dry(); sut_dls(NULL, &bank[0]);
    EAS_RESULT r = JET_Init(E, NULL, 0); MC_CHECK(r == EAS_SUCCESS, "init", "JET_Init returned %ld", (long)r); open();
    EAS_I32 off = -1, n = -1; r = JET_GetAppData(E, &off, &n); MC_CHECK(r == EAS_SUCCESS && n == 8 && !memcmp(W[0].b + off, "app data", 8), "app-data", "the application's data are said to be at %ld, %ld bytes", (long)off, (long)n);
    if (mode_ == 1) { apply(0); apply(2); apply(OPLAY); } if (mode_ == 2) { apply(3); apply(OPLAY); apply(OR7); apply(1); } if (mode_ == 3) { apply(2); apply(OPLAY); apply(OR40); }
}
/* ---- clips ---- */
enum { NCL = 7 };
static const struct { int seg, id, trig, before; } CL[NCL] = { { 2, 1, 1, -1 }, { 3, 63, 63, -1 }, { 2, 1, 2, -1 }, { 4, 0, 0, -1 }, { 4, 0, 1, -1 }, { 2, 1, 1, 0 }, { 4, 0, 0, 5 } };       /* before: another clip is triggered as well */
static void run_clip(u64 i) {
    int c = (int)(i % NCL); i /= NCL; int mu = (int)(i % 2); i /= 2; int t1 = (int)(i % 70) * 2, t2 = t1 + (int)(i / 70) * 5; int id = CL[c].id, trig = CL[c].trig;
    mode_ = 0; setup(); EAS_RESULT r = JET_QueueSegment(E, CL[c].seg, 0, 1, 0, mu ? 4 : 0, 9); MC_CHECK(r == EAS_SUCCESS, "queue", "JET_QueueSegment returned %ld", (long)r); r = JET_Play(E); MC_CHECK(r == EAS_SUCCESS, "play", "JET_Play returned %ld", (long)r);
    if (CL[c].before >= 0) JET_TriggerClip(E, CL[c].before);
    int m = LV[1][60 - K0], k = LV[1][64 - K0]; sut_render(); for (int q = 0; q < 4 && !near(sut_last(0), m, m); q++) sut_render(); MC_CHECK(near(sut_last(0), m, m), "start", "the segment does not start");
    /* what should be heard of the clip; -1: open */
    int st = mu, pend = 0, act = 0, open_ = 0, pass = 0, f = 0, dur = 0, hz = 0;
    for (int t = 0; t < 150; t++) {
        if (t == t1 || t == t2) { r = JET_TriggerClip(E, trig); MC_CHECK(r == EAS_SUCCESS, "trigger", "JET_TriggerClip returned %ld", (long)r); if (trig == id) { if (hz) open_ = 1; pend++; hz = 3; for (int q = 0; q < 2; q++) if (abs(f - (q ? 40 : 10)) <= 3 || abs(f - (q ? 54 : 24)) <= 3) open_ = 1; } }
        sut_render(); f++; if (hz) hz--; if (pass == 0 && f > 66) { int q; for (q = 0; q < 8 && !near(sut_last(0), m, m); q++) { sut_render(); if (t + 1 == t1 || t + 1 == t2) { open_ = 1; } } MC_CHECK(q < 8, "repeat", "the segment is not repeated"); pass = 1; f = 0; continue; }
        for (int q = 0; q < 2; q++) { int b = q ? 40 : 10; if (f == b && pend) { pend--; act = 1; st = 0; } if (f == b + 14 && act) { act = 0; st = 1; } }
        int inn = (f >= 12 + 2 && f <= 20 - 2) || (f >= 42 + 2 && f <= 50 - 2), out = f < 10 || (f > 22 && f < 40) || (f > 52 && f < 58); if (open_ || !(inn || out) || f >= 58) continue;
        int want = m + (inn && !st ? k : 0); MC_CHECK(near(sut_last(0), want, want), "clip", "tick %d of pass %d: the output is %d, should be %d (clip %s, triggered after %d and %d frames)", f, pass, sut_last(0), want, st ? "off" : "on", t1, t2);
    }
    (void)dur; r = JET_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "JET_Shutdown returned %ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "leak", "%ld blocks are left", (long)mc_live()); mc_outcome((u64)(st * 4 + pend * 2 + act));
}
static void d_clip(u64 i, char *b, size_t n) { int c = (int)(i % NCL), mu = (int)(i / NCL % 2), t1 = (int)(i / (2 * NCL) % 70) * 2; snprintf(b, n, "clip %d, track %smuted, clip %d triggered after %d and %d frames%s", CL[c].id, mu ? "" : "not ", CL[c].trig, t1, t1 + (int)(i / (2 * NCL) / 70) * 5, CL[c].before >= 0 ? ", another one before" : ""); }
static EAS_PCM (*out)[400 * 512];
/* ---- a segment sounds like the file it was made from ---- */
static const int TP[] = { 0, 7, -12 };
enum { NT = 3 };
static void run_like(u64 i) {
    int sg = (int)(i % 6); i /= 6; int lib = (int)(i % 3) - 1; i /= 3; int tp = TP[i % NT]; i /= NT; int vol = i % 2 ? 60 : 0;
    EAS_RESULT r; int n[2] = {0}; 
    for (int side = 0; side < 2; side++) {
        sut_init(); sut_dry(); EAS_HANDLE h = NULL; if (vol) EAS_SetVolume(E, NULL, vol);
        if (!side) { r = EAS_OpenFile(E, sut_file(&ef[0], &em[0], seg[sg].b, seg[sg].n), &h); MC_CHECK(r == EAS_SUCCESS, "like", "EAS_OpenFile returned %ld", (long)r); r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "like", "EAS_Prepare returned %ld", (long)r); if (lib >= 0) sut_dls(h, &bank[3 + lib]); if (tp) { r = EAS_SetTransposition(E, h, tp); MC_CHECK(r == EAS_SUCCESS, "like", "EAS_SetTransposition returned %ld", (long)r); } }
        else { r = JET_Init(E, NULL, 0); MC_CHECK(r == EAS_SUCCESS, "init", "JET_Init returned %ld", (long)r); r = JET_OpenFile(E, sut_file(&ef[1], &em[1], W[2].b, W[2].n)); MC_CHECK(r == EAS_SUCCESS, "open", "JET_OpenFile returned %ld", (long)r); r = JET_QueueSegment(E, sg, lib, 0, tp, 0, 5); MC_CHECK(r == EAS_SUCCESS, "queue", "JET_QueueSegment returned %ld", (long)r); r = JET_Play(E); MC_CHECK(r == EAS_SUCCESS, "play", "JET_Play returned %ld", (long)r); }
        for (int k = 0; k < 20; k++) { sut_render(); if (!pcm_silent()) break; }
        for (n[side] = 0; n[side] < 400; n[side]++) { memcpy(&out[side][n[side] * 512], PCM, 1024); sut_render(); if (n[side] > 80 && pcm_silent()) { int q; for (q = 0; q < 8; q++) { sut_render(); if (!pcm_silent()) break; } if (q == 8) break; memset(&out[side][n[side] * 512], 0, 1024); } }
        if (side) { S_JET_STATUS s; for (int k = 0; k < 900; k++) { sut_render(); JET_Status(E, &s); if (s.paused) break; } MC_CHECK(s.paused && s.numQueuedSegments == 0 && s.currentUserID == -1, "end", "after the end of its only segment JET is %s, %d segments queued", s.paused ? "paused" : "playing", s.numQueuedSegments); r = JET_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "JET_Shutdown returned %ld", (long)r); }
        else EAS_CloseFile(E, h);
        EAS_Shutdown(E); MC_CHECK(mc_live() == 0, "leak", "%ld blocks are left", (long)mc_live());
    }
    MC_CHECK(n[0] > 20 && n[0] == n[1], "like", "the file sounds for %d frames, the segment for %d", n[0], n[1]);
    for (int k = 0; k < n[0] * 512; k++) MC_CHECK(out[0][k] == out[1][k], "like", "frame %d of the segment differs from the file's: %d, should be %d", k / 512, out[1][k], out[0][k]);
    mc_outcome(mc_hash(out[0], (size_t)n[0] * 1024, 1));
}
static void d_like(u64 i, char *b, size_t n) { snprintf(b, n, "segment %d, library %d, transposition %d, master volume %s", (int)(i % 6), (int)(i / 6 % 3) - 1, TP[i / 18 % NT], i / 54 ? "60" : "as it was"); }
/* ---- segments of many tracks: flags, events and clips of one track do not touch the others ---- */
static const int TN[] = { 1, 2, 8, 30, 31, 32, 33, 40, 62, 63, 64, 65, 66, 94 };
enum { NTN = 14 };
static void run_tracks(u64 i) {
    int T = TN[i % NTN]; i /= NTN; int U = TN[i % NTN]; i /= NTN; int how = (int)i; if (how < 3 && U > 31) mc_skip();
    /* a note on track T from tick 20 to 30, an event on track U at tick 3, a clip on track U around it (how 3, 4) */
    bytes f = {0}, o = {0}; smf_head(&f, 1, 96, 96); int m = smf_trk(&f); smf_tempo(&f, 0, 557279); smf_eot(&f, 0); smf_endtrk(&f, m);
    for (int t = 1; t < 96; t++) {
        tev v[8]; int n = 0;
        if (t == U) { v[n++] = (tev){ 3, 0, { 0xb2, 82, 77 } }; if (how > 2) { v[n++] = (tev){ 5, 0, { 0xb2, 103, 0x47 } }; v[n++] = (tev){ 36, 0, { 0xb2, 103, 7 } }; } }
        if (t == T) { v[n++] = (tev){ 20, 0, { 0x91, 64, 127 } }; v[n++] = (tev){ 30, 0, { 0x81, 64, 0 } }; }
        track(&f, v, n, 40);
    }
    by_put(&o, "JET ", 4); by_le32(&o, 0); bytes in = {0}; pair(&in, "SMF#", 2); chunk(&o, "JINF", &in); by_free(&in); chunk(&o, "JSMF", &seg[0]); chunk(&o, "JSMF", &f); for (int k = 0; k < 4; k++) o.b[4 + k] = (u8)((u32)o.n >> 8 * k);
    sut_init(); sut_dry(); sut_dls(NULL, &bank[0]); EAS_RESULT r = JET_Init(E, NULL, 0); MC_CHECK(r == EAS_SUCCESS, "init", "JET_Init returned %ld", (long)r);
    r = JET_OpenFile(E, sut_file(&ef[0], &em[0], o.b, o.n)); MC_CHECK(r == EAS_SUCCESS, "open", "JET_OpenFile returned %ld", (long)r);
    r = JET_QueueSegment(E, 1, -1, 0, 0, how == 0 ? (EAS_U32)1 << U : 0, 201); MC_CHECK(r == EAS_SUCCESS, "queue", "JET_QueueSegment returned %ld", (long)r); if (how == 4) JET_TriggerClip(E, 7);
    r = JET_Play(E); MC_CHECK(r == EAS_SUCCESS, "play", "JET_Play returned %ld", (long)r);
    if (how == 1) r = JET_SetMuteFlags(E, (EAS_U32)1 << U, EAS_FALSE); if (how == 2) r = JET_SetMuteFlag(E, U, EAS_TRUE, EAS_FALSE); MC_CHECK(r == EAS_SUCCESS, "mute", "muting track %d returned %ld", U, (long)r);
    int k = LV[0][64 - K0], ev = 0, heard = 0; EAS_U32 raw; S_JET_EVENT e;
    for (int t = 0; t < 45; t++) { sut_render(); if (near(sut_last(0), k, k)) heard++; else MC_CHECK(near(sut_last(0), 0, 0), "tracks", "the output is %d", sut_last(0)); while (JET_GetEvent(E, &raw, &e)) { ev++; MC_CHECK(e.segment == 201 && e.channel == 2 && e.controller == 82 && e.value == 77 && (U > 63 || e.track == U), "event", "the event of segment ID 201, track %d is reported for ID %d, track %d, channel %d, controller %d, value %d", U, e.segment, e.track, e.channel, e.controller, e.value); } }
    MC_CHECK(ev == 1 || (U > 63 && !ev), "event", "the event of track %d is reported %d times", U, ev);
    int want = how < 3 ? T != U : 1; if (how == 3 && T == U && U < 32) want = 1;       /* markers of a clip that is not triggered do nothing */
    MC_CHECK(want ? heard >= 8 && heard <= 13 : !heard, "tracks", "the note on track %d sounds in %d frames", T, heard);
    r = JET_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "JET_Shutdown returned %ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "leak", "%ld blocks are left", (long)mc_live()); by_free(&f); by_free(&o); mc_outcome((u64)(heard * 2 + ev));
}
static void d_tracks(u64 i, char *b, size_t n) { snprintf(b, n, "a note on track %d, track %d %s", TN[i % NTN], TN[i / NTN % NTN], (const char *[]){ "queued muted", "muted with others unmuted", "muted", "has a clip", "has a triggered clip" }[i / NTN / NTN]); }
/* any set of clips triggered beforehand, in either order: these play, in the order of the song, the others do not */
static void run_set(u64 i) {
    int set = (int)(i & 511), down = (int)(i >> 9 & 1), late = (int)(i >> 10), n = 0, got = 0; bytes f = {0}, o = {0}; tev v[40]; int c = 0;
    for (int k = 0; k < 9; k++) { int id = 7 * k, t = 6 + 8 * k; v[c++] = (tev){ t, 0, { 0xb1, 103, (u8)(0x40 | id) } }; v[c++] = (tev){ t + 1, 0, { 0x91, (u8)(K0 + k), 127 } }; v[c++] = (tev){ t + 6, 0, { 0x81, (u8)(K0 + k), 0 } }; v[c++] = (tev){ t + 7, 0, { 0xb1, 103, (u8)id } }; }
    smf_head(&f, 1, 2, 96); int m = smf_trk(&f); smf_tempo(&f, 0, 557279); smf_eot(&f, 0); smf_endtrk(&f, m); track(&f, v, c, 84);
    by_put(&o, "JET ", 4); by_le32(&o, 0); bytes in = {0}; pair(&in, "SMF#", 1); chunk(&o, "JINF", &in); by_free(&in); chunk(&o, "JSMF", &f); for (int k = 0; k < 4; k++) o.b[4 + k] = (u8)((u32)o.n >> 8 * k);
    sut_init(); sut_dry(); sut_dls(NULL, &bank[0]); EAS_RESULT r = JET_Init(E, NULL, 0); MC_CHECK(r == EAS_SUCCESS, "init", "JET_Init returned %ld", (long)r); r = JET_OpenFile(E, sut_file(&ef[0], &em[0], o.b, o.n)); MC_CHECK(r == EAS_SUCCESS, "open", "JET_OpenFile returned %ld", (long)r);
    r = JET_QueueSegment(E, 0, -1, 0, 0, 2, 1); MC_CHECK(r == EAS_SUCCESS, "queue", "JET_QueueSegment returned %ld", (long)r); r = JET_Play(E); MC_CHECK(r == EAS_SUCCESS, "play", "JET_Play returned %ld", (long)r);
    if (late) sut_render();
    for (int q = 0; q < 9; q++) { int k = down ? 8 - q : q; if (!(set >> k & 1)) continue; r = JET_TriggerClip(E, 7 * k); MC_CHECK(r == (n < 8 ? EAS_SUCCESS : EAS_ERROR_QUEUE_IS_FULL), "trigger", "trigger number %d returned %ld", n + 1, (long)r); if (n < 8) got |= 1 << k; n++; }
    MC_CHECK(JET_TriggerClip(E, 64) == EAS_ERROR_PARAMETER_RANGE && JET_TriggerClip(E, -1) == EAS_ERROR_PARAMETER_RANGE, "trigger", "a clip beyond 63 can be triggered");
    int seen = 0; for (int t = 0; t < 100; t++) { sut_render(); int w = sut_last(0), ok = near(w, 0, 0); for (int k = 0; k < 9; k++) if (near(w, LV[0][k], LV[0][k])) { seen |= 1 << k; ok = 1; } MC_CHECK(ok, "clip", "the output is %d", w); }
    MC_CHECK(seen == got, "clip", "clips of the set %03x play, triggered were %03x", seen, got);
    r = JET_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "shutdown", "JET_Shutdown returned %ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "leak", "%ld blocks are left", (long)mc_live()); by_free(&f); by_free(&o); mc_outcome((u64)seen);
}
static void d_set(u64 i, char *b, size_t n) { snprintf(b, n, "the clips of the set %03x triggered in %s order%s", (int)(i & 511), i >> 9 & 1 ? "descending" : "ascending", i >> 10 ? " after the start" : ""); }
static void measure(void) {
    for (int l = 0; l < 3; l++) for (int k = 0; k < NK; k++) {
        bytes o = {0}; smf_head(&o, 0, 1, 96); int m = smf_trk(&o); smf_tempo(&o, 0, 557279); smf_ev3(&o, 0, 0x91, K0 + k, 127); smf_ev3(&o, 30, 0x81, K0 + k, 0); smf_eot(&o, 1); smf_endtrk(&o, m);
        sut_init(); sut_dry(); EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef[0], &em[0], o.b, o.n), &h); MC_CHECK(r == EAS_SUCCESS, "measure", "EAS_OpenFile returned %ld", (long)r); r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "measure", "EAS_Prepare returned %ld", (long)r); sut_dls(h, &bank[l]);
        for (int q = 0; q < 8; q++) sut_render(); LV[l][k] = sut_last(0); MC_CHECK(LV[l][k] > 20, "measure", "library %d key %d: level %d", l, K0 + k, LV[l][k]); EAS_CloseFile(E, h); EAS_Shutdown(E); by_free(&o);
    }
}
void mc_body(void) {
    LV = mc_big(sizeof(int[3][NK])); out = mc_big(2 * sizeof *out);
    for (int l = 0; l < 3; l++) { dc_note t[NK]; for (int k = 0; k < NK; k++) t[k] = (dc_note){ .bank = 0, .prog = 0, .klo = K0 + k, .khi = K0 + k, .level = (int[]){ 500, 2100, 4300 }[l] + (int[]){ 101, 157, 231 }[l] * k }; dc_bank(&bank[l], t, NK, dls_flat, dls_nflat); }
    segments(); rich(&seg[5]); for (int k = 0; k < 2; k++) jetfile(&W[k], k, bank + 1, 0);
    static d_conn wc[16]; memcpy(wc, dls_flat, (size_t)dls_nflat * sizeof *wc); for (int i = 0; i < dls_nflat; i++) if (wc[i].dst == 0x209) wc[i].scale = -3500 * 65536;
    for (int l = 0; l < 2; l++) { dc_note t[4]; for (int k = 0; k < 4; k++) t[k] = (dc_note){ .bank = k == 3 ? 0x80000000u : 0, .prog = k == 3 ? 0 : k, .klo = 20, .khi = 110, .level = 900 + 1300 * l + 211 * k }; dc_bank(&bank[3 + l], t, 4, wc, dls_nflat); }
    jetfile(&W[2], 1, bank + 3, 1); measure();
    mc_bound("every sequence of up to %d of %d operations (queueing 5 variants of segments with collections, repeats, transpositions and mutes, play, pause, 2, 7 or 40 frames, muting now and at the repeat, clear, closing and opening, refused calls) from an empty queue, up to %d from three others; a clip triggered at 70 x 14 pairs of moments in 14 settings; 512 sets of clips x 4; 14 x 14 pairs of 96 tracks x 5 kinds of muting", mc_thorough ? 7 : 6, NOPS, mc_thorough ? 7 : 6);
    mc_model m = { .nops = NOPS, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1, .cpu_limit = 20 };
    static const char *const nm[] = { "queue", "two queued, playing", "repeats, playing", "tail" };
    for (mode_ = 0; mode_ < 4; mode_++) { m.name = nm[mode_]; m.depth = (mc_thorough ? 7 : 6); mc_explore(&m); }
    mc_space k = { .name = "like the file", .n = 6 * 3 * NT * 2, .run = run_like, .describe = d_like, .cpu_limit = 10 }; mc_enumerate(&k);
    mc_space j = { .name = "tracks", .n = NTN * NTN * 5, .run = run_tracks, .describe = d_tracks, .cpu_limit = 10 }; mc_enumerate(&j);
    mc_space z = { .name = "sets of clips", .n = 2048, .run = run_set, .describe = d_set, .cpu_limit = 10 }; mc_enumerate(&z);
    mc_space s = { .name = "clips", .n = (u64)NCL * 2 * 70 * 14, .run = run_clip, .describe = d_clip, .cpu_limit = 10 }; mc_enumerate(&s);
}
