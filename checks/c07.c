/* C07: a Standard MIDI File sounds like its events sent live at the times its tempo map gives.
 * Reference: an independent event list; the player of the library (instance A) runs against a live stream
 * (instance B) that receives every event just before the frame that contains its time; the audio has to be identical. */
#include "sut.h"
const char mc_property[] = "C07";
typedef struct { EAS_DATA_HANDLE e; EAS_HANDLE h; } inst;
static inst A, B;
#define MAXE 24
typedef struct { u32 tick; int track, n; u8 b[12]; u32 tempo; double ms, err; } ev;      /* tempo != 0: tempo change */
typedef struct { ev e[MAXE]; int n, division, ntrk, format, enc; u32 endtick; } song;
/* encodings */
enum { ENC_RUN = 1, ENC_META = 2, ENC_VLQ = 4, ENC_CHUNK = 8, ENC_HEAD = 16, ENC_TRAIL = 32, ENC_ESC = 64, ENC_NOEOT = 128 };
static bytes out;
static void delta(bytes *o, u32 d, int enc) { if (enc & ENC_VLQ && d < 0x80) { by_u8(o, 0x80); by_u8(o, (int)d); } else by_vlq(o, d); }
static void build(song *s) {
    out.n = 0;
    if (s->enc & ENC_HEAD) { by_put(&out, "MThd", 4); by_be32(&out, 9); by_be16(&out, s->format); by_be16(&out, s->ntrk); by_be16(&out, s->division); by_put(&out, "\1\2\3", 3); }
    else smf_head(&out, s->format, s->ntrk, s->division);
    for (int t = 0; t < s->ntrk; t++) {
        if (s->enc & ENC_CHUNK) { by_put(&out, "XyZt", 4); by_be32(&out, 7); by_put(&out, "MTrk\0\0\0", 7); }
        int m = smf_trk(&out); u32 last = 0; int run = 0;
        for (int i = 0; i < s->n; i++) {
            ev *e = &s->e[i]; if (e->track != t) continue;
            u32 d = e->tick - last; last = e->tick;
            if (s->enc & ENC_META) { delta(&out, d, s->enc); by_u8(&out, 0xff); by_u8(&out, 1 + i % 3); by_u8(&out, 3); by_put(&out, "abc", 3); d = 0; }
            if (e->tempo) { delta(&out, d, s->enc); u8 x[6] = { 0xff, 0x51, 3, (u8)(e->tempo >> 16), (u8)(e->tempo >> 8), (u8)e->tempo }; by_put(&out, x, 6); run = 0; continue; }
            delta(&out, d, s->enc);
            if (e->b[0] == 0xff) { by_put(&out, e->b, e->n); run = 0; continue; }
            if (e->b[0] == 0xf0) {
                if (s->enc & ENC_ESC) { by_u8(&out, 0xf0); by_u8(&out, 3); by_put(&out, e->b + 1, 3); by_u8(&out, 0); by_u8(&out, 0xf7); by_u8(&out, e->n - 4); by_put(&out, e->b + 4, e->n - 4); }
                else { by_u8(&out, 0xf0); by_u8(&out, e->n - 1); by_put(&out, e->b + 1, e->n - 1); }
                run = 0; continue;
            }
            if (s->enc & ENC_RUN && run == e->b[0] && !(s->enc & ENC_META)) by_put(&out, e->b + 1, e->n - 1); else by_put(&out, e->b, e->n);
            run = e->b[0];
        }
        if (!(s->enc & ENC_NOEOT)) { delta(&out, s->endtick - last, s->enc); by_put(&out, "\xff\x2f\0", 3); if (s->enc & ENC_TRAIL) by_put(&out, "\0\x90\x3c\x7f", 4); }
        else { delta(&out, s->endtick - last, s->enc); by_put(&out, "\xff\x01\0", 3); }
        smf_endtrk(&out, m);
    }
}
/* time of every event from the tempo map (tempo changes of all tracks, in time order) */
static double quantum(double perTick) { double q = perTick * 1024, r = (double)(long)(q + 0.5); return (q > r ? q - r : r - q) / 1024; }
static double times(song *s, double *enderr) {
    double ms = 0, err = 0, perTick = 500000.0 / s->division / 1000; u32 at = 0; int done[MAXE] = { 0 }, bar = 0;
    for (int k = 0; k < s->n; k++) {
        int b = -1; for (int i = 0; i < s->n; i++) if (!done[i] && (b < 0 || s->e[i].tick < s->e[b].tick || (s->e[i].tick == s->e[b].tick && s->e[i].track < s->e[b].track))) b = i;
        ev *e = &s->e[b]; done[b] = 1; if (bar != 7) { ms += (e->tick - at) * perTick; err += (e->tick - at) * quantum(perTick); } at = e->tick; e->ms = ms; e->err = err;
        /* a setup bar: tempo, time signature and GM system on at the very start; no time passes before the first note then */
        if (!ms && bar < 8) {
            if (bar == 7) { if ((e->b[0] & 0xf0) == 0x90 && e->b[2]) bar = 8; }
            else if (e->tempo) bar |= 1; else if (e->b[0] == 0xff) bar |= 2; else if (e->b[0] == 0xf0 && !memcmp(e->b, "\xf0\x7e\x7f\x09", 4) && e->b[4] != 2) bar |= 4;
        }
        if (e->tempo) { perTick = e->tempo / 1000.0 / s->division; if (perTick > 63) mc_skip(); }
    }
    if (bar == 7) mc_skip();
    *enderr = err + (s->endtick - at) * quantum(perTick);
    return ms + (s->endtick - at) * perTick;
}
static double FR;   /* frame length in ms */
#define GUARDMS 1.1
static int near_edge(const ev *e) {
    double f = e->ms / FR; f = (f - (double)(long)f) * FR;
    return e->ms > 0 && !e->tempo && (f < GUARDMS + e->err || f > FR - GUARDMS - e->err);
}
static int next_ev(song *s, const u8 *done, double until) {
    int b = -1;
    for (int i = 0; i < s->n; i++) if (!done[i] && s->e[i].ms < until && (b < 0 || s->e[i].tick < s->e[b].tick || (s->e[i].tick == s->e[b].tick && s->e[i].track < s->e[b].track))) b = i;
    return b;
}
static bytes quiet;    /* a file without any event: the live stream borrows its synthesizer, so both sides have the same level */
static void counted(EAS_DATA_HANDLE e, EAS_HANDLE h, int want, const char *w, int k) {
    EAS_I32 n = -1; EAS_RESULT r = EAS_GetNoteCount(e, h, &n); MC_CHECK(r == EAS_SUCCESS && n == want, "note-count", "frame %d: %s, EAS_GetNoteCount says %ld notes were played, not %d (result %ld)", k, w, (long)n, want, (long)r);
}
static void play(song *s) {
    int notes = 0; double enderr, end = times(s, &enderr);
    if (end > 1500) mc_skip();
    for (int i = 0; i < s->n; i++) {                   /* keep away from the frame boundaries: the player works in milliseconds */
        if (near_edge(&s->e[i])) mc_skip();
    }
    build(s);
    static EAS_FILE f, f2; static mc_file m, m2; static EAS_PCM a[PCM_MAX]; static u8 done[MAXE];
    mc_fill(0); sut_init(); sut_dry(); A.e = E; A.h = sut_open(sut_file(&f, &m, out.b, out.n));
    sut_init(); sut_dry(); B.e = E; EAS_HANDLE q = sut_open(sut_file(&f2, &m2, quiet.b, quiet.n));
    MC_CHECK(EAS_OpenMIDIStream(E, &B.h, q) == EAS_SUCCESS && B.h, "open-midi", "EAS_OpenMIDIStream on a file stream failed");
    memset(done, 0, sizeof done);
    int last = (int)((end - GUARDMS - enderr) / FR), i; u64 h = 0; EAS_STATE st;
    for (int k = 0; k < last; k++) {
        E = B.e;
        while ((i = next_ev(s, done, (k + 1) * FR)) >= 0) { done[i] = 1; if (!s->e[i].tempo && s->e[i].b[0] != 0xff) sut_write(B.h, s->e[i].b, s->e[i].n); }
        E = A.e; sut_render(); memcpy(a, PCM, sizeof a); E = B.e; sut_render();
        for (int j = 0; j < FRAME * 2; j++) if (a[j] != PCM[j])
            mc_fail("playback", "frame %d (%.1f ms), sample %d: the file plays %d, its events sent live give %d", k, k * FR, j, a[j], PCM[j]);
        h = mc_hash(PCM, sizeof a, h);
        notes = 0; for (int j = 0; j < s->n; j++) notes += done[j] && !s->e[j].tempo && (s->e[j].b[0] & 0xf0) == 0x90 && s->e[j].b[2];
        counted(A.e, A.h, notes, "the file", k); counted(B.e, q, notes, "live", k);
        if (k > 0) { E = A.e; EAS_State(E, A.h, &st); MC_CHECK(st == EAS_STATE_PLAY || (st == EAS_STATE_READY && k * FR < s->e[0].ms + FR), "state", "frame %d of %d: state %ld while events are left", k, last, (long)st); }
    }
    mc_outcome(h);
    /* the end: two frames after the last event at most, then only releases */
    E = A.e; for (int k = 0; k < 3 + (int)(enderr / FR); k++) sut_render();
    EAS_State(E, A.h, &st); MC_CHECK(st == EAS_STATE_STOPPING || st == EAS_STATE_STOPPED, "end", "after the end of the last track the state is %ld", (long)st);
    MC_CHECK(EAS_CloseFile(E, A.h) == EAS_SUCCESS, "close", "EAS_CloseFile failed");
}
static u64 pick(u64 *i, u64 n) { u64 r = *i % n; *i /= n; return r; }
static ev E3(u32 tick, int trk, int a, int b, int c) { ev e; memset(&e, 0, sizeof e); e.tick = tick; e.track = trk; e.b[0] = (u8)a; e.b[1] = (u8)b; e.b[2] = (u8)c; e.n = (a & 0xe0) == 0xc0 ? 2 : 3; return e; }
static ev ET(u32 tick, int trk, u32 us) { ev e; memset(&e, 0, sizeof e); e.tick = tick; e.track = trk; e.tempo = us; return e; }

/* space 1: tempo map and division */
static const int DIV[] = { 24, 96, 120, 192, 384, 480, 960, 15360 };
static const u32 TEMPO[] = { 0, 500000, 250000, 857143, 1500000, 60000 };
static const int DT[] = { 0, 1, 5, 17, 96, 130, 1100 };       /* deltas in 1/192 of a quarter note */
static void mk_tempo(u64 i, song *s) {
    memset(s, 0, sizeof *s); s->division = DIV[pick(&i, 8)]; s->format = 1; s->ntrk = 2;
    u32 t0 = TEMPO[pick(&i, 6)]; int where = (int)pick(&i, 3), trk = (int)pick(&i, 2); u32 t1 = TEMPO[1 + pick(&i, 5)];
    u32 tk = 0; int dt[3]; for (int k = 0; k < 3; k++) { dt[k] = DT[pick(&i, 7)] * s->division / 192; }
    if (t0) s->e[s->n++] = ET(0, trk, t0);
    tk = (u32)dt[0]; s->e[s->n++] = E3(tk, 1, 0x90, 60, 100);
    if (where == 1) s->e[s->n++] = ET(tk, trk, t1);
    tk += (u32)dt[1]; if (where == 2) s->e[s->n++] = ET(tk - (u32)dt[1] / 2, trk, t1);
    s->e[s->n++] = E3(tk, 1, 0x91, 64, 90);
    tk += (u32)dt[2]; s->e[s->n++] = E3(tk, 1, 0x90, 60, 0); s->e[s->n++] = E3(tk, 1, 0x92, 50, 80);
    s->endtick = tk + (u32)(s->division / 4 + 1);
    if (trk == 0) for (int a = 0; a < s->n; a++) if (!s->e[a].tempo) s->e[a].track = 1;
}
/* space 2: kinds of events, simultaneous or not, spread over the tracks */
static const u8 KIND[][4] = { { 0x90, 60, 100 }, { 0x90, 64, 70 }, { 0x80, 60, 0 }, { 0x91, 67, 100 }, { 0x91, 67, 0 }, { 0xc0, 20, 0 }, { 0xb0, 7, 40 }, { 0xb0, 10, 10 }, { 0xb0, 64, 127 }, { 0xb0, 64, 0 },
    { 0xe0, 0, 100 }, { 0xd0, 90, 0 }, { 0x99, 38, 120 }, { 0xb0, 121, 0 }, { 0xb0, 120, 0 }, { 0xf0, 1 }, { 0xa0, 60, 10 }, { 0xc1, 40, 0 }, { 0xf0, 2 } };
#define NK ((int)(sizeof KIND / 4))
static ev EK(u32 tick, int trk, int k) {
    if (KIND[k][0] == 0xf0) { ev e; memset(&e, 0, sizeof e); static const u8 v[] = { 0xf0, 0x7f, 0x7f, 4, 1, 0, 0x50, 0xf7 }, gm[] = { 0xf0, 0x7e, 0x7f, 9, 1, 0xf7 }; e.tick = tick; e.track = trk; e.n = KIND[k][1] == 2 ? 6 : 8; memcpy(e.b, KIND[k][1] == 2 ? gm : v, (size_t)e.n); return e; }
    return E3(tick, trk, KIND[k][0], KIND[k][1], KIND[k][2]);
}
static void mk_kind(u64 i, song *s) {
    memset(s, 0, sizeof *s); s->division = 480; s->ntrk = 2; s->format = 1;
    u32 tk = 3; s->e[s->n++] = E3(tk, 0, 0x90, 57, 90);
    for (int k = 0; k < 3; k++) { tk += pick(&i, 2) ? 11 : 0; int trk = (int)pick(&i, 2); s->e[s->n++] = EK(tk, trk, (int)pick(&i, NK)); }
    s->e[s->n++] = E3(tk + 11, 0, 0x90, 55, 90); s->e[s->n++] = E3(tk + 11, 1, 0x91, 52, 90);
    s->endtick = tk + 40;
}
/* space 3: encodings of the same content */
static void mk_enc(u64 i, song *s) {
    memset(s, 0, sizeof *s); s->enc = (int)pick(&i, 256); s->format = (int)pick(&i, 2); s->ntrk = s->format ? 1 + (int)pick(&i, 3) : 1; s->division = 480; int set = (int)pick(&i, 4);
    if (s->ntrk > 1) s->enc &= ~ENC_NOEOT;      /* a track must have its end event; the end of the file may stand for it */
    static const u8 body[4][6] = { { 0, 1, 2, 3, 4, 5 }, { 15, 0, 0, 6, 7, 1 }, { 12, 12, 10, 10, 0, 11 }, { 5, 0, 15, 15, 8, 2 } };
    u32 tk = 0; for (int k = 0; k < 6; k++) { s->e[s->n++] = EK(tk, k % s->ntrk, body[set][k]); tk += k & 1 ? 13 : 0; }
    s->e[s->n++] = ET(tk, 0, 400000); tk += 94; s->e[s->n++] = E3(tk, s->ntrk - 1, 0x91, 70, 90); s->e[s->n++] = E3(tk, s->ntrk - 1, 0x91, 73, 90); s->endtick = tk + 200;
}
/* space 4: what makes a setup bar, and what does not */
static ev EM(u32 tick, int trk, const char *b, int n) { ev e; memset(&e, 0, sizeof e); e.tick = tick; e.track = trk; e.n = n; memcpy(e.b, b, (size_t)n); return e; }
#define NB 9
static void mk_bar(u64 i, song *s) {
    memset(s, 0, sizeof *s); s->division = 480; s->ntrk = 2; s->format = 1; s->enc = pick(&i, 2) ? ENC_ESC : 0;
    for (int k = 0; k < 4; k++) {
        int x = (int)pick(&i, NB), trk = k == 3 ? (int)pick(&i, 2) : 0; u32 at = k == 3 && pick(&i, 2) ? 12 : 0;
        switch (x) {
        case 1: s->e[s->n++] = ET(at, trk, 400000); break;
        case 2: s->e[s->n++] = EM(at, trk, "\xff\x58\4\4\2\x18\x08", 7); break;
        case 3: s->e[s->n++] = EM(at, trk, "\xf0\x7e\x7f\x09\1\xf7", 6); break;
        case 4: s->e[s->n++] = EM(at, trk, "\xf0\x7e\x7f\x09\3\xf7", 6); break;
        case 5: s->e[s->n++] = EM(at, trk, "\xf0\x7e\x7f\x09\2\xf7", 6); break;
        case 6: s->e[s->n++] = EM(at, trk, "\xf0\x7f\x7f\4\1\0\x50\xf7", 8); break;
        case 7: s->e[s->n++] = E3(at, trk, 0xc0, 20, 0); break;
        case 8: s->e[s->n++] = E3(at, trk, 0x90, 60, 0); break;
        }
    }
    int first = s->n; u32 d = pick(&i, 2) ? 20 : 350; int trk = (int)pick(&i, 2);
    s->e[s->n++] = E3(d, trk, 0x90, 60, 100); s->e[s->n++] = E3(d + 95, 1, 0x91, 64, 90);
    s->e[s->n++] = EM(d + 130, 0, "\xf0\x7f\x7f\4\1\0\x60\xf7", 8); s->e[s->n++] = EM(d + 135, 0, "\xff\x58\4\4\2\x18\x08", 7); s->e[s->n++] = ET(d + 135, 0, 450000);
    s->e[s->n++] = E3(d + 190, trk, 0x90, 62, 80); s->endtick = d + 300;
    /* away from the frame boundaries */
    double er; times(s, &er);
    for (int k = first - 1; k < s->n; k++) if (k >= 0) while (near_edge(&s->e[k])) { for (int j = k; j < s->n; j++) s->e[j].tick++; s->endtick++; times(s, &er); }
}
static void (*MK)(u64, song *);
static song SG;
static void run(u64 i) { MK(i, &SG); play(&SG); }
static void describe(u64 i, char *b, size_t n) {
    static song s; MK(i, &s); int o = snprintf(b, n, "division %d, format %d, %d tracks, encoding %02x:", s.division, s.format, s.ntrk, s.enc);
    for (int k = 0; k < s.n && o < (int)n - 60; k++) if (s.e[k].tempo) o += snprintf(b + o, n - (size_t)o, " [t%d trk%d tempo %u]", s.e[k].tick, s.e[k].track, s.e[k].tempo); else o += snprintf(b + o, n - (size_t)o, " [t%d trk%d %s]", s.e[k].tick, s.e[k].track, hex(s.e[k].b, s.e[k].n));
    snprintf(b + o, n - (size_t)o, " end t%d", s.endtick);
}
void mc_body(void) {
    const S_EAS_LIB_CONFIG *c = EAS_Config(); FR = 1000.0 * (double)c->mixBufferSize / (double)c->sampleRate;
    smf_head(&quiet, 0, 1, 96); int q = smf_trk(&quiet); smf_eot(&quiet, 1000000); smf_endtrk(&quiet, q);
    mc_bound("tempo maps: 8 divisions x 6 initial tempos x 5 tempo changes at 3 places in 2 tracks x 7^3 deltas; event mixes: 3 events from %d kinds x same tick or later x track; encodings: 2^8 (running status, text events, padded delta times, unknown chunks, long header, data after end of track, split SysEx, no end of track) x formats x track counts x 4 contents; setup bars: 4 events from 9 kinds (tempo, time signature, GM 1 and 2 on, GM off, master volume, program, note-off, nothing), the last on either track and then or 12 ticks later, x 2 first notes x 2 tracks x whole or split SysEx", NK);
    mc_assume("events closer than 1.1 ms to a rendering frame boundary and ticks longer than 63 ms are left out, and the length of a tick is granted a rounding to 1/1024 ms: the player counts in milliseconds and with that precision");
    mc_space s = { .run = run, .describe = describe };
    MK = mk_enc; s.name = "encodings"; s.n = 256 * 2 * 3 * 4; mc_enumerate(&s);
    MK = mk_bar; s.name = "setup bars"; s.n = 2ull * NB * NB * NB * NB * 4 * 4; mc_enumerate(&s);
    MK = mk_kind; s.name = "events"; s.n = (u64)NK * NK * NK * 64; mc_enumerate(&s);
    MK = mk_tempo; s.name = "tempo"; s.n = 8ull * 6 * 3 * 2 * 5 * 343; mc_enumerate(&s);
}
